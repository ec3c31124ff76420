"""Path-sensitive abstract interpreter over LLVM IR.

Domain: linear expressions over symbolic values, interval and disequality facts, a region memory with lazily named
unknown contents, and a set of finite "ghost" components used by typestate monitors.  Paths are kept apart (trace
partitioning); loops are closed by generalising the values that change (affine in an iteration counter, otherwise
unknown with the bounds that are inductive) and iterating to a fixpoint.  Nothing is executed and no solver is used."""
import sys
import time
from fractions import Fraction
from math import gcd
from ir import Reg, Const, loop_headers, succs
import lin as L
from lin import K, ZERO, ONE, V, add, sub, scale, is_const, single, canon, show

BIG = 1 << 72
OPS = {'urem', 'and', 'or', 'xor', 'mul', 'udiv', 'shl', 'lshr', 'zext', 'sext', 'trunc', 'cmp', 'ashr', 'srem', 'sdiv'}


class Limit(Exception):
    pass


class Region:
    __slots__ = ('cells', 'ranges', 'init', 'n')

    def __init__(s, cells, ranges, init, n):
        s.cells, s.ranges, s.init, s.n = cells, ranges, init, n


class Frame:
    __slots__ = ('fn', 'regs', 'bb', 'i', 'prev', 'callins', 'allocas', 'loops', 'owner', 'va', 'uid', 'onret')


ELIMINATE = False      # whether inequalities are also decided by eliminating symbols (texts whose lengths are divided)


class LoopEntry:
    __slots__ = ('count', 's0', 'ctx', 'ver', 'phis', 'T', 'splits')

    def copy(s):
        n = LoopEntry()
        for k in s.__slots__:
            setattr(n, k, getattr(s, k))
        return n


DEPTH = 2           # facts combined to show an inequality


class State:
    __slots__ = ('frames', 'mem', 'facts', 'sub', 'ghost', 'jmp', 'freed', 'vers', 'trace', 'end', 'dead', 'notes')

    def __init__(s):
        s.frames = ()
        s.mem = {}
        s.facts = {}
        s.sub = {}
        s.ghost = {}
        s.jmp = {}
        s.freed = {}
        s.vers = ()
        s.trace = None
        s.end = None
        s.dead = False
        s.notes = ()

    def clone(s):
        n = State()
        n.frames = s.frames
        n.mem = dict(s.mem)
        n.facts = dict(s.facts)
        n.sub = s.sub
        n.ghost = dict(s.ghost)
        n.jmp = s.jmp
        n.freed = s.freed
        n.vers = s.vers
        n.trace = s.trace
        n.end = s.end
        n.notes = s.notes
        for f in s.frames:
            f.owner = None
        return n

    def top(s):
        f = s.frames[-1]
        if f.owner is not s:
            n = Frame()
            n.fn, n.bb, n.i, n.prev, n.callins, n.va, n.uid, n.onret = f.fn, f.bb, f.i, f.prev, f.callins, f.va, f.uid, f.onret
            n.regs = dict(f.regs)
            n.allocas = f.allocas
            n.loops = f.loops
            n.owner = s
            s.frames = s.frames[:-1] + (n,)
            return n
        return f

    # ---------- normalisation
    def norm(s, l):
        if not s.sub or not l[1]:
            return l
        hit = False
        for y, _ in l[1]:
            if y in s.sub or (L._terms[y][0] in OPS):
                hit = True
                break
        if not hit:
            return l
        out = (l[0], ())
        for y, c in l[1]:
            r = s.sub.get(y)
            if r is not None:
                out = add(out, r, c)
                continue
            t = L._terms[y]
            if t[0] in OPS:
                r = s.reterm(y, t)
                if r is not None:
                    out = add(out, r, c)
                    continue
            out = add(out, (0, ((y, c),)))
        return out

    def reterm(s, y, t):
        ch = False
        args = []
        for x in t[1:]:
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple):
                z = s.norm(x)
                ch = ch or z != x
                args.append(z)
            else:
                args.append(x)
        if not ch:
            return None
        return evalop(s, t[0], *args)

    # ---------- facts
    def bound(s, l):
        """(lo, hi) from facts about exactly this linear form and per-symbol bounds"""
        if not l[1]:
            return l[0], l[0]
        key, sg, g = canon(l)
        lo, hi = -BIG, BIG
        f = s.facts.get(key)
        if f:
            a, b = f[0], f[1]
            if sg < 0:
                a, b = -b, -a
            lo, hi = (a * g + l[0] if abs(a) < BIG else -BIG), (b * g + l[0] if abs(b) < BIG else BIG)
        slo, shi = l[0], l[0]
        for y, c in l[1]:
            a, b = s.symbound(y)
            if c < 0:
                a, b = b, a
            slo = slo + c * a if slo > -BIG and abs(a) < BIG else -BIG
            shi = shi + c * b if shi < BIG and abs(b) < BIG else BIG
        return max(lo, slo), min(hi, shi)

    def symbound(s, y):
        a, b = L._bounds[y]
        a = -BIG if a is None else a
        b = BIG if b is None else b
        f = s.facts.get(((y, 1),))
        if f:
            a, b = max(a, f[0]), min(b, f[1])
        return a, b

    def lower(s, l, depth=None, seen=()):
        if depth is None:
            depth = DEPTH
        lo, _ = s.bound(l)
        if lo >= 0 or depth == 0 or not l[1]:
            return lo
        coef = dict(l[1])
        for key, f in s.facts.items():
            if len(key) < 2 or key in seen:
                continue
            for y, c in key:
                m = coef.get(y)
                if m is None or m % c:
                    continue
                t = m // c
                # l = rest + t*key ; key >= f.lo or key <= f.hi
                if t > 0:
                    if f[0] <= -BIG:
                        continue
                    kb = f[0]
                else:
                    if f[1] >= BIG:
                        continue
                    kb = f[1]
                rest = add(l, (0, key), -t)
                rest = (rest[0] + t * kb, rest[1])
                if len(rest[1]) > len(l[1]) + 1:
                    continue
                v = s.lower(rest, depth - 1, seen + (key,))
                if v > lo:
                    lo = v
                    if lo >= 0:
                        return lo
                break
        return lo

    def ge0(s, l, depth=None):
        l = s.norm(l)
        if not l[1]:
            return l[0] >= 0
        lo = s.lower(l, depth)
        if lo >= 0:
            return True
        g = canon(l)[2]
        if g > 1 and lo > -g:
            # the variable part is a multiple of g
            if -(-(lo - l[0]) // g) * g + l[0] >= 0:
                return True
        if ELIMINATE and depth is None:
            return s.entails(l)
        return False

    def entails(s, l):
        """integer Fourier-Motzkin elimination over the facts connected with l: does its negation contradict them?"""
        ver = [(k, f) for k, f in s.facts.items() if len(k) > 1 or abs(f[0]) < BIG or abs(f[1]) < BIG]
        syms = {y for y, _ in l[1]}
        rows = {}
        used = set()

        def row(x):
            g = 0
            for _, c in x[1]:
                g = gcd(g, abs(c))
            if not g:
                return x[0] < 0
            k = tuple((y, c // g) for y, c in x[1])
            c = x[0] // g      # rounded down: only whole numbers count
            if k not in rows or rows[k] > c:
                rows[k] = c
            o = tuple((y, -c) for y, c in k)
            return o in rows and rows[o] + rows[k] < 0
        if row(add(scale(l, -1), K(-1))):
            return True
        for depth in range(3):
            new = set()
            for k, f in ver:
                if k in used or len(k) < 2 or not any(y in syms for y, _ in k):
                    continue
                if depth == 2 and sum(y in syms for y, _ in k) < len(k):
                    continue
                used.add(k)
                new |= {y for y, _ in k}
                if f[0] > -BIG and row((-f[0], k)) or f[1] < BIG and row(scale((-f[1], k), -1)):
                    return True
            syms |= new
            if len(used) > 30:
                break
        for y in syms:
            a, b = s.symbound(y)
            if a > -BIG and row((-a, ((y, 1),))) or b < BIG and row((b, ((y, -1),))):
                return True
        # equalities: a symbol with coefficient 1 is replaced; when there is none, one is introduced (as in the Omega test)
        new = -1
        for turn in range(12):
            eq = None
            for k, c in rows.items():
                if rows.get(tuple((y, -a) for y, a in k), c) == -c and len(k) > 0 and (c or tuple((y, -a) for y, a in k) in rows):
                    a = min(abs(a) for _, a in k)
                    if eq is None or (a, len(k)) < eq[0]:
                        eq = ((a, len(k)), k, c)
            if eq is None:
                break
            (a, _), k, c = eq
            y = min(k, key=lambda x: abs(x[1]))[0]
            ay = dict(k)[y]
            if a == 1:
                val = scale((c, tuple(x for x in k if x[0] != y)), -ay)
            else:
                mod = a + 1
                hat = lambda n: n - mod * ((2 * n + mod) // (2 * mod))
                sg = 1 if ay > 0 else -1
                val = (sg * hat(c), tuple(sorted([(z, sg * hat(b)) for z, b in k if z != y and hat(b)] + [(new, -sg * mod)])))
                syms.add(new)
                new -= 1
            old, rows = rows, {}
            syms.discard(y)
            for k, c in old.items():
                d = dict(k)
                x = (c, k)
                if y in d:
                    x = add((c, tuple(z for z in k if z[0] != y)), val, d[y])
                if row(x):
                    return True
            if row(ZERO):
                return True
        while syms:
            best = None
            for y in syms:
                p = sum(1 for k in rows if any(z == y and c > 0 for z, c in k))
                n = sum(1 for k in rows if any(z == y and c < 0 for z, c in k))
                if best is None or p * n - p - n < best[0]:
                    best = (p * n - p - n, y)
            y = best[1]
            syms.discard(y)
            pos = [(c, k) for k, c in rows.items() if dict(k).get(y, 0) > 0]
            neg = [(c, k) for k, c in rows.items() if dict(k).get(y, 0) < 0]
            if len(pos) * len(neg) > 400:
                return False
            for x in pos + neg:
                del rows[x[1]]
            for a in pos:
                ca = dict(a[1])[y]
                for b in neg:
                    cb = -dict(b[1])[y]
                    if row(add(scale(a, cb), b, ca)):
                        return True
        return False

    def ne0(s, l):
        l = s.norm(l)
        if not l[1]:
            return l[0] != 0
        key, sg, g = canon(l)
        if l[0] % g:
            return True
        f = s.facts.get(key)
        tgt = -l[0] // g * sg
        if f and (tgt in f[2]):
            return True
        regs = 0
        others = False
        for y, c in l[1]:
            t = L._terms[y]
            if t[0] in ('reg', 'glob') and abs(c) == 1:
                regs += c
            else:
                others = True
        if not others:
            return True   # nonzero combination of distinct object addresses
        return s.lower(add(l, ONE, -1)) >= 0 or s.lower(add(scale(l, -1), ONE, -1)) >= 0

    def eq0(s, l):
        l = s.norm(l)
        if not l[1]:
            return l[0] == 0
        lo, hi = s.bound(l)
        if lo == hi == 0:
            return True
        return s.ge0(l) and s.ge0(scale(l, -1))

    def assume_ge0(s, l):
        l = s.norm(l)
        if not l[1]:
            return l[0] >= 0
        key, sg, g = canon(l)
        # sg*g*K + c >= 0
        f = s.facts.get(key, (-BIG, BIG, frozenset()))
        lo, hi, ne = f
        if sg > 0:
            nlo = -(l[0] // g)
            lo = max(lo, nlo)
        else:
            nhi = l[0] // g
            hi = min(hi, nhi)
        return s._setfact(key, lo, hi, ne)

    def _setfact(s, key, lo, hi, ne):
        while lo in ne and lo <= hi:
            lo += 1
        while hi in ne and lo <= hi:
            hi -= 1
        if len(key) == 1:
            a, b = L._bounds[key[0][0]]
            if a is not None and a > lo:
                lo = a
            if b is not None and b < hi:
                hi = b
            while lo in ne and lo <= hi:
                lo += 1
        if lo > hi:
            return False
        s.facts[key] = (lo, hi, ne)
        # contradiction with other facts
        if hi < BIG:
            if s.lower(add(scale((0, key), 1), K(hi + 1), -1), 2) >= 0:
                return False
        if lo > -BIG:
            if s.lower(add(K(lo - 1), (0, key), -1), 2) >= 0:
                return False
        if lo == hi and len(key) == 1:
            return s.learn(key[0][0], K(lo))
        if lo == hi and len(key) == 2 and abs(key[0][1]) == 1 and abs(key[1][1]) == 1:
            return s.assume_eq0(add((0, key), K(lo), -1))
        return True

    def assume_ne0(s, l):
        l = s.norm(l)
        if not l[1]:
            return l[0] != 0
        if s.eq0(l):
            return False
        y = single(l)
        key, sg, g = canon(l)
        if l[0] % g:
            return True
        tgt = -l[0] // g * sg
        lo, hi, ne = s.facts.get(key, (-BIG, BIG, frozenset()))
        if len(key) == 1:
            a, b = L._bounds[key[0][0]]
            lo = max(lo, -BIG if a is None else a)
            hi = min(hi, BIG if b is None else b)
        return s._setfact(key, lo, hi, ne | {tgt})

    def assume_eq0(s, l):
        l = s.norm(l)
        if not l[1]:
            return l[0] == 0
        if s.ne0(l):
            return False
        y = single(l)
        if y is not None and L._terms[y][0] == 'urem':
            # what is divided is a multiple
            q = L._index.get(('udiv',) + L._terms[y][1:])
            if q is not None and is_const(L._terms[y][2]):
                x = s.norm(sub(L._terms[y][1], scale(V(q), L._terms[y][2][0])))
                if x[1] and x != l and y not in dict(x[1]) and s.ge0(L._terms[y][1]) and not s.assume_eq0(x):
                    return False
        # choose a symbol to eliminate
        best = None
        for y, c in l[1]:
            if abs(c) != 1:
                continue
            t = L._terms[y]
            if t[0] in ('reg', 'glob'):
                continue
            rank = {'fresh': 5, 'ld': 4, 'uninit': 4, 'arg': 3}.get(t[0], 1)
            if t[0] in OPS:
                rank = 0
            if any(mentions(x, y) for x, _ in l[1] if x != y):
                continue
            if best is None or rank > best[0]:
                best = (rank, y, c)
        if best is None:
            key, sg, g = canon(l)
            if l[0] % g:
                return False
            v = -l[0] // g * sg
            lo, hi, ne = s.facts.get(key, (-BIG, BIG, frozenset()))
            if not (lo <= v <= hi) or v in ne:
                return False
            s.facts[key] = (v, v, ne)
            return True
        _, y, c = best
        rest = add(l, (0, ((y, c),)), -1)
        val = scale(rest, -c)      # c = +-1
        return s.learn(y, val)

    def learn(s, y, val):
        if y in s.sub:
            return s.assume_eq0(sub(s.sub[y], val))
        a, b = L._bounds[y]
        old = s.facts.get(((y, 1),))
        m = {y: val}
        s.sub = {k: L.subst(v, m) for k, v in s.sub.items()}
        s.sub[y] = val
        ok = True
        if a is not None:
            ok = ok and s.assume_ge0(sub(val, K(a)))
        if b is not None and ok:
            ok = ok and s.assume_ge0(sub(K(b), val))
        if not ok:
            return False
        # rewrite facts
        facts = s.facts
        todo = []
        for key in list(facts):
            if any(k == y or L._terms[k][0] in OPS for k, _ in key):
                nl = s.norm((0, key))
                if nl != (0, key) and key in facts:
                    todo.append((nl, facts.pop(key)))
        for nl, (lo, hi, ne) in todo:
            if lo > -BIG and not s.assume_ge0(sub(nl, K(lo))):
                return False
            if hi < BIG and not s.assume_ge0(sub(K(hi), nl)):
                return False
            for n in ne:
                if not s.assume_ne0(sub(nl, K(n))):
                    return False
        # implied condition of a boolean
        t = L._terms[y]
        if t[0] == 'cmp' and not val[1]:
            if not assume_cmp(s, t, bool(val[0])):
                return False
        if t[0] in ('and', 'or') and not val[1]:
            if t[0] == 'or' and val[0] == 0:
                if not (s.assume_eq0(t[1]) and s.assume_eq0(t[2])):
                    return False
        # rewrite memory
        for base in list(s.mem):
            r = s.mem[base]
            nb = base
            if base == y:
                nb = single(val)
                if nb is None and val[1]:
                    nb = baseof(val)
            ch = nb != base
            cells = {}
            for off, (sz, v, q) in r.cells.items():
                no, nv = s.norm(off), s.norm(v)
                if no != off or nv != v:
                    ch = True
                cells[no] = (sz, nv, q)
            ranges = r.ranges
            if any(s.norm(x[0]) != x[0] or s.norm(x[1]) != x[1] for x in ranges):
                ranges = tuple((s.norm(x[0]), s.norm(x[1])) + x[2:] for x in ranges)
                ch = True
            if ch:
                if nb != base:
                    del s.mem[base]
                    if nb is None:
                        continue
                    delta = sub(val, V(nb))
                    o = s.mem.get(nb)
                    if o is not None:
                        oc = dict(o.cells)
                        for off, c in cells.items():
                            oc[add(off, delta)] = c
                        s.mem[nb] = Region(oc, o.ranges + ranges, o.init, max(o.n, r.n) + 1)
                    else:
                        s.mem[nb] = Region({add(off, delta): c for off, c in cells.items()}, ranges, r.init, r.n)
                else:
                    s.mem[base] = Region(cells, ranges, r.init, r.n)
        if y in s.freed:
            nb = single(val)
            if nb is not None:
                s.freed = dict(s.freed)
                s.freed[nb] = s.freed.pop(y)
        for k, v in list(s.ghost.items()):
            if k[0] == '#':
                s.ghost[k] = s.norm(v)
        return True

    def log(s, text):
        s.trace = (s.trace, text)

    def path(s, limit=60):
        out = []
        t = s.trace
        while t and len(out) < limit:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


_ment = {}


def mentions(a, y):
    """does symbol a's term mention symbol y"""
    k = (a, y)
    r = _ment.get(k)
    if r is None:
        r = _ment[k] = a == y or _mterm(L._terms[a], y)
    return r


def _mterm(t, y):
    if t[0] in ('reg', 'glob', 'fresh', 'arg', 'fp'):
        return False
    if t[0] in ('ld', 'uninit', 'hv'):
        if t[1] == y or mentions(t[1], y):
            return True
        return any(mentions(x, y) for x, _ in t[2][1])
    for x in t[1:]:
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple):
            if any(mentions(z, y) for z, _ in x[1]):
                return True
    return False


_newest = {}


def newest(y):
    """largest number of a fresh symbol that y is made of"""
    r = _newest.get(y)
    if r is None:
        t = L._terms[y]
        if t[0] == 'fresh':
            r = t[2]
        elif t[0] in ('reg', 'glob', 'arg', 'fp'):
            r = -1
        else:
            r = -1
            for x in t[1:]:
                if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple):
                    for z, _ in x[1]:
                        r = max(r, newest(z))
            if t[0] in ('ld', 'uninit', 'hv') and isinstance(t[1], int):
                r = max(r, newest(t[1]))
        _newest[y] = r
    return r


def newer(y, n):
    return newest(y) > n


def lmentions(l, ys):
    return any(mentions(x, y) for x, _ in l[1] for y in ys)


def baseof(l):
    """base symbol of an address"""
    cand = [y for y, c in l[1] if c == 1]
    if not cand:
        return None
    for y in cand:
        if L._terms[y][0] in ('reg', 'glob'):
            return y
    p = [y for y in cand if L._isptr[y]]
    if len(p) >= 1:
        return p[0]
    if len(l[1]) == 1:
        return cand[0]
    return cand[0]


def assume_cmp(st, t, truth):
    """t = ('cmp', pred, a, b, w)"""
    _, pred, a, b, w = t
    return assume(st, pred, a, b, w, truth)


NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule', 'slt': 'sge', 'sge': 'slt',
       'sle': 'sgt', 'sgt': 'sle'}


def uns(l, w, st=None):
    if not l[1]:
        return (l[0] + (1 << w), ()) if l[0] < 0 else l
    if st is not None and st.bound(l)[1] < 0:
        return (l[0] + (1 << w), l[1])      # certainly negative as a signed number: a large unsigned one
    return l


def assume(st, pred, a, b, w, truth=True):
    if not truth:
        pred = NEG[pred]
    a, b = st.norm(a), st.norm(b)
    if pred == 'eq':
        return st.assume_eq0(sub(a, b)) if not boolish(st, a, b, True) else st.assume_eq0(sub(a, b))
    if pred == 'ne':
        d = sub(a, b)
        y = None
        if len(d[1]) == 1:
            y = d[1][0][0]
            lo, hi = st.symbound(y)
            if lo == 0 and hi == 1:       # boolean: x != v  ==>  x == 1-v
                c = d[1][0][1]
                if d[0] % abs(c) == 0:
                    v = -d[0] // c
                    if v in (0, 1):
                        return st.learn(y, K(1 - v))
        return st.assume_ne0(d)
    if pred[0] == 'u':
        a, b = uns(a, w, st), uns(b, w, st)
        if pred in ('ult', 'ule'):
            k = 1 if pred == 'ult' else 0
            if not is_const(a) or not is_const(b):
                # a <= b - k unsigned; when b is known small, a is non-negative too
                if is_const(b) and b[0] < BIG:
                    if not st.assume_ge0(a):
                        return False
                if is_const(b) and b[0] >= BIG:
                    return True
            return st.assume_ge0(sub(sub(b, a), K(k)))
        k = 1 if pred == 'ugt' else 0
        if is_const(a) and a[0] >= BIG:
            return True
        if is_const(b) and b[0] >= BIG:
            return st.ge0(a) is False or False
        if is_const(b) and b[0] == 0 and k == 1:
            return st.assume_ne0(a)
        return st.assume_ge0(sub(sub(a, b), K(k)))
    if pred in ('slt', 'sle'):
        return st.assume_ge0(sub(sub(b, a), K(1 if pred == 'slt' else 0)))
    return st.assume_ge0(sub(sub(a, b), K(1 if pred == 'sgt' else 0)))


def boolish(st, a, b, x):
    return False


def decide(st, pred, a, b, w):
    """True / False / None"""
    a, b = st.norm(a), st.norm(b)
    if pred[0] == 'u':
        a, b = uns(a, w, st), uns(b, w, st)
    elif is_const(a) and is_const(b):
        m = 1 << w
        sa = a[0] % m
        sb = b[0] % m
        sa = sa - m if sa >= m >> 1 else sa
        sb = sb - m if sb >= m >> 1 else sb
        a, b = K(sa), K(sb)
    d = sub(a, b)
    if is_const(d):
        c = d[0]
        return {'eq': c == 0, 'ne': c != 0, 'ult': c < 0, 'ule': c <= 0, 'ugt': c > 0, 'uge': c >= 0,
                'slt': c < 0, 'sle': c <= 0, 'sgt': c > 0, 'sge': c >= 0}[pred]
    if pred in ('eq', 'ne'):
        if st.ne0(d):
            return pred == 'ne'
        if st.eq0(d):
            return pred == 'eq'
        return None
    if pred in ('ugt', 'uge', 'sgt', 'sge'):
        a, b = b, a
        pred = {'ugt': 'ult', 'uge': 'ule', 'sgt': 'slt', 'sge': 'sle'}[pred]
        d = sub(a, b)
    # a < b  or a <= b
    k = 1 if pred in ('ult', 'slt') else 0
    if pred[0] == 'u':
        if is_const(b) and b[0] >= BIG and not is_const(a):
            return True if k == 1 or True else None
        if is_const(a) and a[0] >= BIG and not is_const(b):
            return False
    if st.ge0(sub(sub(b, a), K(k))):
        return True if pred[0] == 's' or st.ge0(a) or not is_const(b) else None
    if st.ge0(sub(sub(a, b), K(1 - k))):
        return False
    return None


def wrap(v, w, signed=True):
    m = 1 << w
    v %= m
    if signed and v >= m >> 1:
        v -= m
    return v


def isbool(st, l):
    lo, hi = st.bound(l)
    return lo >= 0 and hi <= 1


def evalop(st, op, *args):
    """symbolic evaluation of an operator with linear arguments; last args may be widths"""
    if op == 'cmp':
        pred, a, b, w = args
        r = decide(st, pred, a, b, w) if st is not None else None
        if r is not None:
            return ONE if r else ZERO
        d = sub(a, b)
        if pred in ('eq', 'ne') and is_const(b) and b[0] == 0 and single(a) is not None and L.term(single(a))[0] in ('sext', 'zext'):
            t = L.term(single(a))
            return evalop(st, 'cmp', pred, t[1], ZERO, t[2])
        if pred in ('eq', 'ne') and len(d[1]) == 1:
            # comparison of a boolean with 0/1 collapses
            y, c = d[1][0]
            if st is not None:
                lo, hi = st.symbound(y)
                if lo == 0 and hi == 1 and d[0] % abs(c) == 0:
                    v = -d[0] // c
                    if v in (0, 1):
                        pos = (pred == 'eq') == (v == 1)
                        return V(y) if pos else add(ONE, V(y), -1)
        return V(L.sym(('cmp', pred, a, b, w), lo=0, hi=1))
    if op == 'urem':
        a, b, w = args
        if is_const(b) and b[0] > 0:
            if is_const(a):
                return K(a[0] % (1 << w) % b[0])
            if b[0] == 1:
                return ZERO
            ra = (a[0] % b[0], tuple((y, c) for y, c in a[1] if c % b[0]))
            if not ra[1]:
                return K(ra[0])
            if st is not None:
                lo, hi = st.bound(a)
                if lo >= 0 and hi < b[0]:
                    return a
                if ELIMINATE and lo >= 0 and b[0] & (b[0] - 1):
                    return sub(a, scale(evalop(st, 'udiv', a, b, w), b[0]))
            return V(L.sym(('urem', ra, b, w), lo=0, hi=b[0] - 1))
        return V(L.sym(('urem', a, b, w), lo=0))
    if op == 'srem':
        a, b, w = args
        if is_const(a) and is_const(b) and b[0]:
            r = abs(a[0]) % abs(b[0])
            return K(r if a[0] >= 0 else -r)
        return evalop(st, 'urem', a, b, w)
    if op in ('udiv', 'sdiv'):
        a, b, w = args
        if is_const(b) and b[0] > 0:
            if is_const(a):
                v = a[0] if op == 'sdiv' else a[0] % (1 << w)
                return K(v // b[0] if v >= 0 else -(-v // b[0]))
            if a[0] % b[0] == 0 and all(c % b[0] == 0 for _, c in a[1]):
                return (a[0] // b[0], tuple((y, c // b[0]) for y, c in a[1]))
            q = L.sym((op, a, b, w))
            if st is not None:
                lo, hi = st.bound(a)
                if lo >= 0 and q not in st.sub:
                    # b*q <= a <= b*q + b-1
                    st.assume_ge0(V(q))
                    st.assume_ge0(sub(a, scale(V(q), b[0])))
                    st.assume_ge0(sub(add(scale(V(q), b[0]), K(b[0] - 1)), a))
                    if hi < BIG:
                        st.assume_ge0(sub(K(hi // b[0]), V(q)))
                    r = L._index.get(('urem', a, b, w))
                    if r is not None and st.eq0(V(r)):
                        st.assume_eq0(sub(a, scale(V(q), b[0])))
            return st.norm(V(q)) if st is not None else V(q)
        return V(L.sym((op, a, b, w)))
    if op == 'mul':
        a, b, w = args
        if is_const(b):
            if is_const(a):
                return K(wrap(a[0] * b[0], w))
            return scale(a, b[0])
        if is_const(a):
            return scale(b, a[0])
        if b < a:
            a, b = b, a
        if w == 64 and (single(a) is None) != (single(b) is None):
            if single(a) is None:
                a, b = b, a
            if len(b[1]) <= 3:
                v = scale(a, b[0])
                for y, c in b[1]:
                    v = add(v, evalop(st, 'mul', a, V(y), w), c)
                return v
        lo = None
        if st is not None and st.ge0(a) and st.ge0(b):
            lo = 0
        y = L.sym(('mul', a, b, w), lo=lo)
        if lo == 0:
            # a <= c/b gives a*b <= c
            for key in list(st.facts):
                for q, _ in key:
                    t = L._terms[q]
                    if t[0] in ('sdiv', 'udiv') and is_const(t[1]) and t[2] in (a, b) and st.ge0(sub(V(q), b if t[2] == a else a)):
                        st.assume_ge0(sub(t[1], V(y)))
        return V(y)
    if op == 'shl':
        a, b, w = args
        if is_const(b) and 0 <= b[0] < w:
            if is_const(a):
                return K(wrap(a[0] << b[0], w))
            return scale(a, 1 << b[0])
        return V(L.sym(('shl', a, b, w)))
    if op in ('lshr', 'ashr'):
        a, b, w = args
        if is_const(b):
            if is_const(a):
                v = a[0] % (1 << w) if op == 'lshr' else a[0]
                return K(wrap(v >> b[0], w))
            if st is not None and st.bound(a)[0] >= 0:
                return evalop(st, 'udiv', a, K(1 << b[0]), w)
        return V(L.sym((op, a, b, w)))
    if op in ('and', 'or', 'xor'):
        a, b, w = args
        if is_const(a) and not is_const(b):
            a, b = b, a
        if is_const(a) and is_const(b):
            x, y = a[0] % (1 << w), b[0] % (1 << w)
            return K(wrap({'and': x & y, 'or': x | y, 'xor': x ^ y}[op], w))
        if is_const(b):
            m = b[0]
            if op == 'and':
                if m == 0:
                    return ZERO
                if m == -1 or m % (1 << w) == (1 << w) - 1:
                    return a
                if m > 0 and (m & (m + 1)) == 0:
                    if st is not None:
                        lo, hi = st.bound(a)
                        if lo >= 0 and hi <= m:
                            return a
                    return evalop(st, 'urem', a, K(m + 1), w)
                mm = (-m) if m < 0 else 0
                if m < 0 and mm & (mm - 1) == 0:
                    # a & ~(2^k-1) = a - a % 2^k
                    if ELIMINATE and st is not None and st.bound(a)[0] >= 0:
                        return scale(evalop(st, 'udiv', a, K(mm), w), mm)
                    return sub(a, evalop(st, 'urem', a, K(mm), w))
                low = m & -m
                if m > 0 and st is not None and m + low & (m + low - 1) == 0:
                    lo, hi = st.bound(a)
                    if lo >= 0 and hi < m + low:
                        return scale(evalop(st, 'udiv', a, K(low), w), low)
                y = L.sym(('and', a, b, w), lo=0 if m >= 0 else None, hi=m if m >= 0 else None)
                return V(y)
            if op == 'or' and m == 0:
                return a
            if op == 'xor':
                if m == 0:
                    return a
                if st is not None and isbool(st, a):
                    if wrap(m, w, False) == 1:
                        return sub(ONE, a)
                if m == -1 or m % (1 << w) == (1 << w) - 1:
                    return sub(K(-1), a)
            if op == 'or' and st is not None and isbool(st, a) and m == 1:
                return ONE
            return V(L.sym((op, a, b, w)))
        if a == b:
            return ZERO if op == 'xor' else a
        if b < a:
            a, b = b, a
        lo = hi = None
        if st is not None and isbool(st, a) and isbool(st, b):
            lo, hi = 0, 1
        elif st is not None and st.bound(a)[0] >= 0 and st.bound(b)[0] >= 0:
            lo = 0
            top = max(st.bound(a)[1], st.bound(b)[1])
            if top < BIG:
                y = V(L.sym((op, a, b, w), lo=0))
                st.assume_ge0(sub(K((1 << top.bit_length()) - 1), y))
                return y
        return V(L.sym((op, a, b, w), lo=lo, hi=hi))
    if op == 'zext':
        a, w, w2 = args
        if is_const(a):
            return K(a[0] % (1 << w))
        if st is not None and st.bound(a)[0] >= 0:
            return a
        if w == 32:
            return a
        if w == 1:
            return a
        return V(L.sym(('zext', a, w, w2), lo=0, hi=(1 << w) - 1))
    if op == 'sext':
        a, w, w2 = args
        if is_const(a):
            return K(wrap(a[0], w))
        if w == 1:
            return scale(a, -1)
        if w == 32 or w == 64:
            return a
        if st is not None:
            lo, hi = st.bound(a)
            if lo >= -(1 << (w - 1)) and hi < 1 << (w - 1):
                return a
        return V(L.sym(('sext', a, w, w2), lo=-(1 << (w - 1)), hi=(1 << (w - 1)) - 1))
    if op == 'trunc':
        a, w, w2 = args
        if is_const(a):
            return K(wrap(a[0], w2))
        y = single(a)
        if y is not None:
            t = L._terms[y]
            if t[0] in ('zext', 'sext') and t[2] == w2:
                return t[1]
        if w2 == 1:
            if st is not None and isbool(st, a):
                return a
            return evalop(st, 'cmp', 'ne', a, ZERO, w)
        if w2 >= 32 and not (w2 == 32 and w == 64):
            return a
        if st is not None:
            lo, hi = st.bound(a)
            if lo >= 0 and hi < (1 << w2) or w2 == 32 and lo >= -(1 << 31) and hi < 1 << 31:
                return a
        return V(L.sym(('trunc', a, w, w2)))
    raise KeyError(op)


class LoopCtx:
    def __init__(s, an, st, s0, fname, hdr):
        s.an = an
        s.s0 = s0
        s.ver = 0
        s.demoted = {}
        s.changed = {}
        s.havoc = {}
        s.invs = []
        s.dropped = set()
        s.T = L.fresh('T_' + hdr, lo=1)
        s.fname, s.hdr = fname, hdr
        s.structs = 0
        s.maps = []
        s.dbase = {}
        s.relaxed = set()


def nullspace(rows, cols):
    """integer basis of the vectors orthogonal to all rows"""
    from fractions import Fraction as F
    from math import gcd
    m = []
    piv = []
    for r in rows:
        v = {y: F(k) for y, k in r.items() if y in cols}
        for p, q in zip(piv, m):
            if v.get(p):
                f = v[p]
                for y, k in q.items():
                    v[y] = v.get(y, F(0)) - f * k
        v = {y: k for y, k in v.items() if k}
        if not v:
            continue
        p = min(v, key=str)
        f = v[p]
        v = {y: k / f for y, k in v.items()}
        for q in m:
            if q.get(p):
                f = q[p]
                for y, k in v.items():
                    q[y] = q.get(y, F(0)) - f * k
        m.append(v)
        piv.append(p)
    out = []
    for y in cols:
        if y in piv:
            continue
        c = {y: F(1)}
        for p, q in zip(piv, m):
            if q.get(y):
                c[p] = -q[y]
        d = 1
        for k in c.values():
            d = d * k.denominator // gcd(d, k.denominator)
        out.append({z: int(k * d) for z, k in c.items() if k})
    return out


class Analysis:
    def __init__(s, mod, models=None, unroll=1, max_steps=2000000, max_rec=3, init_globals=True, lazy_globals=()):
        s.m = mod
        s.models = dict(models or {})
        s.unroll = unroll
        s.max_steps = max_steps
        s.max_rec = max_rec
        s.steps = 0
        s.init_globals = init_globals
        s.lazy_globals = set(lazy_globals)
        s.lazy = ('#lost', '#gone', '#term')
        s.loader = None      # (an, st, ins, base, off, size) -> None or [(state, value)]: the meaning of some loads
        s.viol = []          # (vers, key, where, message, path)
        s.ends = []          # (state)
        s.work = []
        s.hooks = {'call': [], 'ret': [], 'load': [], 'store': [], 'free': [], 'backedge': [], 'end': [], 'access': [],
                   'uaf': [], 'alloc': [], 'branch': [], 'arith': [], 'loop': [], 'hint': []}
        s.regions = {}       # region symbol -> dict(kind,size,where)
        s.unknown = {}
        s.funcs_seen = set()
        s.sites = set()
        s.deadline = None
        s.split = 0          # how often a loop may be entered anew because a pointer in it became null
        s.uid = 0
        s.npaths = 0
        s.ninstr = 0
        s.loops_done = 0
        s.backedges = {}
        s.imprecise = {}
        s.globs = {}

    # ------------------------------------------------------------ utilities
    def region(s, kind, name, size=None, init='undef', where=''):
        s.uid += 1
        y = L.sym(('reg', name, s.uid), True, lo=1)
        s.regions[y] = dict(kind=kind, name=name, size=size, where=where, init=init)
        return y

    def glob(s, name):
        y = s.globs.get(name)
        if y is None:
            y = s.globs[name] = L.sym(('glob', name), True, lo=1)
            g = s.m.globals.get(name)
            if name[1:] in s.m.funcs or name[1:] in s.m.decls:
                s.regions[y] = dict(kind='func', name=name, size=None, where='', init='lazy')
            else:
                s.regions[y] = dict(kind='global', name=name, size=K(s.m.size(g.ty)) if g else None, where='',
                                    init='glob' if g is not None and g.init is not None and (g.const or s.init_globals) and name not in s.lazy_globals else 'lazy')
        return y

    def fname_of(s, v):
        y = single(v)
        if y is not None:
            t = L._terms[y]
            if t[0] == 'glob' and s.regions.get(y, {}).get('kind') == 'func':
                return t[1][1:]
        return None

    def report(s, st, ins, key, msg):
        s.viol.append((st.vers, key, s.m.where(ins) if ins is not None else '', msg, st.path()))

    def results(s):
        out = {}
        for vers, key, where, msg, path in s.viol:
            if any(c.ver != v for c, v in vers):
                continue
            k = (key, where)
            if k not in out:
                out[k] = (msg, path)
        return out

    def live(s, st):
        return all(c.ver == v for c, v in st.vers)

    # ------------------------------------------------------------ operand evaluation
    def const(s, c, ty=None):
        k = c.kind
        if k == 'int':
            return K(c.v)
        if k == 'null' or k == 'zero':
            return ZERO
        if k == 'global':
            return V(s.glob(c.v))
        if k == 'undef':
            return V(L.fresh('undef', c.ty.k == 'ptr'))
        if k == 'gep':
            bt, ops = c.v
            base = s.const(ops[0][1])
            off, var = s.m.gep(bt, ops[1:])
            r = (base[0] + off, base[1])
            for sc, ty, v in var:
                r = add(r, s.const(v), sc)
            return r
        if k == 'cast':
            op, t1, v = c.v
            x = s.const(v)
            if op in ('zext', 'sext', 'trunc'):
                return evalop(None, op, x, t1.bits, c.ty.bits)
            return x
        if k == 'bin':
            op, a, b = c.v
            a, b = s.const(a), s.const(b)
            if op == 'add':
                return add(a, b)
            if op == 'sub':
                return sub(a, b)
            return V(L.fresh('cexpr'))
        if k == 'fp':
            return V(L.sym(('fp', c.v)))
        if k == 'agg':
            return ('agg', [s.const(x) for x in c.v])
        return V(L.fresh(k))

    def val(s, st, fr, o):
        if isinstance(o, Reg):
            v = fr.regs.get(o.name)
            if v is None:
                v = V(L.fresh('undef' + o.name))
            elif v[0] == 'agg':
                return v
            return st.norm(v)
        return s.const(o)

    # ------------------------------------------------------------ memory
    def getreg(s, st, base):
        r = st.mem.get(base)
        if r is None:
            info = s.regions.get(base)
            init = info['init'] if info else 'lazy'
            r = Region({}, (), init, 1)
        return r

    def rel(s, st, o1, s1, o2, s2):
        """relation of a read [o1,o1+s1) to a write [o2,o2+s2): 'dis', ('cov', delta) or None; sizes are lins"""
        d = st.norm(sub(o1, o2))
        if is_const(d) and is_const(s1) and is_const(s2):
            c = d[0]
            if c >= s2[0] or -c >= s1[0]:
                return 'dis'
            if c >= 0 and c + s1[0] <= s2[0]:
                return ('cov', d)
            return None
        if is_const(s1) and is_const(s2) and d[1]:
            g = 0
            from math import gcd
            for _, c in d[1]:
                g = gcd(g, abs(c))
            r = d[0] % g
            if r >= s2[0] and g - r >= s1[0]:
                return 'dis'
            if r == 0 and g >= max(s1[0], s2[0]) and st.ne0(d):
                return 'dis'
        if st.ge0(sub(d, s2)) or st.ge0(sub(scale(d, -1), s1)):
            return 'dis'
        if st.ge0(d) and st.ge0(sub(sub(s2, s1), d)):
            return ('cov', d)
        return None

    def load(s, st, base, off, size, ptr=False, reg=None):
        off = st.norm(off)
        r = reg if reg is not None else s.getreg(st, base)
        c = r.cells.get(off)
        if c is not None and c[0] == size:
            return st.norm(c[1])
        sz = K(size)
        conc = is_const(off)
        for o, (cs, v, q) in r.cells.items():
            if conc and is_const(o):
                d = off[0] - o[0]
                if d >= cs or -d >= size:
                    continue
                if d >= 0 and d + size <= cs:
                    return s.extract(st, st.norm(v), d, size, cs, ptr)
                return s.assemble(st, r, base, off, size, ptr)
            w = s.rel(st, off, sz, o, K(cs))
            if w == 'dis':
                continue
            if isinstance(w, tuple) and is_const(w[1]):
                if cs == size:
                    return st.norm(v)
                return s.extract(st, st.norm(v), w[1][0], size, cs, ptr)
            d = st.norm(sub(off, o))
            s.imprecise['load'] = s.imprecise.get('load', 0) + 1
            return V(L.sym(('hv', base, off, r.n, size), ptr))
        for o, ln, kind, payload, q in reversed(r.ranges):
            w = s.rel(st, off, sz, o, ln)
            if w == 'dis':
                continue
            if w is None:
                s.imprecise['range'] = s.imprecise.get('range', 0) + 1
                return V(L.sym(('hv', base, off, q, size), ptr))
            if kind == 'fill':
                if is_const(payload):
                    b = payload[0] % 256
                    return K(wrap(int.from_bytes(bytes([b]) * size, 'little'), size * 8))
                return V(L.sym(('hv', base, off, q, size), ptr))
            if kind == 'copy':
                sb, so, snap = payload
                return s.load(st, sb, add(so, w[1]), size, ptr, snap)
            return V(L.sym(('hv', base, off, q, size), ptr))
        init = r.init
        if init == 'zero':
            return ZERO
        if init == 'undef':
            return V(L.sym(('uninit', base, off, size), ptr))
        if init == 'glob':
            return s.globload(st, base, off, size, ptr)
        lo = hi = None
        return V(L.sym(('ld', base, off, size), ptr, lo, hi))

    def globload(s, st, base, off, size, ptr):
        g = s.m.globals[L._terms[base][1]]
        if is_const(off):
            v = s.initval(g.init, g.ty, off[0], size)
            if v is not None:
                return v
        return V(L.sym(('ld', base, off, size), ptr))

    def initval(s, c, ty, off, size):
        m = s.m
        if c.kind in ('zero', 'null'):
            return ZERO
        ty = m.resolve(ty)
        if c.kind == 'undef':
            return ZERO
        if c.kind == 'str':
            if off + size <= len(c.v):
                return K(int.from_bytes(c.v[off:off + size], 'little', signed=size < 8 and False) if size > 1 else wrap(c.v[off], 8))
            return None
        if c.kind == 'agg':
            if ty.k == 'arr':
                es = m.size(ty.elt)
                i = off // es
                if 0 <= i < len(c.v):
                    return s.initval(c.v[i], ty.elt, off - i * es, size)
                return None
            if ty.k == 'struct':
                offs, _ = m.layout(ty)
                for i in range(len(offs) - 1, -1, -1):
                    if off >= offs[i]:
                        if off < offs[i] + m.size(ty.fields[i]):
                            return s.initval(c.v[i], ty.fields[i], off - offs[i], size)
                        return ZERO
            return None
        if off == 0 and m.size(ty) == size:
            return s.const(c)
        return None

    def extract(s, st, v, d, size, cs, ptr):
        if v and v[0] == 'agg':
            return V(L.fresh('agg'))
        if is_const(v):
            return K(wrap((v[0] % (1 << (8 * cs))) >> (8 * d), 8 * size))
        if size == cs:
            return v
        if d == 0 and size == 1 and isbool(st, v):
            return v
        if d == 0 and size >= 4:
            return v
        return V(L.sym(('part', v, d, size), ptr))

    def assemble(s, st, r, base, off, size, ptr):
        tot = 0
        for i in range(size):
            b = s.load(st, base, add(off, K(i)), 1, False, r)
            if not is_const(b):
                return V(L.sym(('hv', base, off, r.n, size), ptr))
            tot |= (b[0] & 255) << (8 * i)
        return K(wrap(tot, 8 * size))

    def store(s, st, base, off, size, v):
        off = st.norm(off)
        r = s.getreg(st, base)
        c = r.cells.get(off)
        cells = dict(r.cells)
        n = r.n + 1
        if c is None or c[0] != size or True:
            sz = K(size)
            conc = is_const(off)
            for o, (cs, ov, q) in r.cells.items():
                if o == off and cs == size:
                    continue
                if conc and is_const(o):
                    d = o[0] - off[0]
                    if d >= size or -d >= cs:
                        continue
                    if 0 <= d and d + cs <= size:
                        del cells[o]
                        continue
                    # partial overlap: split constant cells, otherwise forget
                    del cells[o]
                    for i in range(cs):
                        a = o[0] + i
                        if not (off[0] <= a < off[0] + size):
                            cells[K(a)] = (1, s.extract(st, ov, i, 1, cs, False), n)
                    continue
                w = s.rel(st, o, K(cs), off, sz)
                if w == 'dis':
                    continue
                if isinstance(w, tuple):
                    del cells[o]
                    continue
                cells[o] = (cs, V(L.sym(('hv', base, o, n, cs), False)), n)
        cells[off] = (size, v, n)
        st.mem[base] = Region(cells, r.ranges, r.init, n)

    def rangewrite(s, st, base, off, ln, kind, payload):
        off, ln = st.norm(off), st.norm(ln)
        if is_const(ln) and ln[0] == 0:
            return
        r = s.getreg(st, base)
        n = r.n + 1
        cells = {}
        for o, (cs, v, q) in r.cells.items():
            w = s.rel(st, o, K(cs), off, ln)
            if w == 'dis':
                cells[o] = (cs, v, q)
            elif w is None:
                cells[o] = (cs, V(L.sym(('hv', base, o, n, cs))), n)
        st.mem[base] = Region(cells, r.ranges + ((off, ln, kind, payload, n),), r.init, n)

    def copy(s, st, db, do, sb, so, ln):
        snap = s.getreg(st, sb)
        if snap.init == 'lazy' and sb not in s.regions:
            pass
        s.rangewrite(st, db, do, ln, 'copy', (sb, so, snap))
        ln = st.norm(ln)
        if is_const(ln) and ln[0] <= 256 and snap.cells:
            # a structure: its members are stored one by one
            for o, (cs, v, q) in list(snap.cells.items()):
                d = st.norm(sub(o, so))
                if is_const(d) and 0 <= d[0] and d[0] + cs <= ln[0] and v[0] != 'agg':
                    s.store(st, db, add(do, d), cs, v)

    # address access check hook
    def access(s, st, ins, addr, size, kind):
        base = baseof(addr)
        if base is None:
            for h in s.hooks['access']:
                h(s, st, ins, None, addr, size, kind)
            return None, addr
        off = sub(addr, V(base))
        if base in st.freed:
            for h in s.hooks['uaf']:
                h(s, st, ins, base, off, size, kind)
        for h in s.hooks['access']:
            h(s, st, ins, base, off, size, kind)
        return base, off

    # ------------------------------------------------------------ calls
    def push(s, st, name, args, ins=None, extra=(), onret=None):
        f = s.m.funcs[name]
        s.funcs_seen.add(name)
        fr = Frame()
        s.uid += 1
        fr.uid = s.uid
        fr.fn = f
        fr.regs = {}
        fr.bb = f.order[0]
        fr.i = 0
        fr.prev = None
        fr.callins = ins
        fr.allocas = ()
        fr.loops = {}
        fr.owner = st
        fr.va = tuple(args[len(f.params):])
        fr.onret = onret
        for i, (ty, nm, byval, sret) in enumerate(f.params):
            if i < len(args):
                fr.regs[nm] = args[i]
            else:
                fr.regs[nm] = V(L.sym(('arg', '%s.%s.%d' % (name, nm, fr.uid)), ty.k == 'ptr'))
        st.frames = st.frames + (fr,)
        return fr

    def finish(s, st, kind, ins=None):
        st.end = (kind, s.m.where(ins) if ins is not None else '')
        for h in s.hooks['end']:
            h(s, st, kind, ins)
        s.npaths += 1
        s.ends.append(st)

    def ret(s, st, v, ins):
        fr = st.frames[-1]
        for h in s.hooks['ret']:
            h(s, st, fr.fn.name, v, ins)
        if fr.allocas:
            st.freed = dict(st.freed)
            for a in fr.allocas:
                st.freed[a] = 'out of scope since %s returned' % fr.fn.name
        st.frames = st.frames[:-1]
        if fr.onret is not None:
            fr.onret(s, st, v)
        if not st.frames:
            st.ghost['$ret'] = v
            s.finish(st, 'exit' if 'exit' in st.ghost else 'return', ins)
            return False
        c = fr.callins
        t = st.top()
        if c is not None and c.dst:
            t.regs[c.dst] = v if v is not None else V(L.fresh('ret'))
        return True

    def start(s, entry, args=(), setup=None, st=None):
        st = st or State()
        st.frames = ()
        s.push(st, entry, list(args))
        if setup:
            setup(s, st)
        s.work.append(st)
        s.run()

    def run(s):
        while s.work:
            st = s.work.pop()
            if not s.live(st):
                continue
            if s.deadline is not None and time.time() > s.deadline:
                raise Limit('out of time')
            s.drive(st)

    def drive(s, st):
        while True:
            fr = st.frames[-1]
            if fr.owner is not st:
                fr = st.top()
            ins = fr.fn.blocks[fr.bb][fr.i]
            s.ninstr += 1
            if s.ninstr > s.max_steps:
                raise Limit('step limit %d reached in %s' % (s.max_steps, fr.fn.name))
            r = s.step(st, fr, ins)
            if r is None:
                continue
            if r == 'stop':
                return
            # list of states
            for x in r[1:]:
                s.work.append(x)
            if not r:
                return
            st = r[0]

    def fork2(s, st, ins, cond, w=1):
        """[(state, bool)] for feasible truth values of cond"""
        cond = st.norm(cond)
        if is_const(cond):
            return [(st, cond[0] != 0)]
        # an unsigned comparison of a number of either sign: two cases
        t = L.term(cond[1][0][0]) if len(cond[1]) == 1 else ()
        if t and t[0] == 'cmp' and t[1][0] == 'u':
            for x in t[2:4]:
                x = st.norm(x)
                lo, hi = st.bound(x)
                if -BIG < lo < 0 <= hi:
                    neg = st.clone()
                    r = []
                    if st.assume_ge0(x):
                        r += s.fork2(st, ins, cond, w)
                    if neg.assume_ge0(sub(K(-1), x)):
                        c = evalop(neg, 'cmp', t[1], neg.norm(t[2]), neg.norm(t[3]), t[4])
                        y, k = cond[1][0]
                        r += s.fork2(neg, ins, add(K(cond[0]), c, k), w)
                    return r
        out = []
        other = st.clone()
        a = s.truth(st, cond, True)
        b = s.truth(other, cond, False)
        if a:
            out.append((st, True))
        if b:
            out.append((other, False))
        if len(out) == 2:
            where = s.m.where(ins)
            st.log('%s: %s holds' % (where, show(cond)))
            other.log('%s: %s does not hold' % (where, show(cond)))
        return out

    def truth(s, st, cond, t):
        """assume cond != 0 (t) or == 0"""
        y = None
        if len(cond[1]) == 1:
            y, c = cond[1][0]
            lo, hi = st.symbound(y)
            if lo >= 0 and hi <= 1:
                vals = [v for v in (0, 1) if lo <= v <= hi and (cond[0] + c * v != 0) == t]
                if not vals:
                    return False
                if len(vals) == 2:
                    return True
                return st.learn(y, K(vals[0]))
        return st.assume_ne0(cond) if t else st.assume_eq0(cond)

    def goto(s, st, fr, bb):
        """transfer to block bb; returns None to continue or list of states"""
        f = fr.fn
        prev = fr.bb
        blk = f.blocks[bb]
        new = {}
        i = 0
        while i < len(blk) and blk[i].op == 'phi':
            p = blk[i]
            new[p.dst] = s.val(st, fr, p.x[prev])
            i += 1
        be = s.backedges.get(f.name)
        if be is None:
            be = s.backedges[f.name] = backedges(f)
        heads = be[1]
        fr.prev = prev
        if bb in heads:
            back = (prev, bb) in be[0]
            return s.header(st, fr, bb, new, i, back)
        fr.regs.update(new)
        fr.bb = bb
        fr.i = i
        return None

    # ------------------------------------------------------------ loops
    def header(s, st, fr, bb, new, i, back):
        loops = dict(fr.loops)
        fr.loops = loops
        if not back:
            for h in s.hooks['loop']:
                h(s, st, fr, bb, new)
            le = LoopEntry()
            le.splits = 0
            loops[bb] = le
            return s.enter(st, fr, bb, new, i, le)
        le = loops[bb] = loops[bb].copy()
        for h in s.hooks['backedge']:
            h(s, st, fr, bb, le.phis, new, le)
        if le.splits < s.split and (le.ctx is None or le.ctx.ver == le.ver) and any(s.ended(st, le.phis.get(k), v) for k, v in new.items()):
            # a pointer into a block has become null: another way to enter the loop, usually to leave it at once
            le.splits += 1
            return s.enter(st, fr, bb, new, i, le)
        if le.ctx is None:
            le.count += 1
            if le.count < s.unroll:
                le.phis = dict(new)
                le.s0 = (dict(new), dict(st.mem), dict(st.ghost), st.freed)
                fr.regs.update(new)
                fr.bb, fr.i = bb, i
                return None
            ctx = LoopCtx(s, st, le.s0, fr.fn.name, bb)
            ctx.i = i
            ctx.phitys = {p.dst: p.ty.k == 'ptr' for p in fr.fn.blocks[bb][:i]}
            fr.regs.update(new)
            fr.bb, fr.i = bb, i
            st.frames[-1].owner = None
            ctx.s1 = st.clone()
            ctx.new1 = dict(new)
            s.diff0(ctx)
            s.loops_done += 1
            g = s.generalise(ctx)
            return [g] if g is not None else []
        ctx = le.ctx
        if ctx.ver != le.ver:
            return []
        return s.closeloop(st, fr, ctx, new)

    def enter(s, st, fr, bb, new, i, le):
        le.count = 0
        le.ctx = None
        le.ver = 0
        le.phis = dict(new)
        le.T = None
        fr.regs.update(new)
        fr.bb, fr.i = bb, i
        le.s0 = (dict(new), dict(st.mem), dict(st.ghost), st.freed)
        return None

    def ended(s, st, v0, v):
        if v0 is None or v0[0] == 'agg' or v[0] == 'agg' or not is_const(st.norm(v)) or st.norm(v)[0]:
            return False
        b = baseof(st.norm(v0))
        return b is not None and b in s.regions

    def eff(s, st, v):
        return st.norm(v) if v[0] != 'agg' else v

    def diff0(s, ctx):
        """cells that changed between the two snapshots of the peeled iteration"""
        p0, m0, g0, f0 = ctx.s0
        st = ctx.s1
        for k, v in ctx.new1.items():
            v0 = s.eff(st, p0[k])
            if v0 != s.eff(st, v):
                ctx.changed[('p', k)] = (v0, s.eff(st, v))
        for base, r in st.mem.items():
            r0 = m0.get(base)
            if r0 is r:
                continue
            info = s.regions.get(base)
            if r0 is None:
                r0 = Region({}, (), info['init'] if info else 'lazy', 1)
            for off, (sz, v, q) in r.cells.items():
                v0 = s.load(st, base, off, sz, False, r0)
                if v0 != s.eff(st, v):
                    if v0[1] and L._terms[v0[1][0][0]][0] == 'uninit':
                        pass
                    ctx.changed[('m', base, off, sz)] = (v0, s.eff(st, v))
            for off, (sz, v, q) in r0.cells.items():
                if off not in r.cells:
                    ctx.changed[('m', base, off, sz)] = (s.eff(st, v), V(L.fresh('gone')))
            if len(r.ranges) != len(r0.ranges):
                ctx.havoc[base] = 'all'
        for k, v in st.ghost.items():
            if k[0] == '#':
                v0 = s.eff(st, g0.get(k, ZERO))
                if v0 != s.eff(st, v):
                    ctx.changed[('g', k)] = (v0, s.eff(st, v))

    def genval(s, ctx, key):
        """value of a changed cell in the generalised state"""
        if key in ctx.demoted:
            return s.whole(ctx, key)
        v0, v1 = ctx.changed[key]
        if v0[0] == 'agg' or v1[0] == 'agg':
            d = None
        else:
            d = sub(v1, v0)
        if d is not None and is_const(d) and not (key[0] == 'm' and v0[1] and L._terms[v0[1][0][0]][0] == 'uninit'):
            r = add(v0, V(ctx.T), d[0])
            if d[0] < 0 and ('nonneg', key) not in ctx.dropped:
                ctx.dropped.add(('nonneg', key))
                s.addinv(ctx, r)
            return r
        s.demote(ctx, key)
        return s.whole(ctx, key)

    def whole(s, ctx, key):
        """the value a generalised symbol stands for: itself, or an offset in a known block"""
        y, b = ctx.demoted[key], ctx.dbase.get(key)
        return V(y) if b is None else add(V(b), V(y))

    def part(s, ctx, key, v):
        b = ctx.dbase.get(key)
        return v if b is None or v[0] == 'agg' else sub(v, V(b))

    def demote(s, ctx, key, raw=False):
        ptr = False
        if key[0] == 'p':
            ptr = ctx.phitys.get(key[1], False)
        v0, v1 = ctx.changed.get(key, (ZERO, ZERO))
        ctx.dbase.pop(key, None)
        if not raw and v0[0] != 'agg' and v1[0] != 'agg':
            b = baseof(v0)
            if b is not None and b == baseof(v1) and L._isptr[b] and not any(mentions(b, z) for z in [ctx.T] + list(ctx.demoted.values())):
                ctx.dbase[key] = b
                y = ctx.demoted[key] = L.fresh('loop.%s' % (key[1] if key[0] in 'pg' else 'cell'), False)
                for w in (sub(v0, V(b)), sub(v1, V(b)), ZERO):
                    for c in (sub(V(y), w), sub(w, V(y))):
                        s.addinv(ctx, c)
                s.handed(ctx, y, sub(v1, V(b)))
                return
        for v in (v0, v1):
            if v[0] != 'agg' and v[1] and baseof(v) is not None and L._isptr[baseof(v)]:
                ptr = True
        hint = 'loop.%s' % (key[1] if key[0] in 'pg' else 'cell')
        lo = hi = None
        y = L.fresh(hint, ptr)
        ctx.demoted[key] = y
        if not ptr and v0[0] != 'agg' and v1[0] != 'agg':
            for b in (v0, v1, ZERO):
                for c in (sub(V(y), b), sub(b, V(y))):
                    s.addinv(ctx, c)
            s.handed(ctx, y, v1)

    def handed(s, ctx, y, v):
        """what was known of the unknown that the first value is made of, said of the changing value"""
        n = 0
        for p, c in v[1]:
            if abs(c) != 1 or L._terms[p][0] != 'fresh':
                continue
            r = scale(sub(V(y), add(v, V(p), -c)), c)
            for key, f in ctx.s1.facts.items():
                if not any(q == p for q, _ in key):
                    continue
                l = L.subst((0, key), {p: r})
                for e in ([sub(l, K(f[0]))] if f[0] > -BIG else []) + ([sub(K(f[1]), l)] if f[1] < BIG else []):
                    n += 1
                    if n <= 12:
                        s.addinv(ctx, e)

    def basemap(s, ctx):
        """the changing values at the first generalised visit: S1 with T=1 and demoted cells at their S1 values"""
        m = {ctx.T: ONE}
        for k, y in ctx.demoted.items():
            v = ctx.changed.get(k)
            if v is not None and v[1][0] != 'agg':
                m[y] = s.part(ctx, k, v[1])
        return m

    def addinv(s, ctx, c):
        if c in ctx.dropped or c in ctx.invs or not c[1]:
            return False
        m = s.basemap(ctx)
        if not ctx.s1.ge0(L.subst(c, m)):
            ctx.dropped.add(c)
            return False
        ctx.invs.append(c)
        return True

    def generalise(s, ctx):
        g = ctx.s1.clone()
        g.vers = g.vers + ((ctx, ctx.ver),)
        fr = g.top()
        fr.loops = dict(fr.loops)
        le = LoopEntry()
        le.count = 0
        le.splits = 0
        le.s0 = None
        le.ctx = ctx
        le.ver = ctx.ver
        le.T = ctx.T
        vals = {k: s.genval(ctx, k) for k in list(ctx.changed)}
        for k, v in vals.items():
            if k[0] == 'p':
                fr.regs[k[1]] = v
            elif k[0] == 'g':
                g.ghost[k[1]] = v
        for base, how in ctx.havoc.items():
            r = s.getreg(g, base)
            if how == 'all':
                s.uid += 1
                g.mem[base] = Region({}, ((K(-BIG), K(2 * BIG), 'havoc', s.uid, r.n + 1),), r.init, r.n + 1)
                continue
            for e in how:
                s.uid += 1
                if e[0] == 'aff':
                    _, off, size = e
                    k = dict(off[1])[ctx.T]
                    first = L.subst(off, {ctx.T: ONE})
                    last = L.subst(off, {ctx.T: V(ctx.T, -1)})
                    lo, hi = (first, last) if k > 0 else (last, first)
                    s.rangewrite(g, base, lo, sub(add(hi, K(size)), lo), 'havoc', s.uid)
                else:
                    _, lo, hi = e
                    s.rangewrite(g, base, K(lo if lo is not None else -BIG),
                                 K((hi if hi is not None else BIG) - (lo if lo is not None else -BIG)), 'havoc', s.uid)
        for k, v in vals.items():
            if k[0] == 'm' and ctx.havoc.get(k[1]) != 'all':
                s.store(g, k[1], k[2], k[3], v)
        for h in s.hooks['hint']:
            for c in h(s, g):
                s.addinv(ctx, c)
        for c in ctx.invs:
            if not g.assume_ge0(c):
                return None
        le.phis = {p: fr.regs[p] for p in ctx.new1}
        fr.loops[ctx.hdr] = le
        fr.bb, fr.i = ctx.hdr, ctx.i
        ctx.fresh0 = L._fresh[0]
        ctx.g = (dict(le.phis), dict(g.mem), dict(g.ghost), g.freed, dict(g.facts))
        return g

    def closeloop(s, st, fr, ctx, new):
        dirty = False
        m = {ctx.T: add(V(ctx.T), ONE)}
        vars_ = [ctx.T] + list(ctx.demoted.values())
        gp, gm, gg, gf, gfacts = ctx.g

        def cur(key):
            if key[0] == 'p':
                return s.eff(st, new[key[1]])
            if key[0] == 'g':
                return s.eff(st, st.ghost.get(key[1], ZERO))
            return s.load(st, key[1], key[2], key[3])

        # values at the next header visit of demoted cells
        seen = {}
        for k in ctx.changed:
            if k[0] == 'm' and ctx.havoc.get(k[1]) == 'all':
                continue
            seen[k] = (cur(k), st.norm(s.genval(ctx, k)))
        for k, y in list(ctx.demoted.items()):
            v = cur(k)
            if k in ctx.dbase and (v[0] == 'agg' or baseof(v) != ctx.dbase[k]):
                s.demote(ctx, k, raw=True)      # no longer an offset in that block
                seen.pop(k, None)
                dirty = True
                y = ctx.demoted[k]
            m[y] = s.part(ctx, k, v) if v[0] != 'agg' else V(L.fresh('agg'))
        # 1. hypothesis on already changed cells
        for k in list(ctx.changed):
            if k in ctx.demoted:
                continue
            if k[0] == 'm' and ctx.havoc.get(k[1]) == 'all':
                continue
            exp = L.subst(st.norm(s.genval(ctx, k)), m)
            if k in ctx.demoted:
                continue
            v = cur(k)
            if v[0] == 'agg' or not st.eq0(sub(v, exp)):
                s.demote(ctx, k)
                dirty = True
        # 2. newly changed cells
        for k, v in new.items():
            if ('p', k) not in ctx.changed and s.eff(st, gp[k]) != s.eff(st, v):
                ctx.changed[('p', k)] = (s.eff(ctx.s1, ctx.new1[k]), s.eff(ctx.s1, ctx.new1[k]))
                seen[('p', k)] = (s.eff(st, v), s.eff(st, gp[k]))
                s.demote(ctx, ('p', k))
                dirty = True
        for base, r in st.mem.items():
            r0 = gm.get(base)
            if r0 is r:
                continue
            if any(mentions(base, y) for y in vars_):
                continue
            info = s.regions.get(base)
            if r0 is None:
                if info is not None and info['kind'] not in ('global',) and not s.knownbase(ctx, base):
                    continue      # allocated in this iteration
                r0 = Region({}, (), info['init'] if info else 'lazy', 1)
            if ctx.havoc.get(base) == 'all':
                continue
            if len(r.ranges) != len(r0.ranges):
                ctx.havoc[base] = 'all'
                dirty = True
                continue
            for off, (sz, v, q) in r.cells.items():
                k = ('m', base, off, sz)
                if k in ctx.changed:
                    continue
                if lmentions(off, vars_) or any(newer(y, ctx.fresh0) for y, _ in off[1]):
                    v0 = s.load(st, base, off, sz, False, r0)
                    if v0 == s.eff(st, v):
                        continue
                    # a cell whose address depends on the iteration: forget the part of the region it can be in
                    h = list(ctx.havoc.get(base, ()))
                    if any(y == ctx.T for y, _ in off[1]) and not lmentions((0, tuple(x for x in off[1] if x[0] != ctx.T)), vars_):
                        e = ('aff', off, sz)
                    else:
                        lo, hi = st.bound(off)
                        e = ('half', lo if lo > -BIG else None, hi + sz if hi < BIG else None)
                    if e in h:
                        continue
                    if e[0] == 'half' and any(x[0] == 'half' and (x[1] is None or e[1] is not None and x[1] <= e[1]) and
                                              (x[2] is None or e[2] is not None and x[2] >= e[2]) for x in h):
                        continue
                    if e == ('half', None, None) or len(h) > 12:
                        ctx.havoc[base] = 'all'
                        dirty = True
                        break
                    ctx.havoc[base] = h + [e]
                    dirty = True
                    continue
                v0 = s.load(st, base, off, sz, False, r0)
                if v0 != s.eff(st, v):
                    v1 = s.load(ctx.s1, base, off, sz)
                    ctx.changed[k] = (v1, v1)
                    seen[k] = (s.eff(st, v), v0)
                    s.demote(ctx, k)
                    dirty = True
        late = []
        for k, v in st.ghost.items():
            if k[0] == '#':
                if ('g', k) not in ctx.changed and s.eff(st, gg.get(k, ZERO)) != s.eff(st, v):
                    if k.startswith(s.lazy):
                        late.append(k)      # believed unchanged as long as anything else is still being refined
                        continue
                    v1 = s.eff(ctx.s1, ctx.s1.ghost.get(k, ZERO))
                    ctx.changed[('g', k)] = (v1, v1)
                    seen[('g', k)] = (s.eff(st, v), s.eff(st, gg.get(k, ZERO)))
                    s.demote(ctx, ('g', k))
                    dirty = True
        for k, y in ctx.demoted.items():
            if y not in m and not (k[0] == 'm' and ctx.havoc.get(k[1]) == 'all'):
                v = cur(k)
                m[y] = s.part(ctx, k, v) if v[0] != 'agg' else V(L.fresh('agg'))
        # 3. invariants
        for c in list(ctx.invs):
            if not st.ge0(L.subst(c, m)):
                ctx.invs.remove(c)
                ctx.dropped.add(c)
                dirty = True
        # affine equalities between the changing values (differences of all rounds seen so far), to be shown from the next version on
        if s.equalities(ctx, {k: (s.part(ctx, k, n), s.part(ctx, k, o)) for k, (n, o) in seen.items()}):
            dirty = True
        # 4. new invariant candidates from what this iteration learned
        if dirty or ctx.ver < 4:
            back = {ctx.T: add(V(ctx.T), K(-1))}
            cands = []
            maybe = set()
            for key, f in st.facts.items():
                if gfacts.get(key) == f:
                    continue
                l = (0, key)
                if not lmentions(l, vars_):
                    continue
                if any(y not in vars_ and any(mentions(y, z) for z in vars_) for y, _ in key):
                    continue
                for c in ([sub(l, K(f[0]))] if f[0] > -BIG else []) + ([sub(K(f[1]), l)] if f[1] < BIG else []):
                    cands.append(c)
                    if lmentions(c, ctx.demoted.values()) and c[1] not in ctx.relaxed:
                        # what is left of it at the next visit
                        lo = min(st.lower(st.norm(L.subst(c, m))), ctx.s1.lower(ctx.s1.norm(L.subst(c, s.basemap(ctx)))))
                        if -64 <= lo < 0:
                            ctx.relaxed.add(c[1])
                            cands.append(sub(c, K(lo)))
                    if not lmentions(c, ctx.demoted.values()):
                        cands.append(L.subst(c, back))
                for n in f[2]:
                    for c in (sub(l, K(n)), sub(K(n), l)):
                        cands.append(c)
                        maybe.add(c)
            for c in cands:
                if c in ctx.dropped or c in ctx.invs:
                    continue
                n = L.subst(c, m)
                if not st.ge0(n):
                    # a value that is never n stays on its side of it
                    if c not in maybe:
                        continue
                    x = st.clone()
                    if x.assume_ge0(c) and not x.ge0(n):
                        continue
                if s.addinv(ctx, c):
                    dirty = True
        if not dirty:
            for k in late:
                v1 = s.eff(ctx.s1, ctx.s1.ghost.get(k, ZERO))
                ctx.changed[('g', k)] = (v1, v1)
                s.demote(ctx, ('g', k))
                dirty = True
        if dirty:
            ctx.ver += 1
            if ctx.ver > 40:
                raise Limit('loop at %s/%s does not stabilise' % (ctx.fname, ctx.hdr))
            g = s.generalise(ctx)
            return [g] if g is not None else []
        # 5. components that cannot be generalised: treat a different value as another entry of the loop
        other = any(k[0] != '#' and gg.get(k) != v for k, v in st.ghost.items())
        nf = [b for b in st.freed if b not in gf and not any(mentions(b, y) for y in vars_) and s.knownbase(ctx, b)]
        if (other or nf):
            ctx.structs += 1
            if ctx.structs <= 8:
                c2 = LoopCtx(s, st, None, ctx.fname, ctx.hdr)
                c2.i = ctx.i
                c2.phitys = ctx.phitys
                c2.structs = ctx.structs
                fr.regs.update(new)
                fr.bb, fr.i = ctx.hdr, ctx.i
                c2.s1 = st.clone()
                c2.new1 = dict(new)
                for k in ctx.changed:
                    v = cur(k)
                    c2.changed[k] = (v, v)
                c2.havoc = dict(ctx.havoc)
                for k in ctx.changed:
                    s.demote(c2, k)
                g = s.generalise(c2)
                return [g] if g is not None else []
        return []

    def equalities(s, ctx, seen):
        """the affine hull of what the loop's values can be, from its first values and the rounds seen so far (each an affine map,
        unknowns of a round being free directions): linear combinations constant on it are candidates for invariants"""
        cols = []
        for k, v in ctx.changed.items():
            if v[1][0] == 'agg' or k in ctx.demoted and k not in ctx.dbase and L._isptr[ctx.demoted[k]] or k[0] == 'm' and ctx.havoc.get(k[1]) == 'all':
                continue
            cols.append(k)
        cols.sort(key=str)
        cols.append('T')
        if len(cols) < 2 or len(cols) > 40:
            return False
        var = {y: k for k, y in ctx.demoted.items() if k in cols}
        var[ctx.T] = 'T'
        tr = {'T': ({'T': 1}, ONE)}
        for k, (n, o) in seen.items():
            if k not in cols or n[0] == 'agg' or o[0] == 'agg':
                continue
            d = sub(n, o)
            if not any(y in var for y, _ in d[1]):
                tr[k] = ({k: 1}, d)
            else:
                tr[k] = ({var[y]: c for y, c in n[1] if y in var}, (n[0], tuple(x for x in n[1] if x[0] not in var)))
        if tr in ctx.maps:
            return False
        ctx.maps.append(tr)
        zero = {k: s.part(ctx, k, ctx.changed[k][1]) for k in cols if k != 'T'}
        zero['T'] = ONE
        ech = {}

        def put(row):
            row = {k: Fraction(n) for k, n in row.items() if n and k in cols}
            for p in sorted(row, key=str):
                if row.get(p) and p in ech:
                    f = row[p]
                    for k, n in ech[p].items():
                        row[k] = row.get(k, 0) - f * n
            row = {k: n for k, n in row.items() if n}
            while row:
                p = min(row, key=str)
                if p not in ech:
                    f = row[p]
                    ech[p] = {k: n / f for k, n in row.items()}
                    return True
                f = row[p]
                for k, n in ech[p].items():
                    row[k] = row.get(k, 0) - f * n
                row = {k: n for k, n in row.items() if n}
            return False
        grown = True
        while grown:
            grown = False
            for tr in ctx.maps:
                ds = {}
                for k in cols:
                    co, rest = tr.get(k, ({k: 1}, ZERO))
                    v = sub(rest, zero[k])
                    for j, c in co.items():
                        if j in zero:
                            v = add(v, zero[j], c)
                    ds[k] = v
                for part in {None} | {z for d in ds.values() for z, _ in d[1]}:
                    grown |= put({k: d[0] if part is None else dict(d[1]).get(part, 0) for k, d in ds.items()})
                for row in list(ech.values()):
                    m = {}
                    for k in cols:
                        for j, c in tr.get(k, ({k: 1}, ZERO))[0].items():
                            if row.get(j):
                                m[k] = m.get(k, 0) + c * row[j]
                    grown |= put(m)
        more = False
        for c in nullspace(list(ech.values()), cols):
            if len(c) < 2 or max(abs(n) for n in c.values()) > 64:
                continue
            e = ZERO
            for k, n in c.items():
                e = add(e, sub(V(ctx.T), ONE) if k == 'T' else sub(s.genval(ctx, k), ctx.changed[k][1]), n)
            for x in (e, scale(e, -1)):
                ctx.dropped.discard(x)
                if s.addinv(ctx, x):
                    more = True
        return more

    def knownbase(s, ctx, base):
        t = L._terms[base]
        if t[0] == 'reg':
            return base in ctx.s1.mem or t[2] <= getattr(ctx, 'uid0', 1 << 60) and base in ctx.s1.mem
        return True

    # ------------------------------------------------------------ instructions
    def step(s, st, fr, ins):
        op = ins.op
        regs = fr.regs
        if op == 'load':
            addr = s.val(st, fr, ins.ops[0])
            size = s.m.size(ins.ty)
            base, off = s.access(st, ins, addr, K(size), 'load')
            if base is None:
                v = V(L.fresh('wild', ins.ty.k == 'ptr'))
            elif ins.ty.k in ('struct', 'arr', 'named'):
                v = V(L.fresh('aggload'))
            else:
                if s.loader is not None:
                    r = s.loader(s, st, ins, base, off, size)
                    if r is not None:
                        for x, v in r:
                            f2 = x.top()
                            f2.regs[ins.dst] = v
                            f2.i = ins.idx + 1
                        return [x for x, _ in r]
                v = s.load(st, base, off, size, ins.ty.k == 'ptr')
                if ins.ty.k == 'i' and ins.ty.bits == 1:
                    v = evalop(st, 'trunc', v, 8, 1)
            for h in s.hooks['load']:
                h(s, st, ins, base, off, size, v)
            regs[ins.dst] = v
        elif op == 'store':
            v = s.val(st, fr, ins.ops[0])
            addr = s.val(st, fr, ins.ops[1])
            size = s.m.size(ins.ty)
            base, off = s.access(st, ins, addr, K(size), 'store')
            for h in s.hooks['store']:
                h(s, st, ins, base, off, size, v)
            if base is not None:
                if v[0] == 'agg':
                    s.rangewrite(st, base, off, K(size), 'havoc', 0)
                else:
                    s.store(st, base, off, size, v)
        elif op == 'br':
            if not ins.ops:
                r = s.goto(st, fr, ins.x[0])
                return r
            c = s.val(st, fr, ins.ops[0])
            outs = s.fork2(st, ins, c)
            res = []
            for x, t in outs:
                f2 = x.top()
                r = s.goto(x, f2, ins.x[0] if t else ins.x[1])
                if r is None:
                    res.append(x)
                else:
                    res.extend(r)
            return res
        elif op == 'call':
            return s.call(st, fr, ins)
        elif op == 'ret':
            v = s.val(st, fr, ins.ops[0]) if ins.ops else None
            return None if s.ret(st, v, ins) else 'stop'
        elif op == 'getelementptr':
            v = s.val(st, fr, ins.ops[0])
            c, var = ins.x
            v = (v[0] + c, v[1])
            for sc, ty, o in var:
                x = s.val(st, fr, o)
                if ty.k == 'i' and ty.bits < 64:
                    x = evalop(st, 'sext', x, ty.bits, 64)
                v = add(v, x, sc)
            regs[ins.dst] = v
        elif op == 'alloca':
            n = s.val(st, fr, ins.ops[0])
            y = s.region('stack', '%s:%s' % (fr.fn.name, ins.dst), scale(n, s.m.size(ins.x)), 'undef', s.m.where(ins))
            fr.allocas = fr.allocas + (y,)
            regs[ins.dst] = V(y)
        elif op in ('add', 'sub'):
            a, b = s.val(st, fr, ins.ops[0]), s.val(st, fr, ins.ops[1])
            v = add(a, b) if op == 'add' else sub(a, b)
            if is_const(v):
                v = K(wrap(v[0], ins.ty.bits))
            for h in s.hooks['arith']:
                h(s, st, ins, a, b, v)
            regs[ins.dst] = v
        elif op in ('mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            a, b = s.val(st, fr, ins.ops[0]), s.val(st, fr, ins.ops[1])
            v = regs[ins.dst] = evalop(st, op, a, b, ins.ty.bits)
            for h in s.hooks['arith']:
                h(s, st, ins, a, b, v)
        elif op == 'icmp':
            pred, ty = ins.x
            a, b = s.val(st, fr, ins.ops[0]), s.val(st, fr, ins.ops[1])
            regs[ins.dst] = evalop(st, 'cmp', pred, a, b, ty.bits if ty.k == 'i' else 64)
        elif op in ('zext', 'sext', 'trunc'):
            a = s.val(st, fr, ins.ops[0])
            regs[ins.dst] = evalop(st, op, a, ins.x.bits, ins.ty.bits)
        elif op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            regs[ins.dst] = s.val(st, fr, ins.ops[0])
        elif op == 'phi':
            raise Limit('phi outside block head')
        elif op == 'select':
            c = s.val(st, fr, ins.ops[0])
            res = []
            for x, t in s.fork2(st, ins, c):
                f2 = x.top()
                f2.regs[ins.dst] = s.val(x, f2, ins.ops[1 if t else 2])
                f2.i = fr.i + 1 if f2 is not fr else f2.i
                res.append((x, f2))
            for x, f2 in res:
                f2.i = ins.idx + 1
            return [x for x, _ in res]
        elif op == 'switch':
            v = s.val(st, fr, ins.ops[0])
            w = ins.ty.bits
            d, cases = ins.x
            if is_const(v):
                t = d
                for c, b in cases:
                    if wrap(c, w) == wrap(v[0], w):
                        t = b
                        break
                return s.goto(st, fr, t)
            res = []
            for c, b in cases:
                x = st.clone()
                if x.assume_eq0(sub(v, K(c))):
                    x.log('%s: case %d' % (s.m.where(ins), c))
                    r = s.goto(x, x.top(), b)
                    res.extend([x] if r is None else r)
            x = st
            ok = True
            for c, b in cases:
                if not x.assume_ne0(sub(v, K(c))):
                    ok = False
                    break
            if ok:
                x.log('%s: default case' % s.m.where(ins))
                r = s.goto(x, x.top(), d)
                res.extend([x] if r is None else r)
            return res
        elif op == 'unreachable':
            s.finish(st, 'unreachable', ins)
            return 'stop'
        elif op == 'extractvalue':
            v = s.val(st, fr, ins.ops[0])
            for i in ins.x:
                if v[0] == 'agg' and i < len(v[1]):
                    v = v[1][i]
                else:
                    v = V(L.fresh('ev', ins.ty.k == 'ptr'))
                    break
            regs[ins.dst] = v
        elif op == 'insertvalue':
            v = s.val(st, fr, ins.ops[0])
            w = s.val(st, fr, ins.ops[1])
            lst = list(v[1]) if v[0] == 'agg' else []
            if len(ins.x) == 1:
                while len(lst) <= ins.x[0]:
                    lst.append(V(L.fresh('iv')))
                lst[ins.x[0]] = w
            regs[ins.dst] = ('agg', lst)
        elif op == 'atomicrmw':
            a = s.val(st, fr, ins.ops[0])
            v = s.val(st, fr, ins.ops[1])
            size = s.m.size(ins.ty)
            base, off = s.access(st, ins, a, K(size), 'rmw')
            if base is None:
                regs[ins.dst] = V(L.fresh('rmw'))
            else:
                old = s.load(st, base, off, size)
                rop = ins.x[0]
                if rop == 'xchg':
                    nv = v
                elif rop == 'add':
                    nv = add(old, v)
                elif rop == 'sub':
                    nv = sub(old, v)
                elif rop in ('and', 'or', 'xor'):
                    nv = evalop(st, rop, old, v, ins.ty.bits)
                else:
                    nv = V(L.fresh('rmw'))
                for h in s.hooks['store']:
                    h(s, st, ins, base, off, size, nv)
                s.store(st, base, off, size, nv)
                regs[ins.dst] = old
        elif op == 'cmpxchg':
            a = s.val(st, fr, ins.ops[0])
            c = s.val(st, fr, ins.ops[1])
            n = s.val(st, fr, ins.ops[2])
            size = s.m.size(ins.x[0])
            base, off = s.access(st, ins, a, K(size), 'rmw')
            old = s.load(st, base, off, size) if base is not None else V(L.fresh('cas'))
            res = []
            cond = evalop(st, 'cmp', 'eq', old, c, size * 8)
            if ins.x[3]:        # a weak one may fail for no reason
                x = st.clone()
                x.top().regs[ins.dst] = ('agg', [x.norm(old), ZERO])
                x.top().i = ins.idx + 1
                x.log('%s: fails although nothing changed' % s.m.where(ins))
                res.append(x)
            for x, t in s.fork2(st, ins, cond):
                f2 = x.top()
                if t and base is not None:
                    for h in s.hooks['store']:
                        h(s, x, ins, base, off, size, n)
                    s.store(x, base, off, size, n)
                f2.regs[ins.dst] = ('agg', [x.norm(old), ONE if t else ZERO])
                f2.i = ins.idx + 1
                res.append(x)
            return res
        elif op == 'fence':
            pass
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv') and ins.dst:
            regs[ins.dst] = V(L.sym((op, st.norm(s.val(st, fr, ins.ops[0])), st.norm(s.val(st, fr, ins.ops[1])))))
        else:
            if ins.dst:
                regs[ins.dst] = V(L.fresh(op, ins.ty.k == 'ptr'))
            if op in ('unknown', 'asm'):
                s.unknown[ins.text] = s.unknown.get(ins.text, 0) + 1
        fr.i = ins.idx + 1
        return None

    def call(s, st, fr, ins):
        tgt = s.val(st, fr, ins.ops[0])
        name = s.fname_of(tgt)
        args = [s.val(st, fr, a[1]) for a in ins.x]
        s.sites.add((ins.fn.name, ins.bb, ins.idx))
        fr.i = ins.idx + 1
        for h in s.hooks['call']:
            h(s, st, ins, name, tgt, args)
        if st.dead:
            return []
        key = name if name is not None else '*'
        md = s.models.get(key)
        if md is None and name is not None and name not in s.m.funcs:
            import models
            md = models.BUILTIN.get(name)
            if md is None:
                for p, f in models.PREFIX:
                    if name.startswith(p):
                        md = f
                        break
        if md is None and name is None:
            import models
            md = models.indirect
        if md is not None:
            r = md(s, st, ins, args)
            if r is not None:
                out = []
                for x, v in r:
                    if ins.dst:
                        f2 = x.top()
                        f2.regs[ins.dst] = v if v is not None else V(L.fresh('void'))
                    out.append(x)
                return out
        if name in s.m.funcs:
            n = sum(1 for f in st.frames if f.fn.name == name)
            if n > s.max_rec:
                s.finish(st, 'recursion', ins)
                return []
            f = s.m.funcs[name]
            for i, a in enumerate(ins.x):
                if a[2]:      # byval: callee gets a copy
                    b = baseof(args[i])
                    sz = s.m.size(ptype(s, f, i, a))
                    y = s.region('stack', 'byval.%s' % name, None, 'undef', s.m.where(ins))
                    if b is not None:
                        s.copy(st, y, ZERO, b, sub(args[i], V(b)), K(4096))
                    args[i] = V(y)
            st.log('%s: calls %s' % (s.m.where(ins), name))
            s.push(st, name, args, ins)
            return None
        s.unknown[name] = s.unknown.get(name, 0) + 1
        if ins.dst:
            fr.regs[ins.dst] = V(L.fresh('ext_' + str(name), ins.ty.k == 'ptr'))
        return None


def ptype(s, f, i, a):
    from ir import I64
    return I64


def backedges(f):
    """(set of back edges, set of headers)"""
    color = {}
    edges = set()
    heads = set()
    start = f.order[0]
    stck = [(start, iter(succs(f.blocks[start][-1])))]
    color[start] = 1
    while stck:
        b, it = stck[-1]
        for t in it:
            c = color.get(t, 0)
            if c == 0:
                color[t] = 1
                stck.append((t, iter(succs(f.blocks[t][-1]))))
                break
            if c == 1:
                edges.add((b, t))
                heads.add(t)
        else:
            color[b] = 2
            stck.pop()
    return edges, heads
