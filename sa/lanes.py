"""Words as sums of independent parts.

An abstract interpreter for code that handles several characters in one machine word.  A value of w bits is

        c + T1[v1] + T2[v2] + ...      (modulo 2^w)

where every v is an unknown (a character of the input, a digit of a number) with a finite set of values and T a table of what it
contributes.  Sums, products with constants, shifts and masks keep that form as long as no carry crosses from one part into another,
which the domain checks before it uses a rule; otherwise operations on few unknowns are tabulated and taken apart again.  A decision
that depends on an unknown splits its values.  So one run covers every content of the input."""
import itertools, struct, time
from ir import Reg, Const

BIG = 1 << 13
BASE = 1 << 44


class Stuck(Exception):
    """the domain cannot express a result"""


class Split(Exception):
    def __init__(s, var, classes):
        s.var, s.classes = var, classes


class N:
    """number of w bits; the lowest k bits are known as a sum"""
    __slots__ = ('w', 'c', 't', 'k')

    def __init__(s, w, c=0, t=None, k=None):
        s.w, s.c, s.t, s.k = w, c, t or {}, w if k is None else k

    def __repr__(s):
        return 'N%d(%d%s%s)' % (s.w, s.c, ''.join(' +%s' % v for v in s.t), '' if s.k == s.w else ' k%d' % s.k)


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(s, obj, off):
        s.obj, s.off = obj, off

    def __repr__(s):
        return '&%s+%r' % (s.obj, s.off)


class Fl:
    """a floating-point number: ('int', N) | ('const', x) | (op, a, b)"""
    __slots__ = ('e',)

    def __init__(s, *e):
        s.e = e


def top(w):
    return N(w, 0, {}, 0)


class State:
    """size and vals: the unknowns and their values, allow: those of them still possible here"""
    def __init__(s):
        s.allow, s.mem, s.log, s.size, s.vals = {}, {}, (), {}, {}

    def clone(s):
        n = State()
        n.allow, n.mem, n.log, n.size, n.vals = dict(s.allow), dict(s.mem), s.log, s.size, s.vals
        return n

    def dom(s, v):
        """the entries of a table over v (one unknown or several) that matter"""
        if v.__class__ is not tuple:
            return s.allow[v]
        r = (0,)
        for a in v:
            n = s.size[a]
            r = tuple(k * n + i for k in r for i in s.allow[a])
        return r

    def sz(s, v):
        if v.__class__ is not tuple:
            return s.size[v]
        n = 1
        for a in v:
            n *= s.size[a]
        return n


def unjoin(st, key, T):
    """a table over several unknowns as a sum of tables over single ones, or None"""
    sz = [st.size[v] for v in key]
    base = [st.allow[v][0] for v in key]

    def ix(e):
        r = 0
        for i, n in zip(e, sz):
            r = r * n + i
        return r
    t0 = T[ix(base)]
    out = []
    for j, v in enumerate(key):
        U = [0] * sz[j]
        for i in st.allow[v]:
            U[i] = T[ix(base[:j] + [i] + base[j + 1:])] - t0
        out.append(U)
    for e in itertools.product(*[st.allow[v] for v in key]):
        if t0 + sum(U[i] for U, i in zip(out, e)) != T[ix(e)]:
            return None
    return t0, [(v, tuple(U)) for v, U in zip(key, out)]


def norm(st, x):
    """parts that cannot vary join the constant, the others start at 0"""
    m = (1 << x.k) - 1
    c, t, src = x.c, {}, x.t
    if any(v.__class__ is tuple for v in src):
        src = {}
        for v, T in x.t.items():
            u = unjoin(st, v, T) if v.__class__ is tuple else None
            if u is not None:
                c += u[0]
            for a, U in u[1] if u is not None else [(v, T)]:
                src[a] = tuple(p + q for p, q in zip(src[a], U)) if a in src else U
    for v, T in src.items():
        al = st.dom(v)
        vals = [T[i] for i in al]
        lo = min(vals)
        c += lo
        if max(vals) != lo:
            t[v] = tuple((y - lo) & m for y in T)
    return N(x.w, c & m, t, x.k)


def high(st, x):
    return sum(max(T[i] for i in st.dom(v)) for v, T in x.t.items())


def urange(st, x):
    """(low, high) when the number is exactly its sum, else None"""
    if x.k < x.w:
        return None
    h = x.c + high(st, x)
    return (x.c, h) if h < 1 << x.w else None


def srange(st, x):
    if x.k < x.w:
        return None
    h = high(st, x)
    for c in (x.c, x.c - (1 << x.w)):
        if c >= -(1 << x.w - 1) and c + h < 1 << x.w - 1:
            return c, c + h
    return None


def halves(st, v, T):
    """split the values of an unknown by what they contribute"""
    al = st.dom(v)
    if len(al) <= 16:
        return [(i,) for i in al]
    o = sorted(al, key=lambda i: (T[i], i))
    vals = sorted({T[i] for i in al})
    if len(vals) <= 1:
        return [tuple(o[:len(o) // 2]), tuple(o[len(o) // 2:])]
    p = vals[len(vals) // 2]
    return [tuple(i for i in al if T[i] < p), tuple(i for i in al if T[i] >= p)]


def split(st, v, classes):
    if v.__class__ is not tuple:
        return Split(v, classes)
    a = min((a for a in v if len(st.allow[a]) > 1), key=lambda a: len(st.allow[a]))
    return Split(a, halves(st, a, tuple(range(st.size[a]))))


def refine(st, *xs):
    """give up the generality of one unknown these values depend on"""
    best = None
    for x in xs:
        for v, T in x.t.items():
            n = len(st.dom(v))
            if v.__class__ is tuple:
                a = min((a for a in v if len(st.allow[a]) > 1), key=lambda a: len(st.allow[a]))
                raise Split(a, halves(st, a, tuple(range(st.size[a]))))
            if n > 1 and len({T[i] for i in st.dom(v)}) > 1 and (best is None or n < best[0]):
                best = (n, v, T)
    if best is None:
        raise Stuck('a value is not known')
    raise Split(best[1], halves(st, best[1], best[2]))


def at(x, env):
    r = x.c
    for v, T in x.t.items():
        if v.__class__ is tuple:
            i = 0
            for a in v:
                i = i * env['#' + a] + env[a]
            r += T[i]
        else:
            r += T[env[v]]
    return r


def pointwise(st, w, f, *xs, wide=False):
    """tabulate a function of few unknowns and take the result apart"""
    if any(x.k < x.w for x in xs):
        return None
    vs = []
    joint = set()
    for x in xs:
        for v in x.t:
            if v.__class__ is tuple:
                joint.update(v)
            for a in v if v.__class__ is tuple else (v,):
                if a not in vs:
                    vs.append(a)
    vs.sort()
    # values of an unknown that contribute the same are one case
    reps, cls, n, full = [], [], 1, 1
    for v in vs:
        al = st.allow[v]
        if v in joint:
            r, c = al, None
        else:
            tabs = [x.t[v] for x in xs if v in x.t]
            seen, c = {}, {}
            for i in al:
                c[i] = seen.setdefault(tuple(T[i] for T in tabs), i)
            r = tuple(seen.values())
        reps.append(r)
        cls.append(c)
        n *= len(r)
        full *= len(al)
    if n > BIG or full > BIG and not wide:
        return None
    m = (1 << w) - 1
    ms = [(1 << x.w) - 1 for x in xs]
    env = {'#' + v: st.size[v] for v in vs}
    vals = {}
    for e in itertools.product(*reps):
        env.update(zip(vs, e))
        r = f(*[at(x, env) & q for x, q in zip(xs, ms)])
        if r is None:
            return None
        vals[e] = r & m
    base = tuple(r[0] for r in reps)
    r0 = vals[base]
    t = {}
    for j, v in enumerate(vs):
        T = [0] * st.size[v]
        c = cls[j]
        for i in st.allow[v]:
            T[i] = (vals[base[:j] + (i if c is None else c[i],) + base[j + 1:]] - r0) & m
        t[v] = T
    if len(vs) > 1:
        for e, r in vals.items():
            if (r0 + sum(t[v][i] for v, i in zip(vs, e)) - r) & m:
                break
        else:
            return norm(st, N(w, r0, {v: tuple(T) for v, T in t.items()}))
        if len(vs) > 3 or n > 1024 or full > 1 << 17:
            return None
        key = tuple(vs)
        tab = [0] * st.sz(key)
        for e in itertools.product(*[st.allow[v] for v in vs]):
            i = 0
            for v, k in zip(vs, e):
                i = i * st.size[v] + k
            tab[i] = vals[tuple(k if c is None else c[k] for k, c in zip(e, cls))]
        return norm(st, N(w, 0, {key: tuple(tab)}))
    return norm(st, N(w, r0, {v: tuple(T) for v, T in t.items()}))


# ------------------------------------------------------------------ bit operations
def low(x, k):
    m = (1 << k) - 1
    return N(x.w, x.c & m, {v: tuple(y & m for y in T) for v, T in x.t.items()}, k)


def clear(st, x, e):
    """no carry leaves the lowest e bits"""
    m = (1 << e) - 1
    return (x.c & m) + sum(max(T[i] & m for i in st.dom(v)) for v, T in x.t.items()) <= m


def variants(st, x):
    """x, and x with every part moved down to where it starts with its own bits"""
    yield x
    # give every part its share of the constant
    t, c = {}, x.c
    order = sorted(x.t, key=lambda v: lowest(st, x.t[v], v))
    los = [lowest(st, x.t[v], v) for v in order] + [x.k]
    for i, v in enumerate(order):
        span = ((1 << los[i + 1]) - 1) & ~((1 << los[i]) - 1)
        if i == len(order) - 1:
            span = ((1 << x.k) - 1) & ~((1 << los[i]) - 1)
        t[v] = tuple(y + (c & span) for y in x.t[v])
        c &= ~span
    yield N(x.w, c, t, x.k)


def lowest(st, T, v):
    o = 0
    for i in st.dom(v):
        o |= T[i]
    return (o & -o).bit_length() - 1 if o else 1 << 20


def masked(st, x, m):
    """x & m for a constant m"""
    if m == 0:
        return N(x.w, 0)
    edges = [e for e in range(1, x.k) if (m >> e & 1) != (m >> (e - 1) & 1)]
    k, y = 0, x
    for z in variants(st, x):
        good = next((e for e in edges if not clear(st, z, e)), x.k)
        if good > k:
            k, y = good, z
    if k == x.k or k > 7:
        # bits above k are unknown unless the mask removes them
        r = norm(st, N(x.w, y.c & m & ((1 << k) - 1), {v: tuple(q & m & ((1 << k) - 1) for q in T) for v, T in y.t.items()},
                       x.w if m < 1 << k else k))
        if k == x.k or m < 1 << k:
            return r
    z = pointwise(st, x.w, lambda a: a & m, x)
    if z is None and k > 7:
        carries(st, r, x)
        return r
    return z


def both(st, op, x, y, k):
    """a bit operation on two sums whose parts lie side by side, on the lowest k bits"""
    x, y = norm(st, low(x, k)), norm(st, low(y, k))
    vs = set(x.t) | set(y.t)
    lo = {v: min(lowest(st, z.t[v], v) for z in (x, y) if v in z.t) for v in vs}
    order = sorted(vs, key=lambda v: lo[v])
    ends = [lo[v] for v in order[1:]] + [k]
    first = lo[order[0]] if order else k
    lm = (1 << first) - 1
    if x.c & lm != x.c and not order:
        lm = (1 << k) - 1
    t = {}
    for v, hi in zip(order, ends):
        span = ((1 << hi) - 1) & ~((1 << lo[v]) - 1)
        tabs = []
        for z in (x, y):
            T = tuple(q + (z.c & span) for q in z.t.get(v, (0,) * st.sz(v)))
            if hi == k:
                T = tuple(q & ((1 << k) - 1) for q in T)        # what is carried out of the word is lost
            if any(T[i] & ~span for i in st.dom(v)):
                return None
            tabs.append(T)
        t[v] = tuple(op(a, b) for a, b in zip(*tabs))
    return norm(st, N(x.w, op(x.c & lm, y.c & lm), t, k))


def bitop(st, op, x, y):
    w = x.w
    full = (1 << w) - 1
    for a, b in ((x, y), (y, x)):
        if b.k == w and not b.t:
            if op == 'and':
                if b.c == full:
                    return a
                r = masked(st, a, b.c)
            elif op == 'or':
                if b.c == 0:
                    return a
                if b.c == full:
                    return N(w, full)
                r = masked(st, a, b.c)
                r = None if r is None or r.k < w else add(st, add(st, a, b), r, -1)
            else:
                if b.c == 0:
                    return a
                if b.c == full:
                    return norm(st, N(w, -1 - a.c, {v: tuple(-q for q in T) for v, T in a.t.items()}, a.k))
                r = masked(st, a, b.c)
                r = None if r is None or r.k < w else add(st, add(st, a, b), r, -2)
            if r is not None and r.k == w:
                return r
    f = {'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b}[op]
    best = None
    for k in [min(x.k, y.k)] + [k for k in range(56, 0, -8) if k < min(x.k, y.k)]:
        r = both(st, f, x, y, k)
        if r is not None:
            if k == w:
                return r
            best = r
            break
    r = pointwise(st, w, f, x, y)
    if r is not None:
        return r
    if best is not None:
        carries(st, best, x, y)
        return best
    if min(x.k, y.k) < w:
        return top(w)
    refine(st, x, y)


def carries(st, r, *xs):
    """the lowest bits of a result are known: when they do not settle whether it is zero, it has to be decided what is carried out of
    them"""
    lo, hi = urange(st, norm(st, N(r.k, r.c, r.t))) or (0, 0)
    if lo:
        return
    for x in xs:
        z = norm(st, low(x, min(r.k, x.k)))
        if not z.t:
            continue
        v = max(z.t, key=lambda v: lowest(st, z.t[v], v))
        if v.__class__ is tuple:
            continue
        c = z.c & ~((1 << lowest(st, z.t[v], v)) - 1)
        cl = {}
        for i in st.dom(v):
            cl.setdefault((z.t[v][i] + c) >> r.k, []).append(i)
        if len(cl) > 1:
            raise Split(v, [tuple(q) for q in cl.values()])


def add(st, x, y, s=1):
    t = dict(x.t)
    for v, T in y.t.items():
        t[v] = tuple(a + s * b for a, b in zip(t[v], T)) if v in t else tuple(s * b for b in T)
    return norm(st, N(x.w, x.c + s * y.c, t, min(x.k, y.k)))


def times(st, x, n):
    return norm(st, N(x.w, x.c * n, {v: tuple(q * n for q in T) for v, T in x.t.items()}, x.k))


def const(x):
    return x.c if not x.t and x.k == x.w else None


def signed(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def binop(st, op, x, y):
    x, y = norm(st, x), norm(st, y)
    w = x.w
    full = (1 << w) - 1
    if op in ('add', 'sub'):
        return add(st, x, y, 1 if op == 'add' else -1)
    if op in ('and', 'or', 'xor'):
        return bitop(st, op, x, y)
    a, b = const(x), const(y)
    if op == 'mul':
        if b is not None:
            return times(st, x, signed(b, w))
        if a is not None:
            return times(st, y, signed(a, w))
        f = lambda p, q: p * q
    elif op == 'shl':
        if b is not None:
            if b >= w:
                return top(w)
            r = times(st, N(w, x.c, x.t), 1 << b)
            return norm(st, N(w, r.c, r.t, min(w, x.k + b)))
        f = lambda p, q: p << q if q < w else 0
    elif op in ('lshr', 'ashr'):
        if b is not None and b >= w:
            return top(w)
        if b is not None:
            if op == 'ashr' or x.k < w:
                r = urange(st, x)
                if x.k == w and r is not None and r[1] < 1 << w - 1:
                    op = 'lshr'
        if op == 'lshr' and b is not None and x.k == w:
            for z in variants(st, x):
                if (b == 0 or clear(st, z, b)) and urange(st, z) is not None:
                    return norm(st, N(w, z.c >> b, {v: tuple(q >> b for q in T) for v, T in z.t.items()}))
        if op == 'lshr' and b is not None and x.k < w:
            if x.k > b and clear(st, x, b):
                return norm(st, N(w, x.c >> b, {v: tuple(q >> b for q in T) for v, T in x.t.items()}, x.k - b))
            return top(w)
        f = (lambda p, q: p >> q if q < w else 0) if op == 'lshr' else (lambda p, q: signed(p, w) >> q if q < w else 0)
    elif op in ('udiv', 'urem', 'sdiv', 'srem'):
        sg = op[0] == 's'
        if b is not None and (b if not sg else signed(b, w)) > 0:
            r = srange(st, x) if sg else urange(st, x)
            if r is not None and r[0] >= 0 and urange(st, x) is not None:
                if x.c % b + sum(max(T[i] % b for i in st.dom(v)) for v, T in x.t.items()) < b:
                    g = (lambda q: q // b) if op.endswith('div') else (lambda q: q % b)
                    return norm(st, N(w, g(x.c), {v: tuple(g(q) for q in T) for v, T in x.t.items()}))

        def f(p, q):
            if sg:
                p, q = signed(p, w), signed(q, w)
            if q == 0:
                return None
            d = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
            return d if op.endswith('div') else p - d * q
    else:
        raise Stuck('operation ' + op)
    if x.k < w or y.k < w:
        return top(w)
    r = pointwise(st, w, f, x, y)
    if r is None:
        refine(st, x, y)
    return r


def cast(st, op, x, w):
    x = norm(st, x)
    if op == 'trunc':
        m = (1 << w) - 1
        return norm(st, N(w, x.c & m, {v: tuple(q & m for q in T) for v, T in x.t.items()}, min(w, x.k)))
    if x.k < x.w:
        return N(w, x.c, x.t, x.k)
    if op == 'zext':
        for z in variants(st, x):
            if urange(st, z) is not None:
                return norm(st, N(w, z.c, z.t))
        f = lambda a: a
    else:
        r = srange(st, x)
        if r is not None:
            return norm(st, N(w, r[0], x.t))
        f = lambda a: signed(a, x.w)
    r = pointwise(st, w, f, x)
    if r is None:
        refine(st, x)
    return r


def compare(st, pred, x, y):
    x, y = norm(st, x), norm(st, y)
    w = x.w
    if pred in ('eq', 'ne'):
        d = add(st, x, y, -1)
        res = None
        if d.c and d.c + high(st, d) < 1 << d.k:
            res = False
        elif d.k == w and not d.t:
            res = d.c == 0
        if res is not None:
            return N(1, int(res == (pred == 'eq')))
        if d.k < w:
            if not d.t:
                return top(1)
            refine(st, d)
        r = pointwise(st, 1, lambda a: int((a == 0) == (pred == 'eq')), d)
        if r is not None:
            return r
        v = min(d.t, key=lambda v: lowest(st, d.t[v], v))
        T = d.t[v]
        if d.c == 0 and high(st, d) < 1 << w:
            raise split(st, v, [tuple(i for i in st.dom(v) if T[i] == 0), tuple(i for i in st.dom(v) if T[i])])
        refine(st, d)
    sg = pred[0] == 's'
    rx, ry = (srange if sg else urange)(st, x), (srange if sg else urange)(st, y)
    if rx is not None and ry is not None:
        lt = rx[1] < ry[0], rx[0] >= ry[1]
        gt = ry[1] < rx[0], ry[0] >= rx[1]
        yes, no = {'lt': lt, 'gt': gt, 'ge': lt[::-1], 'le': gt[::-1]}[pred[1:]]
        if yes or no:
            return N(1, int(yes))
    f = {'lt': lambda a, b: a < b, 'gt': lambda a, b: a > b, 'le': lambda a, b: a <= b, 'ge': lambda a, b: a >= b}[pred[1:]]
    g = (lambda a, b: int(f(signed(a, w), signed(b, w)))) if sg else lambda a, b: int(f(a, b))
    if x.k < w or y.k < w:
        return top(1)
    r = pointwise(st, 1, g, x, y)
    if r is None:
        big = None
        for z in (x, y):
            for v, T in z.t.items():
                q = max(T[i] for i in st.dom(v))
                if big is None or q > big[0]:
                    big = (q, v, T)
        raise split(st, big[1], halves(st, big[1], big[2]))
    return r


def trailing(st, x):
    """number of zero bits below the lowest set one"""
    x = norm(st, x)
    for y in variants(st, x):
        lo = [(lowest(st, T, v), v) for v, T in y.t.items()]
        first = min(lo)[0] if lo else y.k
        c = y.c & ((1 << first) - 1) if y.t else y.c
        if c:
            return N(x.w, (c & -c).bit_length() - 1)
    if not x.t:
        if x.k < x.w:
            return top(x.w)
        return N(x.w, x.w)
    f, v = min((lowest(st, T, v), v) for v, T in x.t.items())
    T = x.t[v]
    cl = {}
    for i in st.dom(v):
        cl.setdefault(T[i], []).append(i)
    raise split(st, v, [tuple(c) for c in cl.values()])


def leading(st, x):
    """number of zero bits above the highest set one"""
    x = norm(st, x)
    if x.k < x.w:
        return top(x.w)
    if not x.t:
        return N(x.w, x.w - x.c.bit_length())
    r = urange(st, x)
    if r is not None and r[0].bit_length() == r[1].bit_length():
        return N(x.w, x.w - r[0].bit_length())
    big = max((max(T[i] for i in st.dom(v)), v) for v, T in x.t.items())[1]
    T = x.t[big]
    cl = {}
    for i in st.allow[big]:
        cl.setdefault(T[i], []).append(i)
    if len(cl) > 16:
        raise split(st, big, halves(st, big, T))
    raise split(st, big, [tuple(c) for c in cl.values()])


# ------------------------------------------------------------------ the interpreter
PURE = ('icmp', 'zext', 'sext', 'trunc', 'select', 'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'udiv', 'urem', 'ashr')


class Machine:
    def __init__(s, mod, steps=400000):
        s.m = mod
        s.objs = {}
        s.unknown, s.npaths, s.loops_done = {}, 0, 0
        s.steps = steps
        s.until = time.process_time() + 60
        s.reports = {}
        s.funcs = set()
        s.instrs = set()
        s.nobj = 0
        s.models = {}
        s.onblock = None

    funcs_seen = property(lambda s: s.funcs)
    sites = property(lambda s: {i for i in s.instrs if s.m.funcs[i[0]].blocks[i[1]][i[2]].op == 'call'})
    ninstr = property(lambda s: len(s.instrs))

    def obj(s, name, size, default=None, const=False, loose=None, align=0):
        """memory; default(off) gives the contents not stored yet; reads of [loose] outside the block are of unknown bytes"""
        s.nobj += 1
        key = '%s#%d' % (name, s.nobj)
        s.objs[key] = dict(name=name, size=size, default=default, const=const, loose=loose or (0, size), base=(BASE << 4) * s.nobj + align)
        return key

    def var(s, st, name, values):
        """an unknown with these values"""
        if name not in st.size:
            st.size[name] = len(values)
            st.vals[name] = tuple(values)
        st.allow.setdefault(name, tuple(range(len(values))))
        return tuple(values)

    def report(s, st, ins, key, msg):
        s.reports.setdefault((key, s.m.where(ins) if ins is not None else ''), (msg, list(st.log[-30:])))

    def const(s, c, ty):
        if c.kind == 'int':
            return N(ty.bits, c.v & (1 << ty.bits) - 1)
        if c.kind in ('null', 'zero', 'undef'):
            return N(ty.bits if ty.k == 'i' else 64, 0) if c.kind != 'undef' else top(ty.bits if ty.k == 'i' else 64)
        if c.kind == 'global':
            return s.glob(c.v)
        if c.kind == 'gep':
            raise Stuck('constant address')
        if c.kind == 'fp':
            return Fl('const', c.v)
        raise Stuck('constant ' + c.kind)

    def glob(s, name):
        if name not in s.objs:
            g = s.m.globals.get(name)
            if g is None:
                s.nobj += 1
                s.objs[name] = dict(name=name, size=0, default=None, const=True, data=None, loose=(0, 0), base=(BASE << 4) * s.nobj)
                return Ptr(name, N(64, 0))
            ty = s.m.resolve(g.ty)
            data = None
            if getattr(g, 'const', False) and g.init is not None and ty.k == 'arr':
                n = s.m.size(ty.elt)
                if g.init.kind == 'str':
                    data = {i: (1, N(8, b)) for i, b in enumerate(g.init.v)}
                elif g.init.kind == 'zero':
                    data = {i * n: (n, N(8 * n, 0)) for i in range(ty.n)}
                elif g.init.kind == 'agg':
                    data = {}
                    for i, c in enumerate(g.init.v):
                        data[i * n] = (n, s.const(c, s.m.resolve(ty.elt)))
            s.nobj += 1
            s.objs[name] = dict(name=name, size=s.m.size(g.ty), default=None, const=data is not None, data=data, loose=(-8, s.m.size(g.ty) + 8) if data is not None and (g.init.kind == 'str' or g.init.kind == 'zero' and s.m.size(g.ty) == 1) else (0, s.m.size(g.ty)),
                                base=(BASE << 4) * s.nobj)
        return Ptr(name, N(64, 0))

    def val(s, st, regs, o, ty=None):
        if isinstance(o, Reg):
            v = regs.get(o.name)
            if v is None:
                raise Stuck('value %s is not known' % o.name)
            return norm(st, v) if isinstance(v, N) else v
        return s.const(o, ty if ty is not None and ty.k != 'void' else o.ty)

    # -------------------------------------------------------------- memory
    def bytes_(s, st, ins, p, n):
        """[value] of n bytes at p, lowest first"""
        out = []
        o = s.objs[p.obj]
        off = const(p.off)
        cells = st.mem.get(p.obj) if o.get('data') is None else o['data']
        cells = cells or {}
        for i in range(off, off + n):
            hit = None
            for b in range(i, i - 8, -1):
                if b in cells and b + cells[b][0] > i:
                    hit = b
                    break
            if hit is not None:
                z, v = cells[hit]
                if not isinstance(v, N):
                    raise Stuck('part of a pointer is read')
                v = norm(st, v)
                out.append(v if z == 1 else cast(st, 'trunc', binop(st, 'lshr', v, N(v.w, 8 * (i - hit))), 8))
            else:
                v = o['default'](st, i) if o['default'] is not None and o['loose'][0] <= i < o['loose'][1] else None
                out.append(v if v is not None else top(8))
        return out

    def bounds(s, st, ins, p, n, write):
        o = s.objs[p.obj]
        off = const(p.off)
        lo, hi = (0, o['size']) if write else (min(0, o['loose'][0]), max(o['size'], o['loose'][1]))
        if off < lo or off + n > hi:
            s.report(st, ins, 'outside', '%d bytes at offset %d of %s (%d bytes) are %s' % (n, off, o['name'], o['size'], 'written' if write else 'read'))
            return False
        return True

    def load(s, st, ins, p, n):
        if not isinstance(p, Ptr):
            c = const(p)
            p = s.pointer(c) if c is not None else None
            if p is None:
                raise Stuck('an address is not known')
        off = norm(st, p.off)
        o = s.objs[p.obj]
        if const(off) is None:
            d = o.get('data')
            if d is None:
                refine(st, off)

            def f(a):
                z = d.get(a)
                return z[1].c if z is not None and z[0] == n else None
            r = pointwise(st, 8 * n, f, off, wide=True)
            if r is None:
                refine(st, off)
            return r
        p = Ptr(p.obj, off)
        s.bounds(st, ins, p, n, False)
        cells = st.mem.get(p.obj) if o.get('data') is None else o['data']
        z = (cells or {}).get(const(off))
        if z is not None and z[0] == n:
            return z[1]
        b = s.bytes_(st, ins, p, n)
        r = N(8 * n, 0)
        known = 8 * n
        for i, v in enumerate(b):
            if v.k < 8:
                known = min(known, 8 * i + v.k)
            y = cast(st, 'zext', v, 8 * n) if v.k == 8 else N(8 * n, 0)
            r = add(st, r, times(st, N(8 * n, y.c, y.t), 1 << 8 * i))
        return N(8 * n, r.c, r.t, known) if known == 8 * n else norm(st, low(r, known)) if known else top(8 * n)

    def store(s, st, ins, p, n, v):
        if not isinstance(p, Ptr):
            raise Stuck('an address is not known')
        off = norm(st, p.off)
        if const(off) is None:
            refine(st, off)
        p = Ptr(p.obj, off)
        if s.objs[p.obj]['const']:
            s.report(st, ins, 'constant', 'constant memory %s is written' % s.objs[p.obj]['name'])
        s.bounds(st, ins, p, n, True)
        a = const(off)
        cells = dict(st.mem.get(p.obj) or {})
        for b in [b for b in cells if b < a + n and b + cells[b][0] > a]:
            z, w = cells.pop(b)
            for i in range(b, b + z):
                if not a <= i < a + n:
                    cells[i] = (1, cast(st, 'trunc', binop(st, 'lshr', norm(st, w), N(w.w, 8 * (i - b))), 8))
        cells[a] = (n, v)
        st.mem[p.obj] = cells

    def memcpy(s, st, ins, d, src, n):
        n = s.number(st, n)
        for p in (d, src):
            if not isinstance(p, Ptr):
                raise Stuck('an address is not known')
            if const(norm(st, p.off)) is None:
                refine(st, norm(st, p.off))
        if n == 0:
            return
        d, src = Ptr(d.obj, norm(st, d.off)), Ptr(src.obj, norm(st, src.off))
        s.bounds(st, ins, src, n, False)
        if n in (1, 2, 4, 8):
            return s.store(st, ins, d, n, s.load(st, ins, src, n))
        b = s.bytes_(st, ins, src, n)
        s.bounds(st, ins, d, n, True)
        for i, v in enumerate(b):
            s.store(st, None, Ptr(d.obj, N(64, const(d.off) + i)), 1, v)

    def number(s, st, x):
        x = norm(st, x)
        if const(x) is None:
            refine(st, x)
        return const(x)

    def pointer(s, c):
        for k, o in s.objs.items():
            if o['base'] - 64 <= c < o['base'] + BASE:
                return Ptr(k, N(64, c - o['base']))
        return None

    def address(s, p):
        return add0(N(64, s.objs[p.obj]['base']), p.off)

    # -------------------------------------------------------------- execution
    def run(s, name, args, st):
        """[(state, result)] of a call"""
        f = s.m.funcs[name]
        s.funcs.add(name)
        regs = {p: a for p, a in zip(params(f), args)}
        work = [(st, regs, f.order[0] if f.order else list(f.blocks)[0], 0, None)]
        out = []
        while work:
            st, regs, bb, i, prev = work.pop()
            blk = f.blocks[bb]
            if i == 0 and s.onblock is not None and not s.onblock(s, f, st, regs, bb, prev):
                continue
            while True:
                s.steps -= 1
                if s.steps < 0:
                    raise Stuck('too many steps')
                if s.steps % 64 == 0 and time.process_time() > s.until:
                    raise Stuck('the cases do not come to an end')
                ins = blk[i]
                s.instrs.add((name, bb, i))
                try:
                    if ins.op == 'phi':
                        new = {}
                        while blk[i].op == 'phi':
                            new[blk[i].dst] = s.val(st, regs, blk[i].x[prev], blk[i].ty)
                            i += 1
                        regs = dict(regs, **new)
                        continue
                    if ins.op == 'br':
                        if ins.ops:
                            c = s.val(st, regs, ins.ops[0])
                            if c.k == 0:
                                for t in ins.x:
                                    work.append((st.clone(), dict(regs), t, 0, bb))
                                break
                            if const(c) is None:
                                r = s.diamond(f, st, regs, bb, ins, c)
                                if r is not None:
                                    regs, prev, bb, i = r
                                    blk = f.blocks[bb]
                                    continue
                                refine1(st, c)
                            t = ins.x[0] if const(c) else ins.x[1]
                            st.log = (st.log + ('%s: %s' % (s.m.where(ins), bool(const(c))),))[-40:]
                        else:
                            t = ins.x[0]
                        work.append((st, regs, t, 0, bb))
                        break
                    if ins.op == 'switch':
                        c = s.number(st, s.val(st, regs, ins.ops[0], ins.ty))
                        d, cases = ins.x
                        t = d
                        for k, b in cases:
                            if (k - c) % (1 << ins.ty.bits) == 0:
                                t = b
                        work.append((st, regs, t, 0, bb))
                        break
                    if ins.op == 'ret':
                        s.npaths += 1
                        out.append((st, s.val(st, regs, ins.ops[0], ins.ty) if ins.ops else None))
                        break
                    if ins.op == 'unreachable':
                        s.report(st, ins, 'ends', '%s ends the program' % name)
                        break
                    if ins.op == 'call':
                        rs = s.call(st, regs, ins)
                        if len(rs) == 1:
                            st, v = rs[0]
                            if ins.dst:
                                regs = dict(regs)
                                regs[ins.dst] = v
                            i += 1
                            continue
                        for x, v in rs:
                            r = dict(regs)
                            if ins.dst:
                                r[ins.dst] = v
                            work.append((x, r, bb, i + 1, prev))
                        break
                    v = s.step(st, regs, ins)
                    if ins.dst:
                        regs = dict(regs)
                        regs[ins.dst] = v
                    i += 1
                except Split as e:
                    for c in e.classes:
                        if c:
                            x = st.clone()
                            x.allow[e.var] = tuple(c)
                            work.append((x, dict(regs), bb, i, prev))
                    break
                except Stuck as e:
                    raise Stuck('%s (%s)' % (e, s.m.where(ins)) if 'at ' not in str(e) and '(' not in str(e) else str(e))
        return out

    def diamond(s, f, st, regs, bb, ins, c):
        """both sides of a branch that only choose values: (registers, last block, next block, position) with the values put together"""
        if len(c.t) != 1:
            return None
        (v, T), = c.t.items()
        if v.__class__ is tuple or s.onblock is not None:
            return None
        sides = []
        for t in ins.x:
            b = f.blocks[t]
            last = b[-1]
            if last.op == 'br' and not last.ops and b[0].op != 'phi' and len(b) <= 12 and all(i.op in PURE for i in b[:-1]):
                sides.append((t, last.x[0]))
            else:
                sides.append((None, t))
        # an empty side goes to the join itself
        (t1, j1), (t2, j2) = sides
        if t1 is None and t2 is None or t1 is None and j2 != j1 or t2 is None and j1 != j2 or j1 != j2:
            return None
        join = f.blocks[j1]
        if join[0].op != 'phi':
            return None
        parts = []
        for (t, _), want in zip(sides, (1, 0)):
            x = st.clone()
            x.allow[v] = tuple(i for i in st.allow[v] if (T[i] + c.c) & 1 == want)
            r = dict(regs)
            try:
                for i in f.blocks[t][:-1] if t is not None else ():
                    r[i.dst] = s.step(x, r, i)
                vals = []
                k = 0
                while join[k].op == 'phi':
                    y = s.val(x, r, join[k].x[t if t is not None else bb], join[k].ty)
                    if not isinstance(y, N) or y.k < y.w:
                        return None
                    vals.append(norm(x, y))
                    k += 1
            except (Split, Stuck):
                return None
            parts.append((x, vals))
        new = dict(regs)
        (x1, a), (x2, b) = parts
        for k, (p, q) in enumerate(zip(a, b)):
            rest = {u for z in (p, q) for u in z.t if u != v}
            if any(u not in p.t or u not in q.t or any(p.t[u][i] != q.t[u][i] for i in st.dom(u)) or u.__class__ is tuple for u in rest):
                return None
            tab = [0] * st.size[v]
            for x, z in ((x1, p), (x2, q)):
                U = z.t.get(v)
                for i in x.allow[v]:
                    tab[i] = z.c + (U[i] if U is not None else 0)
            t = {u: p.t[u] for u in rest}
            t[v] = tuple(tab)
            new[join[k].dst] = norm(st, N(p.w, 0, t))
        s.instrs.update((f.name, t, i) for t, _ in sides if t is not None for i in range(len(f.blocks[t])))
        return new, bb, j1, len(a)

    def step(s, st, regs, ins):
        op = ins.op
        val = lambda k, ty=None: s.val(st, regs, ins.ops[k], ty)
        if op == 'load':
            v = s.load(st, ins, val(0), s.m.size(ins.ty))
            if isinstance(v, N) and ins.ty.k == 'i' and ins.ty.bits < v.w:
                v = cast(st, 'trunc', v, ins.ty.bits)
            return v
        if op == 'store':
            v = val(0, ins.ty)
            s.store(st, ins, val(1), s.m.size(ins.ty), v)
            return None
        if op == 'getelementptr':
            p = val(0)
            if isinstance(p, N):
                c = const(norm(st, p))
                p = s.pointer(c) if c is not None else None
                if p is None:
                    raise Stuck('an address is not known')
            c, var = ins.x
            off = N(64, p.off.c + c, p.off.t)
            for sc, ty, o in var:
                x = s.val(st, regs, o, ty)
                if x.w < 64:
                    x = cast(st, 'sext', x, 64)
                off = add(st, off, times(st, x, sc))
            return Ptr(p.obj, off)
        if op == 'alloca':
            n = s.number(st, val(0)) * s.m.size(ins.x)
            return Ptr(s.obj('%s:%s' % (ins.fn.name, ins.dst), n), N(64, 0))
        if op == 'icmp':
            pred, ty = ins.x
            a, b = val(0, ty), val(1, ty)
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                    return compare(st, pred, a.off, b.off)
                if pred in ('eq', 'ne'):
                    return N(1, int(pred == 'ne'))
                raise Stuck('addresses are compared')
            return compare(st, pred, a, b)
        if op in ('zext', 'sext', 'trunc'):
            a = val(0, ins.x)
            if isinstance(a, Ptr):
                raise Stuck('an address is truncated')
            return cast(st, op, a, ins.ty.bits)
        if op == 'ptrtoint':
            a = val(0)
            return norm(st, add(st, N(64, s.objs[a.obj]['base']), a.off)) if isinstance(a, Ptr) else a
        if op in ('inttoptr', 'bitcast', 'freeze'):
            a = val(0)
            if op == 'inttoptr' and isinstance(a, N):
                c = s.number(st, a)
                return s.pointer(c) or a
            return a
        if op == 'select':
            c = val(0)
            a, b = val(1, ins.ty), val(2, ins.ty)
            k = const(c)
            if k is None:
                if c.k == 0:
                    raise Stuck('a condition is not known')
                if isinstance(a, N) and isinstance(b, N) and const(a) is not None and const(b) is not None:
                    r = pointwise(st, a.w, lambda q: a.c if q else b.c, c)
                    if r is not None:
                        return r
                refine1(st, c)
            return a if k else b
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            a, b = val(0, ins.ty), val(1, ins.ty)
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                raise Stuck('arithmetic on an address')
            return binop(st, op, a, b)
        if op in ('sitofp', 'uitofp'):
            a = val(0, ins.x if hasattr(ins.x, 'bits') else None)
            return Fl('int', a, op == 'sitofp')
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            return Fl(op, val(0), val(1))
        if op == 'fneg':
            return Fl('fsub', Fl('const', 0.0), val(0))
        raise Stuck('instruction ' + op)

    def call(s, st, regs, ins):
        o = ins.ops[0]
        name = o.v.lstrip('@') if isinstance(o, Const) and o.kind == 'global' else None
        if name is None:
            raise Stuck('an indirect call')
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime'):
            return [(st, None)]
        a = [s.val(st, regs, x[1], x[0]) for x in ins.x]
        w = ins.ty.bits if ins.ty.k == 'i' else 64
        if name in s.models:
            return s.models[name](s, st, ins, a)
        if name.startswith(('llvm.memcpy', 'llvm.memmove')) or name in ('memcpy', 'memmove'):
            s.memcpy(st, ins, a[0], a[1], a[2])
            return [(st, a[0])]
        if name.startswith('llvm.memset') or name == 'memset':
            n = s.number(st, a[2])
            c = cast(st, 'trunc', a[1], 8) if a[1].w > 8 else a[1]
            p = a[0]
            if n == 8 and isinstance(p, Ptr):
                r = N(64, 0)
                y = cast(st, 'zext', c, 64)
                s.store(st, ins, p, 8, times(st, y, 0x0101010101010101))
            else:
                for i in range(n):
                    s.store(st, ins, Ptr(p.obj, add(st, p.off, N(64, i))), 1, c)
            return [(st, p)]
        if name.startswith('llvm.cttz'):
            return [(st, trailing(st, a[0]))]
        if name.startswith('llvm.ctlz'):
            return [(st, leading(st, a[0]))]
        if name.startswith('llvm.abs') or name in ('abs', 'labs', 'llabs'):
            x = a[0]
            r = srange(st, norm(st, x))
            if r is not None and r[0] >= 0:
                return [(st, x)]
            if r is not None and r[1] <= 0:
                return [(st, norm(st, N(x.w, -x.c, {v: tuple(-q for q in T) for v, T in x.t.items()})))]
            v = pointwise(st, x.w, lambda q: abs(signed(q, x.w)), x)
            if v is None:
                refine(st, x)
            return [(st, v)]
        if name.startswith(('llvm.fmuladd', 'llvm.fma')) or name == 'fma':
            return [(st, Fl('fadd', Fl('fmul', a[0], a[1]), a[2]))]
        if name in s.m.funcs:
            st2 = st.clone()
            st2.log = (st2.log + ('%s: calls %s' % (s.m.where(ins), name),))[-40:]
            return s.run(name, a, st2)
        raise Stuck('call of %s' % name)


def params(f):
    return [p[1] for p in f.params]


def refine1(st, c):
    """a condition: split the unknown it depends on by its outcome"""
    if len(c.t) == 1:
        v, T = next(iter(c.t.items()))
        raise split(st, v, [tuple(i for i in st.dom(v) if (T[i] + c.c) & 1), tuple(i for i in st.dom(v) if not (T[i] + c.c) & 1)])
    refine(st, c)


def add0(a, b):
    return N(64, a.c + b.c, dict(b.t))


def same(st, x, y):
    """None when the two are equal for every value of the unknowns, else what differs"""
    x, y = norm(st, x), norm(st, y)
    if x.k < x.w:
        return 'the value is not determined'
    d = add(st, x, y, -1)
    if d.t or d.c:
        vs = {a for z in (x, y) for v in z.t for a in (v if v.__class__ is tuple else (v,))}
        env = {v: st.allow[v][0] for v in vs}
        env.update(('#' + v, st.size[v]) for v in vs)
        for v in sorted(vs):
            for i in st.allow[v]:
                e = dict(env, **{v: i})
                if (at(x, e) - at(y, e)) & ((1 << x.w) - 1):
                    env = e
                    break
        m = (1 << x.w) - 1
        return 'is %d where %d is called for' % (at(x, env) & m, at(y, env) & m)
    return None


def linear(st, f):
    """a floating-point result as {factor: whole number} plus {None: constant}; rounding is left aside"""
    k = f.e[0]
    if k == 'int':
        x = f.e[1]
        if x.w < 64:
            x = cast(st, 'sext' if f.e[2] else 'zext', x, 64)
        return {1.0: norm(st, x)}
    if k == 'const':
        x = f.e[1]
        if str(x).startswith('0x'):
            x = struct.unpack('>d', bytes.fromhex(x[2:].rjust(16, '0')))[0]
        return {None: float(x)}
    a, b = linear(st, f.e[1]), linear(st, f.e[2])
    if k in ('fadd', 'fsub'):
        r = dict(a)
        for q, x in b.items():
            if q is None:
                r[q] = r.get(q, 0.0) + (x if k == 'fadd' else -x)
            else:
                y = r.get(q, N(64, 0))
                r[q] = add(st, y, x, 1 if k == 'fadd' else -1)
        return r
    if set(b) == {None} or (k == 'fmul' and set(a) == {None}):
        if set(b) != {None}:
            a, b = b, a
        c = b[None]
        if k == 'fdiv':
            if c == 0:
                raise Stuck('division by zero')
            c = 1 / c
        r = {}
        for q, x in a.items():
            if q is None:
                r[q] = x * c
            elif c < 0:
                r[q * -c] = add(st, N(64, 0), x, -1)
            else:
                r[q * c] = x
        return r
    raise Stuck('a product of two unknowns')


def tell(st, limit=40):
    """an example of what the unknowns may be on this path"""
    out = []
    for v in sorted(st.allow, key=lambda v: (v.rstrip('0123456789'), int('0' + ''.join(c for c in v if c.isdigit()))))[:limit]:
        out.append('%s=%s' % (v, st.vals[v][st.allow[v][0]]))
    return ' '.join(out)
