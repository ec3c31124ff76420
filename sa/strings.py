"""Text as an abstract object: where it ends, what its bytes are, and how many matches of a pattern are left in it.

A text argument is a block of unknown length with its terminator. A copy of it in a heap block keeps its identity as long as
nothing is written at or behind the position the search has reached. The number of (non-overlapping, leftmost) matches of a
pattern is an unknown constant of the text and the pattern; the ghost '#rem' counts the matches left at or behind the position
'#at', and the ghosts '#prod' hold that number times the length of each text, so that sums over the matches stay linear."""
import lin as L
from lin import K, V, ZERO, ONE, add, sub, scale, is_const, single, show
import absint as A
import text

MAXLEN = text.MAXLEN


class Texts:
    def __init__(s, an, jump=()):
        s.an = an
        s.args = {}          # base -> length
        s.jump = set(jump)   # search sites whose result the code continues from; at the others it asks "is there a match here?"
        s.sites = []
        s.pairs = []         # (text, pattern) that are searched for
        s.ids = {}
        an.loader = s.load
        an.hooks['store'].append(s.on_store)
        an.hooks['loop'].append(s.on_loop)
        an.hooks['hint'].append(s.hints)
        an.hooks['access'].append(s.on_access)

    # ---------------------------------------------------------------- where texts end
    def arg(s, name):
        p = text.strarg(s.an, name)
        n = text.length(s.an, None_state, p)
        s.args[single(p)] = n
        return p

    def raw(s, name, n):
        """memory that is not text"""
        y = L.sym(('arg', name), True, lo=1)
        s.an.regions[y] = dict(kind='arg', name='memory ' + name, size=n, where='', init='lazy')
        return V(y)

    def split(s, st, p):
        p = st.norm(p)
        b = A.baseof(p)
        return (None, p) if b is None else (b, st.norm(sub(p, V(b))))

    def end(s, st, p, ins, what):
        """(base, offset, offset of a terminator at or behind it), reporting when there is none"""
        an = s.an
        b, off = s.split(st, p)
        if b is None:
            an.report(st, ins, 'not-text', '%s of %s' % (what, show(off)))
            return None, off, None
        c = text.const(an, st, V(b))
        if c is not None:
            z = K(len(c))
        elif b in s.args:
            z = s.args[b]
        else:
            z = s.terminator(st, b, off)
        if b in st.freed:
            an.report(st, ins, 'use-after-free', '%s of text that was released (%s)' % (what, st.freed[b]))
        if z is None or not st.ge0(off) or not st.ge0(st.norm(sub(z, off))):
            an.report(st, ins, 'unterminated', '%s of text at %s, which is not known to end inside its block' % (what, show(p)))
            return b, off, None
        return b, off, st.norm(z)

    def terminator(s, st, b, off):
        an = s.an
        k = '#term%d' % b
        z = st.norm(st.ghost.get(k, K(-1)))
        if not (is_const(z) and z[0] == -1) and st.ge0(sub(z, off)):
            return z
        info = an.regions.get(b)
        if info is None:
            return None
        cand = []
        if info.get('size') is not None:
            cand.append(st.norm(sub(info['size'], ONE)))
        r = st.mem.get(b)
        if r is not None:
            for o, (sz, v, q) in r.cells.items():
                if sz == 1 and v[0] != 'agg' and st.eq0(v):
                    cand.append(st.norm(o))
        for z in cand:
            if st.ge0(sub(z, off)) and st.ge0(z):
                v = an.load(st, b, z, 1)
                if v[0] != 'agg' and st.eq0(v):
                    st.ghost[k] = z
                    return z
        return None

    def length(s, st, p, ins, what):
        b, off, z = s.end(st, p, ins, what)
        if z is None:
            return V(L.fresh('length', lo=0, hi=MAXLEN))
        d = st.norm(sub(z, off))
        if b in s.args or text.const(s.an, st, V(b)) is not None or is_const(d):
            return d
        y = V(L.fresh('length', lo=0, hi=MAXLEN))
        st.assume_ge0(sub(d, y))
        return y

    # ---------------------------------------------------------------- what the code does to texts
    def on_store(s, an, st, ins, base, off, size, v):
        s.written(st, base, off, K(size) if isinstance(size, int) else size, v)

    def on_access(s, an, st, ins, base, off, size, kind):
        if kind in ('memcpy-dst', 'memset', 'strncpy-dst'):
            s.written(st, base, off, size, None)

    def written(s, st, base, off, size, v):
        k = '#term%d' % base if base is not None else None
        if k in st.ghost and not (v is not None and v[0] != 'agg' and st.eq0(v)):
            z = st.norm(st.ghost[k])
            if not (st.ge0(st.norm(sub(sub(z, off), size))) or st.ge0(st.norm(sub(sub(off, z), ONE)))):
                st.ghost[k] = K(-1)
        if base is None:
            return
        for g in list(st.ghost):
            # a search that has passed the place is not affected
            if g.startswith('#at%d_' % base) and not st.ge0(st.norm(sub(sub(st.norm(st.ghost[g]), off), size))):
                st.ghost['#gone' + g[3:]] = ONE
        if '#start%d' % base in st.ghost:
            z, a = st.norm(st.ghost['#stop%d' % base]), st.norm(st.ghost['#start%d' % base])
            if not (st.ge0(st.norm(sub(sub(a, off), size))) or st.ge0(st.norm(sub(off, z)))):
                st.ghost['#lost%d' % base] = ONE

    def copied(s, st, dst, src, n):
        """a copy of a whole text keeps its identity"""
        b, off = s.split(st, dst)
        c, so = s.split(st, src)
        if b is None or c not in s.args or not st.eq0(so) or not st.ge0(st.norm(sub(n, s.args[c]))):
            return
        if '#start%d' % b in st.ghost or b in s.args:
            return
        st.ghost['#start%d' % b] = off
        st.ghost['#stop%d' % b] = add(off, s.args[c])
        st.ghost['#lost%d' % b] = ZERO
        st.ghost['same%d' % b] = c

    def ident(s, st, b):
        """(text this block holds or held, where it starts in it, still all of it)"""
        if b in s.args:
            return b, ZERO, True
        if 'same%d' % b in st.ghost:
            return st.ghost['same%d' % b], st.norm(st.ghost['#start%d' % b]), st.eq0(st.norm(st.ghost['#lost%d' % b]))
        return None, None, False

    # ---------------------------------------------------------------- bytes
    def load(s, an, st, ins, base, off, size):
        if size != 1 or base not in s.args:
            return None
        n = s.args[base]
        off = st.norm(off)
        out = []
        x = st.clone()
        if st.assume_ge0(st.norm(sub(sub(n, off), ONE))):
            out.append((st, V(L.sym(('byte', base, st.norm(off)), lo=1, hi=255))))
        if x.assume_eq0(sub(off, n)):
            x.log('%s: reads the terminator' % an.m.where(ins))
            if s.over(x, base, off):
                out.append((x, ZERO))
        return out if out else None

    def over(s, st, base, off):
        """the end of the text is reached: no match is left there"""
        for g in list(st.ghost):
            if g.startswith('#at%d_' % base) and st.eq0(st.norm(st.ghost['#gone' + g[3:]])) and st.eq0(sub(st.norm(st.ghost[g]), off)):
                t = g[3:]
                if not st.assume_eq0(st.norm(st.ghost['#rem' + t])):
                    return False
                if not s.none(st, t):
                    return False
        return True

    def prods(s, st, t):
        return [g for g in st.ghost if g.startswith('#prod') and g.endswith('|' + t)]

    def none(s, st, t):
        for g in s.prods(st, t):
            if not st.assume_eq0(st.norm(st.ghost[g])):
                return False
        return True

    # ---------------------------------------------------------------- searching
    def count(s, tb, key):
        return V(L.sym(('cnt', tb, key), lo=0, hi=MAXLEN))

    def rewind(s, st, t, start, tb, key, c):
        C = st.norm(s.count(tb, key))
        st.ghost['#at' + t], st.ghost['#rem' + t], st.ghost['#gone' + t] = start, C, ZERO
        for y, n in s.args.items():
            st.ghost['#prod%d|%s' % (y, t)] = st.norm(A.evalop(st, 'mul', C, n, 64))
            st.assume_ge0(st.ghost['#prod%d|%s' % (y, t)])
        if c is not None:
            st.ghost['#prodc|' + t] = scale(C, len(c))

    def on_loop(s, an, st, fr, bb, new):
        """a scan that came to its end starts again (what holds of the whole text holds at any time)"""
        for b in list(s.args) + [int(g[4:]) for g in list(st.ghost) if g.startswith('same')]:
            tb, start, whole = s.ident(st, b)
            if tb is None or not whole:
                continue
            for x, key in s.pairs:
                if x != tb:
                    continue
                t = '%d_%s' % (b, s.ids.setdefault(key, len(s.ids)))
                if '#at' + t not in st.ghost or st.eq0(st.norm(st.ghost['#rem' + t])):
                    s.rewind(st, t, start, tb, key, key if isinstance(key, bytes) else None)
            if b not in s.args:
                s.terminator(st, b, start)

    def hints(s, an, st):
        """candidates for what every round of a loop keeps: a search stays inside, and so do the matches that are left"""
        out = []
        for g in list(st.ghost):
            if not g.startswith('#at') or not st.eq0(st.norm(st.ghost['#gone' + g[3:]])):
                continue
            b, i = (int(x) for x in g[3:].split('_'))
            key = [k for k, n in s.ids.items() if n == i][0]
            z = s.args[b] if b in s.args else st.norm(st.ghost['#stop%d' % b])
            at = st.norm(st.ghost[g])
            need = st.norm(st.ghost['#prod%s|%s' % ('c' if isinstance(key, bytes) else key, g[3:])])
            out += [sub(z, at), sub(sub(z, at), need)]
        return out

    def match(s, st, ins, p, needle, prefix=False):
        """[(state, position of the match or None, whether it is at p)]"""
        an = s.an
        b, off, z = s.end(st, p, ins, 'a search')
        nb, no, nz = s.end(st, needle, ins, 'a search for')
        if z is None or nz is None:
            return None
        nlen = st.norm(sub(nz, no))
        c = text.const(an, st, needle)
        key = c if c is not None else nb if nb in s.args and st.eq0(no) else None
        out = []
        if not st.ge0(sub(nlen, ONE)):
            x = st.clone()
            if x.assume_eq0(nlen):
                x.log('%s: the pattern is empty, it matches at once' % an.m.where(ins))
                out.append((x, off, True))
            if not st.assume_ge0(sub(nlen, ONE)):
                return [(x, add(V(b), o) if o is not None else None, h) for x, o, h in out]
        site = (ins.fn.name, ins.bb, ins.idx)
        if site not in s.sites:
            s.sites.append(site)
        tb, start, whole = s.ident(st, b)
        t = None
        if tb is not None and key is not None:
            if (tb, key) not in s.pairs:
                s.pairs.append((tb, key))
            t = '%d_%s' % (b, s.ids.setdefault(key, len(s.ids)))
            if whole and st.eq0(sub(off, start)):
                # a new scan of the whole text
                s.rewind(st, t, off, tb, key, c)
            elif '#at' + t not in st.ghost or not st.eq0(st.norm(st.ghost['#gone' + t])) or not st.eq0(sub(off, st.norm(st.ghost['#at' + t]))):
                t = None
        jump = site in s.jump and not prefix
        # no match left
        x = st.clone()
        if t is None or (x.assume_eq0(x.norm(x.ghost['#rem' + t])) and s.none(x, t)):
            if t is not None:
                if not jump:
                    x.ghost['#at' + t] = add(off, ONE)
            x.log('%s: no match%s' % (an.m.where(ins), ' here' if prefix else ''))
            out.append((x, None, False))
        # a match
        if t is not None:
            if not st.assume_ge0(sub(st.norm(st.ghost['#rem' + t]), ONE)):
                return [(x, add(V(b), o) if o is not None else None, h) for x, o, h in out]
            need = st.norm(st.ghost.get('#prod%s|%s' % ('c' if c is not None else nb, t)))
            for g in s.prods(st, t):
                # the matches left are at least one
                w = K(len(c)) if g.startswith('#prodc') else st.norm(s.args[int(g[5:].split('|')[0])])
                st.assume_ge0(sub(st.norm(st.ghost[g]), w))
        else:
            need = nlen

        def use(x):
            if t is None:
                return
            x.ghost['#rem' + t] = sub(x.norm(x.ghost['#rem' + t]), ONE)
            for g in s.prods(x, t):
                w = K(len(c)) if g.startswith('#prodc') else x.norm(s.args[int(g[5:].split('|')[0])])
                x.ghost[g] = sub(x.norm(x.ghost[g]), w)
        if not jump:
            x = st.clone()
            if x.assume_ge0(sub(sub(sub(z, off), need), ZERO)):
                x.log('%s: a match here' % an.m.where(ins))
                use(x)
                if t is not None:
                    x.ghost['#at' + t] = x.norm(add(off, nlen))
                out.append((x, off, True))
            lo = add(off, ONE)
        else:
            lo = off
        if prefix:
            if t is None:
                return [(x, add(V(b), o) if o is not None else None, h) for x, o, h in out]
        q = V(L.fresh('match', lo=0, hi=MAXLEN * 4))
        if st.assume_ge0(sub(q, lo)) and st.assume_ge0(st.norm(sub(sub(z, q), need))):
            st.log('%s: a match %s' % (an.m.where(ins), 'further on'))
            if jump:
                use(st)
                if t is not None:
                    st.ghost['#at' + t] = st.norm(add(q, nlen))
            elif t is not None:
                st.ghost['#at' + t] = add(off, ONE)
            out.append((st, None if prefix else q, False))
        return [(x, add(V(b), o) if o is not None else None, h) for x, o, h in out]

    # ---------------------------------------------------------------- models
    def models(s):
        def strlen(an, st, ins, a):
            return [(st, s.length(st, a[0], ins, 'the length'))]

        def strstr(an, st, ins, a):
            r = s.match(st, ins, a[0], a[1])
            if r is None:
                return [(st, V(L.sym(('arg', 'found %s %s' % (ins.fn.name, ins.bb)), True)))]
            return [(x, x.norm(p) if p is not None else ZERO) for x, p, h in r]

        def strpos(an, st, ins, a):
            r = s.match(st, ins, a[0], a[1])
            if r is None:
                return [(st, V(L.sym(('arg', 'found %s %s' % (ins.fn.name, ins.bb)))))]
            return [(x, x.norm(sub(p, a[0])) if p is not None else K(-1)) for x, p, h in r]

        def cmp(an, st, ins, a):
            """only what equality says about the lengths is known"""
            for i in (0, 1):
                if text.const(an, st, a[i]) == b'':
                    r = s.load(an, st, ins, *s.split(st, a[1 - i]), size=1) if s.split(st, a[1 - i])[0] in s.args else None
                    if r is not None:
                        return [(x, v if i else scale(v, -1)) for x, v in r]
            ca, cb = text.const(an, st, a[0]), text.const(an, st, a[1])
            if ca is not None and cb is not None:
                return [(st, K((ca > cb) - (ca < cb)))]
            la, lb = s.length(st, a[0], ins, 'a comparison'), s.length(st, a[1], ins, 'a comparison')
            if a[0] == a[1]:
                return [(st, ZERO)]
            x = st.clone()
            y = V(L.fresh('cmp'))
            out = []
            if st.assume_ne0(y):
                out.append((st, y))
            if x.assume_eq0(x.norm(sub(la, lb))):
                out.append((x, ZERO))
            return out

        def ncmp(an, st, ins, a):
            """strncmp(p, pattern, length of the pattern), memcmp: is there a match here"""
            n = st.norm(a[2])
            for p, q in ((a[0], a[1]), (a[1], a[0])):
                b, o = s.split(st, q)
                ln = s.args.get(b) if b in s.args else None
                if ln is None and text.const(an, st, q) is not None:
                    ln = K(len(text.const(an, st, q)))
                if ln is not None and st.eq0(o) and st.eq0(st.norm(sub(n, ln))) and s.split(st, p)[0] is not None:
                    r = s.match(st, ins, p, q, prefix=True)
                    if r is None:
                        continue
                    out = []
                    for x, pos, h in r:
                        y = V(L.fresh('cmp'))
                        if h:
                            out.append((x, ZERO))
                        elif x.assume_ne0(y):
                            out.append((x, y))
                    return out
            x = st.clone()
            y = V(L.fresh('cmp'))
            st.assume_ne0(y)
            return [(st, y), (x, ZERO)]

        def memcpy(an, st, ins, a):
            n = st.norm(a[2])
            r = A_models.m_memcpy(an, st, ins, a)
            for x, v in r:
                s.copied(x, a[0], a[1], n)
            return r

        def strcpy(an, st, ins, a):
            n = s.length(st, a[1], ins, 'a copy')
            r = A_models.m_memcpy(an, st, ins, [a[0], a[1], add(n, ONE)])
            for x, v in r:
                s.copied(x, a[0], a[1], n)
                b, o = s.split(x, a[0])
                if b is not None:
                    x.ghost['#term%d' % b] = x.norm(add(o, n))
            return r

        def stpcpy(an, st, ins, a):
            n = s.length(st, a[1], ins, 'a copy')
            return [(x, add(a[0], n)) for x, v in strcpy(an, st, ins, a)]

        def strcat(an, st, ins, a):
            n = s.length(st, a[0], ins, 'the length')
            return [(x, a[0]) for x, v in strcpy(an, st, ins, [add(a[0], n), a[1]])]

        def unknown(name):
            def f(an, st, ins, a):
                an.report(st, ins, 'not-analysed', 'the effect of %s on text is not known here' % name)
                return [(st, V(L.fresh('ext', ins.ty.k == 'ptr')))]
            return f
        md = {'simd_strlen': strlen, 'strlen': strlen, 'strstr': strstr, 'simd_strcmp': cmp, 'strcmp': cmp, 'strncmp': ncmp, 'memcmp': ncmp,
              'memcpy': memcpy, 'memmove': memcpy, 'llvm.memcpy.p0.p0.i64': memcpy, 'llvm.memmove.p0.p0.i64': memcpy, 'strcpy': strcpy, 'stpcpy': stpcpy, 'strcat': strcat, 'strpos': strpos}
        return md


import models as A_models       # noqa: E402


class _Empty:
    def norm(s, x):
        return x


None_state = _Empty()
