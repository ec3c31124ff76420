from core import *
from digits import *
import narrow

EXPLANATION = ('The routines that look at eight characters at a time are abstractly interpreted on texts whose characters are unknowns: a machine word '
               'is a sum of tables over single characters, and a decision splits the values of the character it depends on. On every path the '
               'characters before (or behind) the position returned must be known to differ from the one searched for and the one there to be it; '
               'nothing found means that every character is known to differ.')

SEARCH = ('memchr8', 'simd_memchr', 'simd_memrchr', 'pmemchr', 'pmemrchr', 'memchrk', 'memrchrk', 'pmemchrk', 'pmemrchrk', 'memchr8k')


def may(st, i):
    """what character i may be"""
    return {st.vals['s%d' % i][j] for j in st.allow['s%d' % i]}


def found(st, c, n, k, back):
    """None when k is the position of the first (last) c of n, or k is None and there is none"""
    if k is not None and not 0 <= k < n:
        return 'answers %d for a text of %d' % (k, n)
    for i in (range(n) if k is None else range(k + 1, n) if back else range(k)):
        if c in may(st, i):
            return 'passes over character %d, which may be the one' % i
    if k is not None and may(st, k) != {c}:
        return 'answers %d, where another character may be' % k


def search(ctx, mod, fn, n, c, known=None, high=256):
    back = 'memrchr' in fn
    a = Case(ctx, mod, fn, 'text of %d for character %d%s' % (n, c, '' if known is None else ' present at %d' % known))
    t = a.text([(c,) if i == known else range(high) for i in range(n)], 0)

    def judge(st, r):
        k = None
        if isinstance(r, Ptr):
            if r.obj != t.obj or const(norm(st, r.off)) is None:
                return 'the answer is not a place in the text'
            k = const(norm(st, r.off))
        else:
            k = const(norm(st, r))
            if k is None:
                return 'the answer is not known'
            if r.w == 64:
                if k:
                    return 'the answer is neither a place nor NULL'
                k = None
            elif k == (1 << r.w) - 1:
                k = None
        return found(st, c, n, k, back)
    a.run([t, N(8, c)] if fn.startswith('memchr8') else [t, N(8, c), N(32, n)] if fn.startswith('simd') else [t, N(32, n), N(8, c)], judge)


def lengths(ctx, mod, al, most):
    for n in range(most + 1):
        a = Case(ctx, mod, 'simd_strlen', 'text of %d at alignment %d' % (n, al))
        t = a.text([range(1, 256)] * n + [(0,)])
        o = a.M.objs[t.obj]
        o['base'] += al
        o['loose'] = (-8, n + 9)
        a.run([t], lambda st, r: same(st, r, N(r.w, n)))


def compare_(ctx, mod, n, chars):
    """texts that are equal, and texts that differ first at j"""
    for j in range(n + 2):
        for x in [None] if j == n + 1 else [0] if j == n else chars:
            a = Case(ctx, mod, 'simd_strcmp', 'text of %d and one %s' % (n, 'equal to it' if x is None else 'that differs at %d' % j))
            p = a.text([range(1, 256) if i != j else (x,) for i in range(n)] + [(0,)])
            a.M.objs[p.obj]['loose'] = (-8, n + 9)

            def byte(st, i):
                name = 's%d' % i if i < j else 'd%d' % i if i == j else 't%d' % i
                a.M.var(st, name, [q for q in range(256) if q != x] if i == j else range(256))
                return norm(st, N(8, 0, {name: st.vals[name]}))
            q = Ptr(a.M.obj('the other text', n + 1, byte, loose=(-8, n + 9)), N(64, 0))

            def judge(st, r):
                r = norm(st, r)
                zero = const(compare(st, 'eq', r, N(r.w, 0)))
                if zero is None:
                    return 'the answer may be zero or not'
                if zero != (x is None):
                    return 'the answer is %s' % ('zero' if zero else 'not zero')
                for less in (True, False) if x is not None else ():
                    y = st.clone()
                    k = 'd%d' % j
                    y.allow[k] = tuple(i for i in st.allow[k] if (x < st.vals[k][i]) == less)
                    if y.allow[k]:
                        g = srange(y, norm(y, r))
                        if g is None or not (g[1] < 0 if less else g[0] > 0):
                            return 'the sign of the answer is not that of the first difference'
            a.run([p, q], judge)


def words(ctx, mod, g):
    """the questions about one word"""
    for c in range(g, 256, 8):
        a = Case(ctx, mod, 'hasbyte', 'any word and byte %d' % c)
        x = N(64, 0)
        for i in range(8):
            T = a.M.var(a.st, 's%d' % i, range(256))
            x = add(a.st, x, N(64, 0, {'s%d' % i: tuple(q << 8 * i for q in T)}))

        def judge(st, r, c=c):
            r = norm(st, r)
            k = const(r)
            if k is None:
                if len(r.t) != 1 or next(iter(r.t)).__class__ is tuple:
                    return 'the answer is not known'
                (v, T), = r.t.items()
                for out in {T[i] for i in st.dom(v)}:
                    x = st.clone()
                    x.allow[v] = tuple(i for i in st.dom(v) if T[i] == out)
                    e = judge(x, r)
                    if e:
                        return e
                return
            if k and not any(may(st, i) == {c} for i in range(8)):
                return 'answers yes, where there may be none'
            if not k and any(c in may(st, i) for i in range(8)):
                return 'answers no, where there may be one'
        a.run([x, N(8, c)], judge)
        if c == 0:
            a.fn = 'haszero'
            a.run([x], judge)
    for k in range(g, 65, 8):
        for fn in ('countr_zero', 'countr_index', 'countl_zero'):
            if k == 64 and fn != 'countr_index':
                continue
            a = Case(ctx, mod, fn, 'words with %s bit %d' % ('highest' if fn == 'countl_zero' else 'lowest', k))
            x = N(64, 1 << k if k < 64 else 0)
            for i in range(k) if fn == 'countl_zero' else range(k + 1, 64):
                a.M.var(a.st, 'b%d' % i, (0, 1))
                x = add(a.st, x, N(64, 0, {'b%d' % i: (0, 1 << i)}))
            want = 63 - k if fn == 'countl_zero' else k + (fn == 'countr_index') if k < 64 else 0
            a.run([x], lambda st, r: same(st, r, N(r.w, want)))
    for c in range(g, 256, 8):
        a = Case(ctx, mod, 'extend', 'byte %d' % c)
        a.run([N(8, c)], lambda st, r: same(st, r, N(r.w, c * 0x0101010101010101)))


def run(ctx):
    mod = ctx.mod()
    ctx.need(mod, 'simd_strlen', 'simd_strcmp', 'hasbyte', 'haszero', 'countr_zero', 'countl_zero', 'countr_index', 'extend', *SEARCH)
    th = ctx.tier == 'thorough'
    some = [0, 1, 46, 97, 127, 128, 129, 255]
    jobs = []
    for g in range(8):
        jobs.append(lambda g=g: words(ctx, mod, g))
    for al in range(8):
        jobs.append(lambda al=al: lengths(ctx, mod, al, 48 if th else 26))
    for g in range(8):
        jobs.append(lambda g=g: [search(ctx, mod, 'memchr8', 8, c) for c in range(g, 256, 8)])
    jobs.append(lambda: [search(ctx, mod, 'memchr8k', 8, c, k) for k in range(8) for c in some])
    for fn in ('simd_memchr', 'simd_memrchr'):
        for g in range(8):
            jobs.append(lambda fn=fn, g=g: [search(ctx, mod, fn, n, c) for n in range(27 if th else 18) for c in (range(g, 256, 8) if th else some[g:g + 1])])
    for fn in ('pmemchr', 'pmemrchr'):
        jobs.append(lambda fn=fn: [search(ctx, mod, fn, n, c, high=128) for n in range(18) for c in (32, 46, 97)])
    for fn in ('memchrk', 'memrchrk', 'pmemchrk', 'pmemrchrk'):
        jobs.append(lambda fn=fn: [search(ctx, mod, fn, n, c, k, 128 if fn[0] == 'p' else 256) for n in range(1, 18) for k in (range(n) if th else {0, n // 2, n - 1}) for c in ((46, 97) if fn[0] == 'p' else (46, 200))])
    for n in range(41 if th else 27):
        jobs.append(lambda n=n: compare_(ctx, mod, n, [1, 45, 97, 127, 128, 255] if n < 18 or th else [45, 200]))
    narrow.check(ctx, mod, narrow.reach(mod, ('simd_strlen', 'simd_strcmp') + SEARCH))
    ctx.assumptions.append('a word that holds the end of a text may be read whole, as the routines are made to do')
    ctx.extra['bound'] = 'texts up to a few words long: a longer one goes through the same round more often'
    ctx.parallel(jobs, enough=60)
