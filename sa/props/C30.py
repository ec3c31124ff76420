from core import *
from digits import *
from lanes import split
import narrow

EXPLANATION = ('Splitting, joining, replacing, copying and searching are abstractly interpreted on texts whose characters are unknowns, for every short '
               'length and separators or patterns of every shape of repetition. On every path the places of the separators follow from what the '
               'characters may still be; each character of each result must be the character called for, and each piece must end.')

ONE = range(1, 256)


def shapes(n, used=0):
    """the ways in which n characters may be equal to one another"""
    if n == 0:
        return ['']
    return [chr(97 + k) + r for k in range(used + 1) for r in shapes(n - 1, max(used, k + 1))]


PATTERNS = tuple(p for n in range(1, 5) for p in shapes(n))


def may(st, i):
    return {st.vals['s%d' % i][j] for j in st.allow['s%d' % i]}


def unknown(st, name):
    return N(8, 0, {name: st.vals[name]})


def matches(st, n, pat, disjoint=True):
    """where the pattern occurs in the text of n characters, from the left and without overlap; None when that is open"""
    out, i = [], 0
    while i + len(pat) <= n:
        ms = [may(st, i + j) for j in range(len(pat))]
        if all(m == {p} for m, p in zip(ms, pat)):
            out.append(i)
            i += len(pat) if disjoint else 1
        elif any(p not in m for m, p in zip(ms, pat)):
            i += 1
        else:
            return None
    return out


def alloc(zeroed=True):
    def model(M, st, ins, a):
        n = 1
        for x in a:
            n *= M.number(st, x)
        return [(st, Ptr(M.obj('the result', n, (lambda st, i: N(8, 0)) if zeroed else None), N(64, 0)))]
    return model


def strstr(M, st, ins, a):
    """the first place of the pattern, deciding one character after another"""
    t, p = (x if isinstance(x, Ptr) else M.pointer(M.number(st, x)) for x in a)
    if t is None or p is None:
        raise Stuck('text or pattern is NULL')
    pat = []
    while True:
        c = M.number(st, M.load(st, ins, add_(p, len(pat)), 1))
        if c == 0:
            break
        pat.append(c)
    i = 0
    while True:
        ok = True
        for j, c in enumerate(pat):
            x = norm(st, M.load(st, ins, add_(t, i + j), 1))
            if const(x) is None:
                r = compare(st, 'eq', x, N(8, c))
                if const(r) is None:
                    refine1(st, r)
                if const(r):
                    continue
                z = compare(st, 'eq', x, N(8, 0))
                if const(z) is None:
                    refine1(st, z)
                ok = False
                break
            if const(x) != c:
                ok = False
                break
        if ok:
            return [(st, add_(t, i))]
        x = norm(st, M.load(st, ins, add_(t, i), 1))
        z = compare(st, 'eq', x, N(8, 0))
        if const(z) is None:
            refine1(st, z)
        if const(z):
            return [(st, N(64, 0))]
        i += 1


def add_(p, k):
    return Ptr(p.obj, N(64, p.off.c + k, p.off.t))


class Text(Case):
    def __init__(s, *a):
        Case.__init__(s, *a)
        M = s.M

        def full(M, st, ins, a):
            return alloc()(M, st, ins, a[1:3])
        M.models.update(calloc_full=full, try_calloc=alloc(), calloc=alloc(), strstr=strstr,
                        malloc_full=lambda M, st, ins, a: alloc(False)(M, st, ins, a[1:2]), try_malloc=alloc(False), malloc=alloc(False))

    def fixed(s, what, text):
        """a text that is known"""
        d = bytes(text, 'latin1') + b'\0'
        return Ptr(s.M.obj(what, len(d), lambda st, i: N(8, d[i]) if 0 <= i < len(d) else top(8), const=True, loose=(-8, len(d) + 8)), N(64, 0))

    def unknown(s, n, name='s', what='the text', chars=ONE, end=True):
        M = s.M
        for i in range(n):
            M.var(s.st, name + str(i), chars)

        def byte(st, i):
            if 0 <= i < n:
                return norm(st, unknown(st, name + str(i)))
            return N(8, 0) if i == n and end else top(8)
        return Ptr(M.obj(what, n + end, byte, const=True, loose=(-8, n + 9)), N(64, 0))

    def block(s, size, what='the result'):
        return Ptr(s.M.obj(what, size), N(64, 0))

    def is_text(s, st, p, want, end=True):
        """None when the text at p is these characters (numbers or names of unknowns)"""
        if not isinstance(p, Ptr):
            return 'there is no text'
        for i, c in enumerate(list(want) + ([0] if end else [])):
            x = s.M.load(st, None, add_(p, i), 1)
            e = same(st, x, unknown(st, c) if isinstance(c, str) else N(8, c))
            if e:
                return 'character %d %s' % (i, e)


def show(t):
    return 'nothing' if t is None else repr(t)


def splits(ctx, mod, n, delim):
    c = Text(ctx, mod, 'str_split_ex', 'text of %d at %s' % (n, show(delim)))
    t = c.unknown(n)
    d = N(64, 0) if delim is None else c.fixed('the separator', delim)
    cnt = c.block(4, 'the count')
    pat = [ord(x) for x in delim or ' ']

    def judge(st, r):
        if n == 0:
            return None if isinstance(r, N) and const(r) == 0 else 'an empty text is split'
        w = matches(st, n, pat)
        if w is None:
            return 'answers without knowing where the separators are'
        at = [0] + [i + len(pat) for i in w]
        to = w + [n]
        e = same(st, c.M.load(st, None, cnt, 4), N(32, len(at)))
        if e:
            return 'the count ' + e
        if not isinstance(r, Ptr):
            return 'there is no list'
        for k, (a, b) in enumerate(zip(at, to)):
            p = c.M.load(st, None, add_(r, 8 * k), 8)
            e = c.is_text(st, p, ['s%d' % i for i in range(a, b)])
            if e:
                return 'piece %d: %s' % (k, e)
        p = c.M.load(st, None, add_(r, 8 * len(at)), 8)
        return None if isinstance(p, N) and const(norm(st, p)) == 0 else 'the list does not end'
    c.run([N(64, 0), t, d, cnt], judge)


def joins(ctx, mod, ns):
    c = Text(ctx, mod, 'str_concat_ex', 'texts of %s' % (list(ns),))
    ts = [c.unknown(n, 'p%dc' % k, 'text %d' % k) for k, n in enumerate(ns)]
    area = c.block(8 * len(ns) + 8, 'the arguments')
    va = c.block(24, 'the list of arguments')
    M, st = c.M, c.st
    for k, t in enumerate(ts):
        M.store(st, None, add_(area, 8 * k), 8, t)
    M.store(st, None, va, 4, N(32, 48))
    M.store(st, None, add_(va, 4), 4, N(32, 304))
    M.store(st, None, add_(va, 8), 8, area)
    M.store(st, None, add_(va, 16), 8, N(64, 0))

    def copy(M, st, ins, a):
        for k, z in ((0, 4), (4, 4), (8, 8), (16, 8)):
            M.store(st, ins, add_(a[0], k), z, M.load(st, ins, add_(a[1], k), z))
        return [(st, None)]
    for k in ('llvm.va_copy', 'llvm.va_copy.p0'):
        M.models[k] = copy
    for k in ('llvm.va_end', 'llvm.va_end.p0'):
        M.models[k] = lambda M, st, ins, a: [(st, None)]
    want = ['p%dc%d' % (k, i) for k, n in enumerate(ns) for i in range(n)]
    c.run([N(64, 0), N(32, len(ns)), va], lambda st, r: c.is_text(st, r, want))


def replaces(ctx, mod, n, pat, m):
    c = Text(ctx, mod, 'str_replace_ex', '%s in a text of %d by %d characters' % (show(pat), n, m))
    t, d, w = c.unknown(n), c.fixed('the pattern', pat), c.unknown(m, 'r', 'the replacement')
    p = [ord(x) for x in pat]

    def judge(st, r):
        at = matches(st, n, p)
        if at is None:
            return 'answers without knowing where the pattern is'
        if not at:
            return None if isinstance(r, N) and const(norm(st, r)) == 0 else 'there is a text though nothing is replaced'
        want, i = [], 0
        while i < n:
            if i in at:
                want += ['r%d' % k for k in range(m)]
                i += len(p)
            else:
                want.append('s%d' % i)
                i += 1
        return c.is_text(st, r, want)
    c.run([N(64, 0), t, d, w], judge)


def finds(ctx, mod, n, pat):
    p = [ord(x) for x in pat]
    for fn in ('strpos', 'is_str_in'):
        c = Text(ctx, mod, fn, '%s in a text of %d' % (show(pat), n))

        def judge(st, r):
            if not p:
                k = 0
            else:
                k = -1
                for i in range(n - len(p) + 1):
                    ms = [may(st, i + j) for j in range(len(p))]
                    if all(m == {q} for m, q in zip(ms, p)):
                        k = i
                        break
                    if not any(q not in m for m, q in zip(ms, p)):
                        return 'passes over place %d, where the pattern may be' % i
            return same(st, r, N(r.w, k if fn == 'strpos' else int(k >= 0)))
        c.run([c.unknown(n), c.fixed('the pattern', pat)], judge)


def copies(ctx, mod, n):
    c = Text(ctx, mod, 'str_copy', 'text of %d' % n)
    b = c.block(n + 1)
    names = ['s%d' % i for i in range(n)]

    def judge(st, r):
        if not isinstance(r, Ptr) or r.obj != b.obj:
            return 'the place copied to is not what is returned'
        return c.is_text(st, r, names, False)
    for z in {0, n}:
        c.run([b, c.unknown(n), N(64, z)], judge)
    d = Text(ctx, mod, 'str_memdup_ex', '%d bytes' % n)
    d.run([d.block(8, 'a scope'), d.unknown(n, chars=range(256), end=False), N(64, n)], lambda st, r: d.is_text(st, r, names))


def equals(ctx, mod, n, m):
    """two texts that are the same up to where they end, nothing and a text, a text and itself"""
    def answer(k):
        return lambda st, r: same(st, r, N(r.w, int(k)))
    if m is None:
        for a in (0, 1):
            c = Text(ctx, mod, 'is_str_eq', 'a text of %d and none' % n)
            x = [c.unknown(n), N(64, 0)]
            c.run(x[::-1] if a else x, answer(False))
        c = Text(ctx, mod, 'is_str_eq', 'a text of %d and itself' % n)
        x = c.unknown(n)
        c.run([x, x], answer(True))
        c = Text(ctx, mod, 'is_str_empty', 'a text of %d' % n)
        c.run([c.unknown(n)], answer(n == 0))
    elif m < 0:
        c = Text(ctx, mod, 'is_str_eq', 'no text and no text')
        c.run([N(64, 0), N(64, 0)], answer(False))
        c = Text(ctx, mod, 'is_str_empty', 'no text')
        c.run([N(64, 0)], answer(False))
    else:
        t = ''.join(chr(97 + i % 26) for i in range(max(n, m)))
        c = Text(ctx, mod, 'is_str_eq', 'a text of %d and %d of its characters' % (n, m) if m < n else 'texts of %d and %d' % (n, m))
        c.run([c.fixed('the text', t[:n]), c.fixed('the other', t[:m])], answer(n == m))


def run(ctx):
    mod = ctx.mod()
    ctx.need(mod, 'str_split_ex', 'str_concat_ex', 'str_replace_ex', 'strpos', 'is_str_in', 'str_copy', 'str_memdup_ex')
    th = ctx.tier == 'thorough'
    most = 8 if th else 6
    jobs = []
    for d in (None, '') + PATTERNS:
        jobs.append(lambda d=d: [splits(ctx, mod, n, d) for n in range(most + 1)])
    for d in PATTERNS:
        jobs.append(lambda d=d: [replaces(ctx, mod, n, d, m) for n in range(most) for m in (range(4) if len(d) < 4 else (0, 3))])
        jobs.append(lambda d=d: [finds(ctx, mod, n, d) for n in range(most + 2)])
    jobs.append(lambda: [finds(ctx, mod, n, '') for n in range(4)])
    jobs.append(lambda: [joins(ctx, mod, ns) for k in range(4 if not th else 5) for ns in itertools.product((0, 1, 2, 9) if k < 3 else (0, 1, 9) if k == 3 else (0, 1, 2), repeat=k)])
    jobs.append(lambda: [copies(ctx, mod, n) for n in range(20)])
    jobs.append(lambda: [equals(ctx, mod, 0, -1)] + [equals(ctx, mod, n, None) for n in range(18)])
    jobs.append(lambda: [equals(ctx, mod, n, m) for n in range(18) for m in range(18)])
    narrow.check(ctx, mod, narrow.reach(mod, ['str_split_ex', 'str_concat_ex', 'str_replace_ex', 'str_copy', 'str_memdup_ex', 'strpos']))
    ctx.assumptions.append('calloc_full and try_calloc give zeroed memory of the size asked for (C03, C04); strstr is that of the C library')
    ctx.extra['bound'] = 'texts of up to %d characters of any content' % most
    ctx.parallel(jobs, enough=60)
