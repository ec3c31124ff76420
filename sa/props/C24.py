from core import *
import functools
import defer
import narrow
import strcheck
from strcheck import Job

EXPLANATION = ('Bounds and shape analysis by abstract interpretation of the text functions, with texts of any length and any content. The places where a '
               'pattern occurs are unknown, their number is a constant of the text and the pattern, and relations between positions, matches left and '
               'bytes written are found as affine invariants of the loops. Every access must stay inside its block; what is returned must end inside '
               'its block, at exactly the length that the arguments say, and a list must hold one piece per match and one more, then a null pointer.')


def total(*names):
    """the result is exactly as long as these texts together"""
    def f(T, an, st, ins, kind, x):
        n = ZERO
        for k in names:
            n = add(n, length(T, k))
        return exact(T, st, ins, x[0], n)
    return f


def length(T, name):
    for y, n in T.args.items():
        if T.an.regions[y]['name'] == 'string ' + name:
            return n
    return ZERO


def block(T, name):
    for y in T.args:
        if T.an.regions[y]['name'] == 'string ' + name:
            return y


def exact(T, st, ins, p, n):
    if st.eq0(p):
        return [(False, 'no-result', 'a null pointer is returned')]
    b, o, z = T.end(st, p, ins, 'the result')
    if z is None:
        return []
    n = st.norm(n)
    ok = st.eq0(st.norm(sub(sub(z, o), n)))
    return [(ok, 'length', 'the result is terminated after %s bytes, not %s' % (show(st.norm(sub(z, o))), show(n)))]


def replaced(d, r):
    def f(T, an, st, ins, kind, x):
        D, S = length(T, d), block(T, 's')
        C = st.norm(T.count(S, block(T, d)))
        if st.eq0(x[0]):
            return [(st.eq0(C) or st.eq0(st.norm(D)) or any(st.eq0(V(block(T, y))) for y in ('s', d, r)), 'no-result', 'a null pointer is returned although the text holds the pattern')]
        n = add(length(T, 's'), sub(st.norm(A.evalop(st, 'mul', C, length(T, r), 64)), st.norm(A.evalop(st, 'mul', C, D, 64))))
        return exact(T, st, ins, x[0], n)
    return f


def pieces(d):
    """a list of as many pieces as there are matches, and one more"""
    def f(T, an, st, ins, kind, x):
        p = x[0]
        if st.eq0(p):
            return [(st.eq0(st.norm(length(T, 's'))), 'no-result', 'no list is returned for a text that is not empty')]
        b, o = T.split(st, p)
        if b is None or not st.eq0(o):
            return [(False, 'list', 'the list is %s' % show(p))]
        S = block(T, 's')
        if kind == 'm_text':
            return []
        out = []
        keys = []
        k = block(T, d) if d is not None else None
        if k is not None and not st.eq0(st.norm(T.args[k])):
            keys.append(k)
        if k is None or not st.ge0(sub(st.norm(T.args[k]), ONE)):
            keys.append(b' ')
        n = x[1]
        i = [y for y in keys if st.eq0(st.norm(sub(sub(n, T.count(S, y)), ONE)))]
        out.append((bool(i), 'count', 'the number of pieces is %s, not %s' % (show(n), ' or '.join(show(add(st.norm(T.count(S, y)), ONE)) for y in keys))))
        s = st.norm(st.ghost.get('#slots%d' % b, ZERO))
        out.append((st.eq0(st.norm(sub(s, scale(n, 8)))), 'list', 'the list holds %s bytes of pointers to pieces, each in order, not 8 times %s' % (show(s), show(n))))
        v = an.load(st, b, scale(n, 8), 8, True)
        out.append((v[0] != 'agg' and st.eq0(v), 'list-end', 'behind the last piece the list holds %s' % show(v)))
        for y in i:
            c = st.norm(st.ghost.get('#cuts%d_%s' % (b, T.ids.get(y)), ZERO))
            out.append((st.eq0(st.norm(sub(sub(n, ONE), c))), 'cut', '%s of %s pieces are cut off at the next match' % (show(c), show(sub(n, ONE)))))
        return out
    return f


def enough(T, an, st, ins, kind, x):
    if kind == 'm_text':
        return []
    b, o = T.split(st, x[0])
    info = an.regions.get(b)
    if info is None or info.get('size') is None:
        return [(False, 'no-result', 'the copy is %s' % show(x[0]))]
    n = sub(st.norm(x[1]), ONE)
    v = an.load(st, b, st.norm(add(o, n)), 1)
    return [(st.ge0(st.norm(sub(sub(info['size'], o), x[1]))), 'size', 'the copy has %s bytes for %s and a terminator' % (show(info['size']), show(n))),
            (v[0] != 'agg' and st.eq0(v), 'length', 'the copy is followed by %s' % show(v))]


def jobs(ctx):
    N = lambda T: V(L.sym(('arg', 'n'), lo=0, hi=strcheck.text.MAXLEN))
    def memory(T):
        return T.raw('to', N(T))

    def whole(T):
        return T.raw('to', T.args[block(T, 's')])

    def source(T):
        return T.raw('from', N(T))

    def part(T, an, st):
        st.assume_ge0(st.norm(sub(length(T, 's'), N(T))))
        st.assume_ge0(st.norm(sub(N(T), ONE)))
    return [Job('wb_' + c, a, w, **k) for c, a, w, k in [
        ('split', ['s', 'd'], pieces('d'), {}),
        ('split_only', ['s', 'd'], pieces('d'), {}),
        ('split_nocount', ['s', 'd'], pieces('d'), {}),
        ('split_default', ['s'], pieces(None), {}),
        ('split_empty', ['s'], pieces(None), {}),
        ('split_thread', ['s', 'd'], pieces('d'), {}),
        ('replace', ['s', 'd', 'r'], replaced('d', 'r'), {}),
        ('replace_only', ['s', 'd', 'r'], replaced('d', 'r'), {}),
        ('replace_thread', ['s', 'd', 'r'], replaced('d', 'r'), {}),
        ('replace_same', ['s', 'd'], replaced('d', 'd'), {}),
        ('replace_self', ['s'], replaced('s', 's'), {}),
        ('replace_null', ['s'], lambda T, an, st, ins, kind, x: [(st.eq0(x[0]), 'result', 'something is returned for a missing argument')], {}),
        ('concat0', [], total(), {}),
        ('concat1', ['a'], total('a'), {}),
        ('concat2', ['a', 'b'], total('a', 'b'), {}),
        ('concat3', ['a', 'b', 'c'], total('a', 'b', 'c'), {}),
        ('concat4', ['a', 'b', 'c'], total('a', 'b', 'c', 'a'), {}),
        ('concat6', ['a', 'b', 'c'], total('c', 'a', 'b', 'c', 'a'), {}),
        ('memdup', [source, N], enough, {}),
        ('copy', [memory, 's', N], None, dict(setup=part)),
        ('copy_all', [lambda T: (T.arg('s'), whole(T))[1], 's'], None, {}),
        ('pos', ['s', 'd'], None, dict(plain=('strpos',))),
        ('in', ['s', 'd'], None, dict(plain=('strpos',))),
        ('empty', ['s'], None, {}),
    ]]


def run(ctx):
    A.DEPTH = 3
    mod = ctx.mod('w_str.c', 'w_defer.c')
    ctx.need(mod, 'str_split_ex', 'str_concat_ex', 'str_replace_ex', 'str_copy', 'str_memdup_ex', 'strpos', 'is_str_in', 'is_str_empty')
    lay = defer.Layout(ctx, mod)
    ctx.assumptions.append('texts are at most %d bytes long, and blocks of memory do not wrap around the end of the address space' % strcheck.text.MAXLEN)
    narrow.check(ctx, mod, narrow.reach(mod, ['str_split_ex', 'str_concat_ex', 'str_replace_ex', 'str_copy', 'str_memdup_ex']))
    ctx.parallel([functools.partial(strcheck.run, ctx, mod, lay, j) for j in jobs(ctx)], enough=100)
