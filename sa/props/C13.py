from core import *
import trace, life, text, random

EXPLANATION = ('Clients packing arguments are abstractly interpreted with symbolic argument values: what is read back at an index must be '
               'the very symbol packed there, for every format letter, for generated mixed formats of many lengths and, at every index '
               'outside the set, the empty value. For a format of unknown content and length every access to the argument list, to the '
               'format and to the storage obtained must lie inside it, and slot i must be filled from argument i (affine loop invariants).')

FIELD = {'l': ('long', 's_long'), 'z': ('size_t', 'max_size'), 'u': ('unsigned', 'u_int'), 'i': ('int', 'integer'), 'd': ('int64_t', 'long_long'),
         's': ('char *', 'char_ptr'), 'a': ('void *', 'array'), 'x': ('void *', 'func'), 'f': ('double', 'precision'), 'p': ('void *', 'object')}


def num(n, lo=None, hi=None):
    return arg(n, ptr=False, lo=lo, hi=hi)


def generated(rng, k, n):
    ls = [rng.choice(list(FIELD)) for _ in range(n)]
    ps = ', '.join('%s a%d' % (FIELD[c][0], i) for i, c in enumerate(ls))
    body = 'args_t p = args_for("%s"%s);\n' % (''.join(ls), ''.join(', a%d' % i for i in range(n)))
    order = list(range(n))
    rng.shuffle(order)
    for i in order:
        body += '  %s(%sget_args(p, %d).%s);\n' % ('ev_dbl' if ls[i] == 'f' else 'ev_int', '' if ls[i] == 'f' else '(long)', i, FIELD[ls[i]][1])
    body += '  ev_int(get_args(p, %d).s_long);\n' % n
    kind = {'l': 'w', 'z': 'w', 'd': 'w', 'u': 'u', 'i': 'i', 'f': 'f'}
    nm = ['%s%d' % (kind.get(c, 'p'), i) for i, c in enumerate(ls)]
    rg = {'w': {}, 'f': {}, 'u': dict(lo=0, hi=2**31 - 1), 'i': dict(lo=-2**31, hi=2**31 - 1)}
    args = [num(x, **rg[x[0]]) if x[0] in rg else arg(x, lo=1) for x in nm]
    return 'void wr_gen_%d(%s) {\n  %s}\n' % (k, ps, body), ''.join(ls), args, tuple(nm[i] for i in order) + (0, 'return')


def run(ctx):
    rng = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1))
    sizes = list(range(1, 25)) + ([32, 48, 64, 96] if ctx.thorough else [40])
    gen = [generated(rng, k, n) for k, n in enumerate(sizes)]
    head = ('#include "raii.h"\nvoid ev_int(long n); void ev_dbl(double d);\n')
    mod = ctx.mod('w_args.c', 'w_defer.c', text=head + ''.join(g[0] for g in gen))
    ctx.need(mod, 'raii_args_ex', 'args_in', 'raii_get_args', 'args_for', 'raii_args_for', 'get_arg', 'raii_value')
    R = 'return'
    scope0 = {}

    def t(w, x, *ar, bounds=True, models=None, setup=None, un=20, **k):
        md = dict(trace.MODELS)
        md.update(text.MODELS)
        md['ev_dbl'] = trace.m_int
        md.update(models or {})
        a = ctx.an(mod, models=md, unroll=un)
        life.attach(a, only=True)
        life.nulls(a)
        cnt = [0]
        if bounds:
            life.bounds(a, count=cnt)
        a.start(w, list(ar), setup=setup)
        rule = 'values of ' + w.rstrip('0123456789')
        ctx.pull(a, rule)
        tr = trace.traces(ctx, a)
        for y, es in sorted(tr.items(), key=str):
            ctx.ok(rule, y in x, '%s:%s' % (w, '.'.join(map(str, y))), '%s reads back %s, expected %s' % (w, ' '.join(map(str, y)), sorted(x, key=str)), es[0].end[1], es[0].path())
        for y in x:
            ctx.ok(rule, y in tr, '%s:missing' % w, '%s never reads back %s' % (w, ' '.join(map(str, y))))
        ctx.count('accesses inside their object', cnt[0])
        return a
    V1 = {('v', R)}
    for c in 'lz':
        t('wr_' + c, V1, num('v'))
    t('wr_d', V1, num('v'))
    t('wr_u', V1, num('v', 0, 2**31 - 1))
    t('wr_i', V1, num('v', -2**31, 2**31 - 1))
    t('wr_c', {(1, R)})
    for c in ('s', 'a', 'x', 'p', 'other'):
        t('wr_' + c, V1, arg('v', lo=1))
    t('wr_f', V1, num('v'))
    t('wr_none', {(0, 0, R)}, num('i', -2**31, 2**31 - 2))
    t('wr_all', {('l', 'z', 'u', 'i', 'd', 107, 's', 'a', 'x', 'f', 'q', 0, 0, R)}, *[num(x, **({'u': dict(lo=0, hi=2**31 - 1), 'i': dict(lo=-2**31, hi=2**31 - 1)}.get(x, {}))) for x in 'lzuid'],
      arg('s', lo=1), arg('a', lo=1), arg('x', lo=1), num('f'), arg('q', lo=1))
    t('wr_two', {('b', 'c', 'a', 'b', 0, R)}, *[arg(x, lo=1) for x in 'abc'])
    r = arg('r', lo=1)
    ld = show(V(L.sym(('ld', single(r), ZERO, 8), True)))
    t('wr_arg', {(ld, ld, R)}, r, bounds=False)
    t('wr_arg_none', {(0, 0, R)})
    import defer
    lay = defer.Layout(ctx, mod)
    S = lay.scope
    for lo, hi in ((2, 2**31 - 1), (-2**31, -1)):
        for start in lay.starts:
            t('wr_beyond', {(0, R)}, S, arg('a', lo=1), arg('b', lo=1), num('index%d' % hi, lo, hi), setup=start, models={'raii_init': lambda an, st, ins, x: [(st, S)]})
    t('wr_inside', {('a', 'b', R), ('b', 'a', R)}, S, arg('a', lo=1), arg('b', lo=1), setup=lay.empty, models={'raii_init': lambda an, st, ins, x: [(st, S)]})
    for k, (src, ls, args, exp) in enumerate(gen):
        t('wr_gen_%d' % k, {exp}, *args, un=128)
        ctx.sample('format %s read back as %s' % (ls, ' '.join(map(str, exp[:12]))))

    # any format: len(desc) arguments are given
    d = L.sym(('arg', 'desc'), True, lo=1)
    n = V(L.sym(('len', V(d)), lo=0, hi=text.MAXLEN))
    import models as M

    def vastart(an, st, ins, a):
        r = M.m_vastart(an, st, ins, a)
        for y, i in an.regions.items():
            if i['kind'] == 'va':
                i['size'] = scale(n, 8)
        return r
    md = dict(trace.MODELS)
    md.update(text.MODELS)
    md['llvm.va_start.p0'] = md['llvm.va_start'] = vastart
    a = ctx.an(mod, models=md, unroll=1)
    a.regions[d] = dict(kind='arg', name='the format', size=add(n, ONE), where='', init='lazy')
    cnt = [0]
    life.bounds(a, count=cnt)
    life.nulls(a)
    got = {}

    def ld(an, st, ins, base, off, size, v):
        if base is not None and an.regions.get(base, {}).get('kind') == 'va' and single(v) is not None:
            got[single(v)] = off

    def sto(an, st, ins, base, off, size, v):
        info = an.regions.get(base, {}) if base is not None else {}
        if info.get('kind') == 'heap' and single(v) in got and single(v) is not None:
            o = got[single(v)]
            ctx.ok('slot i is filled from argument i', st.eq0(sub(scale(st.norm(off), 8), scale(st.norm(o), stride))), 'slot:' + an.m.where(ins),
                   'the argument at offset %s of the list is stored at offset %s of the set' % (show(o), show(off)), an.m.where(ins), st.path())
    # size of one slot: how far apart the two values of a set of two are
    stride = slot(ctx, mod)
    a.hooks['load'].append(ld)
    a.hooks['store'].append(sto)
    a.start('wr_any', [arg('s', lo=1), V(d)])
    ctx.pull(a, 'any format')
    for e in ctx.ends(a):
        y = e.ghost.get('tr', ())
        ctx.ok('any format', e.end[0] == 'return' and (y == (show(n),) or y == (0,) and e.eq0(n)), 'any:%s' % (y,), 'a format of length n gives a set of %s arguments' % (y,), e.end[1], e.path())
    ctx.count('accesses inside their object', cnt[0])
    if not cnt[0]:
        raise Anchor('no access to storage of known size')


def slot(ctx, mod):
    a = ctx.an(mod, models={**trace.MODELS, **text.MODELS}, unroll=20)
    offs = {}

    def sto(an, st, ins, base, off, size, v):
        if base is not None and an.regions.get(base, {}).get('kind') == 'heap' and show(v) in ('a', 'b', 'c'):
            offs.setdefault(show(v), st.norm(off))
    a.hooks['store'].append(sto)
    a.start('wr_two', [arg(x, lo=1) for x in 'abc'])
    if 'a' not in offs or 'b' not in offs or not is_const(sub(offs['b'], offs['a'])):
        raise Anchor('packed values are not found in storage')
    return sub(offs['b'], offs['a'])[0]
