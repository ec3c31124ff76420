from core import *
import defer, life

EXPLANATION = ('Ownership analysis by abstract interpretation: clients request memory through every scope-bound entry point from an arbitrary '
               'scope, then end the scope. On every path the block handed out is the argument of exactly one registered release, with the '
               'release function asked for, before the entries registered earlier; every heap block obtained on the path is released once, '
               'none is used afterwards, and the block is at least as large as requested.')


def run(ctx):
    mod = ctx.mod('w_alloc.c', 'w_defer.c')
    ctx.need(mod, 'malloc_full', 'calloc_full', 'malloc_default', 'calloc_default', 'malloc_by', 'calloc_by', 'raii_memdup', 'raii_deferred_free')
    lay = defer.Layout(ctx, mod)
    S = lay.scope
    n, m, c = arg('size', False, 0, 1 << 31), arg('size2', False, 0, 1 << 31), arg('count', False, 0, 1 << 15)
    f, g, e = arg('f', lo=1), arg('g', lo=1), arg('e')

    def ptr(an, st, ins, a):
        st.ghost['#ptr%d' % st.ghost.get('np', 0)] = a[0]
        st.ghost['np'] = st.ghost.get('np', 0) + 1
        return [(st, None)]

    def rel(an, st, ins, a):
        return [(st, None)]

    def strlen(an, st, ins, a):
        return [(st, V(L.sym(('len', st.norm(a[0])), lo=0, hi=1 << 31)))]

    def strstr(an, st, ins, a):
        x = st.clone()
        return [(st, add(st.norm(a[0]), V(L.fresh('found', False, lo=0, hi=1 << 31)))), (x, ZERO)]

    def cmpf(an, st, ins, a):
        return [(st, V(L.fresh('cmp')))]

    def one(client, args, expect, size=None, oom=0):
        rule = 'ownership in ' + client
        for start in lay.starts:
            a = ctx.an(mod, models={'m_ptr': ptr, 'm_rel': rel, 'raii_local': lambda an, st, ins, x: [(st, S)],
                                    'raii_init': lambda an, st, ins, x: [(st, S)], 'simd_strlen': strlen, 'strstr': strstr,
                                    'strlen': strlen}, unroll=5 if expect is not None else 2, oom=oom)
            life.attach(a, only=True)
            if expect is not None:
                life.bounds(a, kinds=('heap', 'stack'))
            if expect is not None:
                defer.calls(lay, a, lambda st: [(x, y if not isinstance(y, int) else st.norm(st.ghost.get('#ptr%d' % y, ZERO))) for x, y in expect])
            a.start(client, [S] + list(args), setup=start)
            ctx.pull(a, rule)
            done = 0
            for st in ctx.ends(a):
                if st.end[0] != 'return':
                    ctx.bad(rule, '%s:%s' % (client, st.end[0]), '%s ends with %s' % (client, st.end), st.end[1], st.path())
                    continue
                done += 1
                lk = [y for y in life.leaks(a, st)]
                for y in life.blocks(a, st):
                    released = y in st.freed
                    p = [k for k, v in st.ghost.items() if k.startswith('#ptr') and single(st.norm(v)) == y]
                    if p and expect is not None:
                        ctx.ok(rule, not released, 'released-behind:' + client, 'the block is released by the library itself, not by the function it was requested with', life.where(a, y), st.path())
                        continue
                    ctx.ok(rule, released, 'leak:' + life.where(a, y), 'a block obtained in %s is never released' % client, life.where(a, y), st.path())
                for k, v in st.ghost.items():
                    if not k.startswith('#ptr'):
                        continue
                    v = st.norm(v)
                    if is_const(v) and v[0] == 0:
                        ctx.ok(rule, size is None, 'null:' + client, 'no memory was returned although nothing failed', st.end[1], st.path())
                        continue
                    info = a.regions.get(single(v)) if single(v) is not None else None
                    ok = info is not None and info['kind'] == 'heap'
                    ctx.ok(rule, ok, 'heap:' + client, 'the pointer returned, %s, is not a block obtained for this request' % show(v), st.end[1], st.path())
                    if ok and size is not None:
                        want = st.norm(size[int(k[4:])])
                        ctx.ok('size', st.ge0(sub(st.norm(info['size']), want)), 'size:' + client, 'the block has %s bytes, %s were requested' % (
                            show(info['size']), show(want)), info['where'], st.path())
                if expect is not None:
                    k = st.norm(st.ghost.get('#calls', ZERO))
                    want = add(st.norm(lay.n), K(len(expect)))
                    ctx.ok(rule, st.eq0(sub(k, want)), 'count:' + client, '%s registered releases ran, expected %s' % (show(k), show(want)), st.end[1], st.path())
            ctx.ok(rule, done > 0, 'none:' + client, 'no path of the client completes')
    cn = A.evalop(None, 'mul', c, n, 64)
    one('w_malloc_full', (n, f), [(f, 0)], [n])
    one('w_calloc_full', (c, n, f), [(f, 0)], [cn])
    one('w_two', (n, m, f, g), [(g, 1), (f, 0)], [n, m])
    one('w_mixed', (n, f, g, e), [(g, e), (f, 0)], [n])
    one('w_ended', (n, f), [(f, 0)], [n])
    one('w_ended_two', (n, m, f, g), [(g, 1), (f, 0)], [n, m])
    one('w_ended_arena', (n, f), [(f, 0)], [n])
    one('w_ended_thread', (n,), None, [n])
    one('w_malloc_default', (n,), None, [n])
    one('w_calloc_default', (c, n), None, [cn])
    one('w_malloc_by', (n,), None, [n])
    one('w_calloc_by', (c, n), None, [cn])
    one('w_twice', (n,), None, [n, n])
    s = arg('src', lo=1)
    one('w_memdup', (s, n), None, [n])
    one('w_memdup_ex', (s, n), None, [n])
    s2, s3 = arg('s2', lo=1), arg('s3', lo=1)

    def text(client, args):
        rule = 'ownership in ' + client
        for start in lay.starts:
            a = ctx.an(mod, models={'m_ptr': ptr, 'raii_local': lambda an, st, ins, x: [(st, S)], 'raii_init': lambda an, st, ins, x: [(st, S)],
                                    'simd_strlen': strlen, 'strstr': strstr, 'strlen': strlen, 'simd_strcmp': cmpf})
            life.attach(a, only=True)
            a.start(client, [S] + list(args), setup=start)
            ctx.pull(a, rule)
            done = 0
            for st in ctx.ends(a):
                if st.end[0] != 'return':
                    ctx.bad(rule, '%s:%s' % (client, st.end[0]), '%s ends with %s' % (client, st.end), st.end[1], st.path())
                    continue
                p = st.norm(st.ghost.get('#ptr0', ZERO))
                if is_const(p):
                    continue
                done += 1
                n0 = st.norm(lay.n)
                ctx.ok(rule, st.eq0(sub(lay.count(a, st), add(n0, ONE))), 'registered:' + client, 'the text returned is registered %s times in its scope' % show(sub(lay.count(a, st), n0)), st.end[1], st.path())
                fn, dt = lay.entry(a, st, n0)
                ctx.ok(rule, fn == V(a.glob('@free')) and st.eq0(sub(dt, p)), 'entry:' + client, 'the newest entry of the scope is %s(%s), expected free(%s)' % (show(fn), show(dt), show(p)), st.end[1], st.path())
                ctx.ok(rule, single(p) is not None and single(p) not in st.freed, 'freed:' + client, 'the text returned is already released', st.end[1], st.path())
            ctx.ok(rule, done > 0, 'none:' + client, 'no path of the client returns text')
    for w in ('w_split', 'w_split_thread'):
        text(w, (s, s2, arg('cnt')))
    text('w_concat', (s, s2))
    for w in ('w_replace', 'w_replace_thread'):
        text(w, (s, s2, s3))
    for w in ('w_encode', 'w_encode_thread', 'w_decode', 'w_decode_thread'):
        text(w, (s,))
