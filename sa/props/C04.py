from core import *
import defer, life, trace, models

EXPLANATION = ('Every allocation site reached from every allocating entry point is forked into success and failure (one failure per path; two '
               'in the thorough tier) during abstract interpretation from arbitrary scopes and arenas. A path with a failure must raise an '
               'error; it must not use a missing block, return one, change entries that existed, or leave a block that neither the scope nor '
               'the caller can reach. Clients with try and guard follow the error to its handler and through the end of the scope.')


def run(ctx):
    mod = ctx.mod('w_alloc.c', 'w_oom.c', 'w_defer.c')
    ctx.need(mod, 'malloc_full', 'calloc_full', 'try_malloc', 'try_calloc', 'try_realloc', 'unique_init', 'arena_alloc', 'arena_calloc', 'arena_init', 'ex_throw')
    lay = defer.Layout(ctx, mod)
    S = lay.scope
    N = 2 if ctx.thorough else 1
    n, m, c = arg('size', False, 1, 1 << 31), arg('size2', False, 1, 1 << 31), arg('count', False, 1, 1 << 15)
    f, g, e = arg('f', lo=1), arg('g', lo=1), arg('e')

    def ptr(an, st, ins, a):
        st.ghost['#ptr%d' % st.ghost.get('np', 0)] = a[0]
        st.ghost['np'] = st.ghost.get('np', 0) + 1
        return [(st, None)]

    def throw(an, st, ins, a):
        an.finish(st, 'throw', ins)
        return []

    def rel(an, st, ins, a):
        return [(st, None)]

    def strlen(an, st, ins, a):
        return [(st, V(L.sym(('len', st.norm(a[0])), lo=0, hi=1 << 31)))]

    def strstr(an, st, ins, a):
        x = st.clone()
        return [(st, add(st.norm(a[0]), V(L.fresh('found', False, lo=0, hi=1 << 31)))), (x, ZERO)]

    MD = {'m_ptr': ptr, 'm_rel': rel, 'ex_throw': throw, 'raii_local': lambda an, st, ins, x: [(st, S)], 'raii_init': lambda an, st, ins, x: [(st, S)],
          'simd_strlen': strlen, 'strlen': strlen, 'strstr': strstr, 'simd_strcmp': lambda an, st, ins, x: [(st, V(L.fresh('cmp')))], 'ex_signal_setup': rel, 'm_assume': trace.m_assume}

    def one(client, args, scoped=True, starts=None, own=True, keep=(), unroll=2):
        rule = 'failure in ' + client
        failed = 0
        for start in starts or lay.starts:
            a = ctx.an(mod, models=MD, oom=N, unroll=unroll)
            life.attach(a, only=True)
            life.nulls(a)
            a.start(client, list(args), setup=start)
            ctx.pull(a, rule)
            for st in ctx.ends(a):
                k = st.ghost.get('oom', 0)
                if not k:
                    continue
                failed += 1
                if not ctx.ok(rule, st.end[0] == 'throw', '%s:%s:%s' % (client, st.end[0], 'after-failure'),
                              'an allocation fails but %s ends with %s instead of raising an error' % (client, st.end[0]), st.end[1], st.path()):
                    continue
                if not scoped:
                    continue
                i = V(L.sym(('arg', 'i'), lo=0))
                x = st.clone()
                x.assume_ge0(sub(sub(x.norm(lay.n), ONE), i))
                if start is lay.filled and lay.entry(a, x, i) is not None:
                    got, want = lay.entry(a, x, i), lay.initial(i)
                    ctx.ok(rule, all(x.eq0(sub(x.norm(p), x.norm(q))) for p, q in zip(got, want)), 'entries:' + client, 'an entry that existed before the failure changed', st.end[1], st.path())
                cnt = lay.count(a, st)
                d = sub(cnt, st.norm(lay.n))
                if not ctx.ok(rule, is_const(d) and 0 <= d[0] <= 4, 'count:' + client, 'after the failure the scope has %s entries, it had %s' % (show(cnt), show(lay.n)), st.end[1], st.path()):
                    continue
                for j in range(d[0]):
                    en = lay.entry(a, st, add(st.norm(lay.n), K(j)))
                    b = A.baseof(st.norm(en[1])) if en else None
                    ctx.ok(rule, b is not None and b in a.regions and a.regions[b]['kind'] == 'heap' and b not in st.freed, 'entry:' + client,
                           'after the failure entry %d past the old ones is %s' % (j, show(en[1]) if en else None), st.end[1], st.path())
                r = life.reach(a, st, [single(S)] + [A.baseof(st.norm(v)) for q, v in st.ghost.items() if q.startswith('#ptr')])
                for y in life.leaks(a, st):
                    ctx.ok(rule, y in r, 'lost:%s:%s' % (client, life.where(a, y)), 'the block obtained here is lost when a later allocation fails', life.where(a, y), st.path())
        ctx.ok(rule, failed > 0, 'none:' + client, 'no allocation of %s can fail' % client)
        ctx.sample('%s: %d failing paths' % (client, failed))
    s, s2, s3 = arg('src', lo=1), arg('s2', lo=1), arg('s3', lo=1)
    for w, x in [('w_malloc_full', (n, f)), ('w_calloc_full', (c, n, f)), ('w_two', (n, m, f, g)), ('w_mixed', (n, f, g, e)), ('w_malloc_default', (n,)), ('w_calloc_default', (c, n)),
                 ('w_malloc_by', (n,)), ('w_calloc_by', (c, n)), ('w_memdup', (s, n)), ('w_memdup_ex', (s, n)),
                 ('w_split', (s, s2, arg('cnt'))), ('w_split_thread', (s, s2, arg('cnt'))), ('w_concat', (s, s2)), ('w_replace', (s, s2, s3)), ('w_replace_thread', (s, s2, s3)),
                 ('w_encode', (s,)), ('w_encode_thread', (s,)), ('w_decode', (s,)), ('w_decode_thread', (s,))]:
        if w == 'w_mixed':
            continue        # the bare registration reports failure by its result: property C01
        one(w, (S,) + x)
    free = [lambda an, st: None]
    A0 = arg('arena', lo=1)
    for w, x in [('w_unique', ()), ('w_unique_arena', ()), ('w_arena_init', (n,)), ('w_arena_alloc', (A0, n)), ('w_arena_calloc', (A0, c, n)), ('w_malloc_arena', (S, A0, n)),
                 ('w_calloc_arena', (S, A0, c, n)), ('w_malloc_by_arena', (S, A0, n)), ('w_calloc_by_arena', (S, A0, c, n)), ('w_try_malloc', (n,)), ('w_try_calloc', (c, n)),
                 ('w_try_realloc', (s, n)), ('w_args', (m, n)), ('w_args_scope', (S, m, n)), ('w_scope', ())]:
        one(w, x, scoped=False, starts=free)
    R = 'return'
    t = lambda w, x, **k: trace.check(ctx, mod, w, x, oom=N, leak=True, unroll=20, rule='failure in ' + w, **k)
    t('w_in_try', {(R,), (1, 2, 5, 22, 21, 6, R), (1, 4, 'panic', 5, 22, 21, 6, R)})
    t('w_in_guard', {(1, 2, 22, 21, 3, 5, 6, 1, R), (1, 22, 21, 4, 5, 6, 1, R), (1, 21, 4, 5, 6, 1, R), (1, 4, 5, 6, 1, R), (4, 5, 6, 1, R)})
    t('w_in_guard_many', {(1, 2, 3, 5, 6, 1, R), (1, 4, 5, 6, 1, R), (4, 5, 6, 1, R)})
