from core import *
import defer, life, trace

EXPLANATION = ('Ownership analysis by abstract interpretation: deleting an arbitrary scope (any number of entries) runs all of them and releases '
               'exactly the scope, its entry array and its bookkeeping block; clients combining scopes, arena scopes and the thread scope go '
               'through exactly the expected events, release every block they obtained exactly once and never touch a released or foreign one.')


def run(ctx):
    mod = ctx.mod('w_scope.c', 'w_defer.c')
    ctx.need(mod, 'raii_delete', 'free_arena', 'raii_destroy', 'raii_deferred_clean', 'unique_init', 'unique_init_arena', 'raii_init')
    lay = defer.Layout(ctx, mod)
    S = lay.scope
    for w in ('ws_delete', 'ws_delete_arena'):
        rule = 'deleting an arbitrary scope: ' + w
        for start in lay.starts:
            a = ctx.an(mod, unroll=3, models=dict(trace.MODELS))
            defer.calls(lay, a, [])
            life.attach(a, only=False)
            life.bounds(a, kinds=('heap', 'stack'))
            rel = []

            def fr(an, st, ins, base, p, kind):
                st.ghost['rel'] = st.ghost.get('rel', ()) + (base,)
            a.hooks['free'].append(fr)
            a.start(w, [S], setup=start)
            ctx.pull(a, rule)
            done = 0
            for st in ctx.ends(a):
                if not ctx.ok(rule, st.end[0] == 'return', '%s:%s' % (w, st.end[0]), 'deleting the scope ends with %s' % (st.end,), st.end[1], st.path()):
                    continue
                done += 1
                k = st.norm(st.ghost.get('#calls', ZERO))
                # a scope whose list is not set up has nothing to run
                rel = st.ghost.get('rel', ())
                ctx.ok(rule, rel.count(single(S)) == 1 and rel[-1] == single(S), 'scope:' + w, 'the scope itself is released %d times, or before what it holds' % rel.count(single(S)), st.end[1], st.path())
                if start != lay.empty:
                    ctx.ok(rule, st.eq0(sub(k, st.norm(lay.n))), 'count:' + w, '%s deferred functions ran, the scope had %s' % (show(k), show(st.norm(lay.n))), st.end[1], st.path())
                    b = single(V(L.sym(('ld', single(S), lay.boff, 8), True)))
                    ctx.ok(rule, b in rel, 'array:' + w, 'the array of entries is not released', st.end[1], st.path())
                for x in rel:
                    t = L.term(x) if x is not None else None
                    mine = x == single(S) or t and t[0] == 'ld' and t[1] == single(S)
                    ctx.ok(rule, bool(mine), 'foreign:' + w, 'deleting the scope releases %s, which the scope does not hold' % (L.show_term(t) if t else x), st.end[1], st.path())
            ctx.ok(rule, done > 0, 'none:' + w, 'no path completes')

    def live(an, st, ins, a):
        y = A.baseof(st.norm(a[0]))
        if y is None or y in st.freed:
            an.report(st, ins, 'scope-gone', 'a scope that must still exist was released (%s)' % (st.freed.get(y),))
        return [(st, None)]

    def dead(an, st, ins, a):
        y = A.baseof(st.norm(a[0]))
        if y is None or y not in st.freed:
            an.report(st, ins, 'scope-kept', 'a deleted scope was not released')
        return [(st, None)]

    def atexit(an, st, ins, a):
        nm = an.fname_of(st.norm(a[0]))
        st.ghost['atexit'] = st.ghost.get('atexit', ()) + (nm,)
        return [(st, ZERO)]

    def run_exit(an, st, ins, a):
        for nm in st.ghost.get('atexit', ()):       # pushed in order: the last one registered runs first
            if nm in an.m.funcs:
                an.push(st, nm, [], ins)
        return None
    MD = {'m_live': live, 'm_dead': dead, 'atexit': atexit, 'run_exit': run_exit}
    R = 'return'
    t = lambda w, x, **k: trace.check(ctx, mod, w, x, models=MD, leak=True, unroll=20, **k)
    t('ws_heap', {(3, R), (22, 25, 21, 3, R)})
    t('ws_null', {(3, R)})
    t('ws_two', {(22, 25, 3, 2, 23, 25, 21, 4, R)})
    t('ws_inner', {(22, 21, 3, R)})
    t('ws_arena', {(3, R), (25, 21, 3, R)})
    t('ws_arena_big', {(3, R)})
    t('ws_arena_other', {(3, 2, 21, 4, R)})
    t('ws_thread', {(22, 21, 3, 23, 4, 5, R)})
    t('ws_thread_clean', {(21, 3, 22, 4, R)})
    t('ws_exit', {(3, 22, 21, 4, R)})
    t('ws_exit_empty', {(3, 4, R)})
    t('ws_exit_after', {(21, 3, 4, R)})
    t('ws_arena_used', {(26, 2, 26, 1, 3, R), (21, 25, 26, 2, 26, 1, 3, R)})
    t('ws_used', {(26, 2, 26, 1, 25, 3, R)})
    t('ws_thread_used', {(26, 1, 3, R)})
    ctx.sample('deleting an arbitrary scope releases only blocks loaded from that scope, the scope itself last')
