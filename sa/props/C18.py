from core import *
import threads, trace, text, life

EXPLANATION = ('Clients handing objects of any other type, empty handles, handles already used, results not ready and spawns outside a group to the '
               'thread functions, and clients using the library first thing in a thread without a scope, are abstractly interpreted: the call must '
               'raise an error, must not write through the handle nor follow a pointer in it, and no null pointer may be used.')

R, E = 'return', 'exit'
REFUSED = {
    'wi_get_other': {('logic_error', 9, R)}, 'wi_get_null': {('logic_error', 9, R)}, 'wi_get_no_promise': {('logic_error', 9, R)},
    'wi_get_other_promise': {('logic_error', 9, R)}, 'wi_get_group': {('logic_error', 9, R)}, 'wi_get_result': {('logic_error', 41, R)},
    'wi_get_guard': {(41, 21, E)}, 'wi_sync_other': {('logic_error', 9, R)}, 'wi_sync_null': {('logic_error', 9, R)},
    'wi_sync_future': {('logic_error', 41, R)}, 'wi_result_null': {('logic_error', 9, R)}, 'wi_result_unready': {('logic_error', 9, R)},
    'wi_result_early': {('logic_error', 41, R)}, 'wi_spawn_none': {('panic', 9, R)}, 'wi_spawn_scope': {('panic', 9, R)},
    'wi_spawn_guard': {(21, 'panic', 9, R)}, 'wi_spawn_ex_none': {('panic', 9, R)}, 'wi_spawn_ex_scope': {('panic', 9, R)},
    'wi_spawn_after': {('panic', 9, R)}, 'wi_spawn_ex_after': {('panic', 9, R)}, 'wi_spawn_arena': {('panic', 9, R)},
}
FRESH = {
    'wu_defer': {(1, 21, 2, R)}, 'wu_recover': {(1, 21, 2, R)}, 'wu_defer_cancel': {(2, R)}, 'wu_defer_fire': {(21, 1, 2, R)}, 'wu_clean': {(2, R)},
    'wu_destroy': {(2, R)}, 'wu_caught': {(0, R)}, 'wu_message': {(1, R)}, 'wu_malloc': {(1, R)}, 'wu_calloc': {(1, R)}, 'wu_mid': {(1, R)},
    'wu_throw': {(2, R)}, 'wu_panic': {('panic', R)}, 'wu_throw_bare': {(E,)}, 'wu_guard': {(1, 21, R)}, 'wu_protect': {(1, R)}, 'wu_scope': {(1, R)},
    'wu_async': {(41, R)}, 'wu_args': {(5, R)}, 'wu_memdup': {(1, R)}, 'wu_concat': {(1, R)},
}


def run(ctx):
    mod = ctx.mod('w_handle.c')
    ctx.need(mod, 'thrd_get', 'thrd_sync', 'thrd_result', 'thrd_spawn', 'thrd_spawn_ex', 'raii_defer', 'raii_recover', 'raii_init')

    def check(c, expect, rule):
        T = threads.Threads()
        h = arg('h', lo=1)
        hb = single(h)

        def acc(an, st, ins, base, off, size, kind):
            if base is None or ins.fn.name == c:
                return
            if base == hb and kind not in ('load', 'memcpy-src'):
                an.report(st, ins, 'handle-written', 'a refused handle is written to')
            t = L.term(base)
            if t[0] == 'ld' and t[1] == hb and kind not in ('load', 'memcpy-src'):
                an.report(st, ins, 'handle-followed', 'memory a refused handle refers to is written to')
            if t[0] == 'ld' and t[1] == hb and c in ('wi_get_other', 'wi_sync_other', 'wi_result_unready'):
                an.report(st, ins, 'handle-followed', 'a pointer in a refused handle is followed')
        a = ctx.an(mod, models={**trace.MODELS, **text.MODELS, **T.models()}, unroll=20)
        life.attach(a, only=False)
        life.nulls(a)
        T.attach(a)
        a.hooks['access'].append(acc)
        n = len(mod.funcs[c].params)
        ok = ctx.start(a, c, [h] * n)
        ctx.pull(a, rule)
        if not ok:
            return
        tr = trace.traces(ctx, a)
        for t, es in sorted(tr.items(), key=lambda x: str(x[0])):
            ctx.ok(rule, t in expect, '%s:%s' % (c, '.'.join(map(str, t))), '%s can go through events %s, which is not allowed' % (c, ' '.join(map(str, t))), es[0].end[1], es[0].path())
        for t in expect:
            ctx.ok(rule, t in tr, '%s:missing:%s' % (c, '.'.join(map(str, t))), '%s never goes through events %s' % (c, ' '.join(map(str, t))))
        for e in ctx.ends(a, R):
            for y in life.leaks(a, e):
                ctx.bad(rule, 'leak:%s:%s' % (c, life.where(a, y)), 'a block obtained in %s is never released' % c, life.where(a, y), e.path())
            for t in threads.unjoined(e):
                ctx.bad(rule, 'unjoined:' + c, 'a thread that was started is never joined', e.end[1], e.path())
        for e in ctx.ends(a, E):
            ctx.ok(rule, e.ghost['exit'][1] not in (0, None), 'status:' + c, 'an uncaught error ends the program with status %s' % (e.ghost['exit'][1],), e.end[1], e.path())
        ctx.sample('%s: %s' % (c, '; '.join(' '.join(map(str, t)) for t in sorted(tr, key=str))))
    for c, ev in REFUSED.items():
        check(c, ev, 'invalid handle in ' + c)
    for c, ev in FRESH.items():
        check(c, ev, 'no thread scope in ' + c)
