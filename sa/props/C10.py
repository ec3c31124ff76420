from core import *
import trace, gen, flow

EXPLANATION = ('Clients throwing in every form (macros and the low-level call, with arbitrary symbolic name, file, line, function and message) '
               'are abstractly interpreted together with the library: what the handler sees must be the very values thrown, also after '
               'rethrowing, through finally parts and guarded sections; code after a throw must be unreachable; without a handler the '
               'process must end with a failure status after the deferred functions ran once. A control-flow rule proves that no path of '
               'the throwing and terminating functions reaches a return.')


def run(ctx):
    mod = ctx.mod('w_throw.c')
    ctx.need(mod, 'ex_throw', 'ex_terminate', 'ex_init', 'raii_message')
    nr = flow.noreturn(mod)
    for f in ('ex_throw', 'ex_terminate'):
        p = flow.witness(mod.funcs[f], nr)
        ctx.ok('throwing functions do not return', p is None, 'returns:' + f, '%s can return to its caller' % f, mod.where(p[-1]) if p else '', [mod.where(x) for x in p or ()])
    R, E = 'return', 'exit'

    def bad(an, st, ins, a):
        an.report(st, ins, 'after-throw', 'control reaches code that only a returning throw can reach')
        return [(st, None)]

    def t(w, x, ar='', **k):
        a, tr = trace.check(ctx, mod, w, x, args=[arg(c, c != 'l', lo=1) for c in ar], models={'bad': bad}, leak=True, unroll=5, **k)
        for e in ctx.ends(a, E):
            ctx.ok('exit status', e.ghost['exit'][1] not in (0, None), 'status:' + w, 'an uncaught error ends the program with status %s' % (e.ghost['exit'][1],), e.end[1], e.path())
    M = 'nflgm'
    meta = ('n', 'f', 'l', 'g', 'm')
    mine = ('mine',) + meta[1:]
    t('wt_meta', {(1, 2) + meta + ('n', 'f', 'l', 3, 4, R)}, M)
    t('wt_finally', {(2, 'n', 'l', 3) + meta + (4, R)}, M)
    t('wt_rethrow', {(2, 3, 4) + meta + (5, R)}, M)
    t('wt_nomatch', {(3, 4) + mine + (5, R)}, M)
    t('wt_guard', {(21, 4) + meta + (5, R)}, M)
    t('wt_guard_deep', {(6, 21, 4) + mine + (5, R)}, M)
    zero = ('mine', 0, 0, 0, 0)
    t('wt_again', lambda x, e: tuple(0 if y == 'null' else y for y in x) in {(2, 3, 4) + zero + (5, R)}, M)
    t('wt_again_finally', {(2, 3, 4) + meta + (5, R)}, M)
    t('wt_again_guard', lambda x, e: tuple(0 if y == 'null' else y for y in x) in {(2, 3, 21, 4, 'mine', 0, -7, 0, 0, 5, R)}, M)
    t('wt_seen', lambda x, e: x in {(1, 'n', 2, R), (1, 'm', 2, R)}, M)
    t('wt_macro', {('range_error', 0, 0, 'wt_macro', 'null', 3, R)})
    t('wt_panic', {('panic', 'wt_panic', 'm', 3, R)}, 'm')
    t('wt_catch_panic', {(2, 'boom', 3, R)})
    t('wt_bare', {(E,)}, M)
    t('wt_bare_scope', {(22, 21, E)})
    t('wt_bare_hook', {(21, 40, E)})
    t('wt_bare_hook_throw', {(21, 41, E)})
    t('wt_bare_hook_try', {(21, 42, 43, 44, 45, E)})
    t('wt_bare_try', {(3, 21, E)})
    t('wt_bare_guard', {(22, 21, E)})
    t('wt_twice_scope', {(22, 24, 21, E)})
    t('wt_twice_try', {(24, 21, E)})
    t('wt_try_in_cleanup', {(25, 26, 27, 28, 21, 4, 5, 6, R)})
    t('wt_uncaught', {(0, 0, 5, 0, R)})
    gen.check(ctx, 'c10', ('try',), 100, 1000, 'generated programs with handlers')
    gen.check(ctx, 'c10g', ('try', 'guard'), 50, 500, 'generated programs with handlers', size=12)
