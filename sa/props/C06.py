from core import *
import trace, gen, defer

EXPLANATION = ('Guarded sections are macros compiled into client code: clients leaving a section in every way (end, break, return, thrown error, '
               'nested sections, nested try, repeated sections) are abstractly interpreted together with the library. The set of event sequences must be '
               'exactly the expected one: deferred functions once each, newest first, before control leaves; the thread state (current scope, '
               'guard hooks, exception context) compared before and after by the client; every heap block obtained in the section released once.')




def run(ctx):
    mod = ctx.mod('w_guard.c')
    ctx.need(mod, 'raii_init', 'raii_delete', 'raii_deferred_free', 'guard_set', 'guard_reset', 'guard_delete', 'raii_recover_by')
    R, E = 'return', 'exit'
    t = lambda c, x, leak=True, unroll=5, **k: trace.check(ctx, mod, c, x, leak=leak, unroll=unroll, **k)
    t('w_plain', {(1, 2, 22, 21, 3, 1, R)})
    t('w_break', {(1, 2, 22, 21, 3, 1, R), (1, 21, 3, 1, R)})
    t('w_return', {(1, 2, 22, 21, 9, 3, 1, R), (1, 4, 21, 7, 3, 1, R)})
    t('w_throw', {(1, 2, 22, 21, 3, 5, 6, 1, R), (1, 22, 21, 4, 'logic_error', 5, 6, 1, R), (1, 22, 21, 4, 'panic', 5, 6, 1, R),
                  (1, 22, 21, 4, 'range_error', 5, 6, 1, R)})
    t('w_throw_bare', {(1, 2, 22, 21, 3, 5, 6, 1, R), (1, 22, 21, 4, 'range_error', 5, 6, 1, R)})
    t('w_return_throw', {(1, 2, 21, 9, 3, 5, 6, 1, R), (1, 21, 4, 5, 6, 1, R)})
    t('w_nested', {(1, 2, 22, 21, 7, 'range_error', 8, 9, 1, R), (1, 2, 3, 22, 4, 23, 21, 7, 'range_error', 8, 9, 1, R),
                   (1, 2, 3, 22, 4, 5, 23, 21, 6, 8, 9, 1, R)})
    t('w_try_inside', {(1, 2, 3, 5, 6, 22, 21, 7, 1, R), (1, 2, 4, 5, 6, 22, 21, 7, 1, R)})
    t('w_uncaught', {(1, 2, 21, 3, R), (1, 21, E)})
    t('w_outer_kept', {(1, 21, 2, 23, 3, R)})
    t('w_outer_kept_throw', {(1, 21, 4, 5, 2, 23, 3, R)})
    t('w_throw_normal', {(1, 22, 24, 21, 4, 5, 6, 1, R)})
    t('w_rounds', {(R,)}, models={'ev_reset': trace.resetter({(1, 2, 21, 3, 5, 1), (1, 21, 4, 5, 1)})})
    gen.check(ctx, 'c6', ('try', 'guard'), 100, 1000, 'generated programs with guarded sections')
