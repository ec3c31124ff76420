from core import *
import trace, gen

EXPLANATION = ('Clients whose deferred functions query and handle errors (the recovery API) are abstractly interpreted together with the library '
               'and the guard macros. The set of event sequences must be exactly the expected one: a cleanup sees the error that is being '
               'handled, a match ends propagation, no match or another name lets it continue, remaining cleanups still run, and a later error '
               'is an error again. Strings are compared symbolically as constants of the program.')


def run(ctx):
    mod = ctx.mod('w_guard.c')
    ctx.need(mod, 'raii_recover', 'raii_recover_by', 'raii_caught', 'raii_is_caught', 'raii_message', 'raii_message_by')
    R, E = 'return', 'exit'
    t = lambda c, x, **k: trace.check(ctx, mod, c, x, unroll=5, **k)
    t('w_recover', {(1, 2, 22, 31, 0, 21, 3, 5, 6, 1, R), (1, 22, 31, 0, 21, 4, 'logic_error', 5, 6, 1, R), (1, 22, 31, 1, 21, 3, 5, 6, 1, R)}, leak=True)
    t('w_recover_bare', {(1, 2, 31, 0, 3, 5, 6, 1, R), (1, 31, 0, 4, 'logic_error', 5, 6, 1, R), (1, 31, 1, 3, 5, 6, 1, R)}, leak=True)
    t('w_recover_chain', {(1, 2, 32, 0, 31, 0, 3, 5, 6, 1, R), (1, 32, 0, 31, 0, 4, 'logic_error', 5, 6, 1, R), (1, 32, 0, 31, 1, 3, 5, 6, 1, R)})
    t('w_recover_panic', {(1, 34, 'boom', 33, 1, 3, 5, 6, 1, R), (1, 34, 'logic_error', 33, 0, 4, 'logic_error', 5, 6, 1, R),
                          (1, 34, 'range_error', 33, 0, 4, 'range_error', 5, 6, 1, R)})
    t('w_recover_outer', {(1, 2, 21, 31, 1, 6, 1, R)})
    t('w_recover_return', {(1, 2, 31, 0, 5, 3, 5, 6, 1, R), (1, 31, 1, 5, 3, 5, 6, 1, R)})
    t('w_recover_then', {(1, 31, 1, 2, 3, 21, 6, 7, 8, 1, R)})
    t('w_thread', {(1, 22, 21, E)})
    t('w_thread_caught', {(1, 35, 'logic_error', 0, E), (1, 35, 'range_error', 1, E)})
    gen.check(ctx, 'c7', ('guard', 'recover'), 100, 1000, 'generated programs with recovering deferred functions')
    gen.check(ctx, 'c7t', ('try', 'guard', 'recover'), 50, 1000, 'generated programs with recovering deferred functions', size=12)
