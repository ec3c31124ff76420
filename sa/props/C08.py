from core import *
import trace, gen

EXPLANATION = ('The try / catch / finally constructs are macros compiled into client code: clients covering every kind of handler, nesting and '
               'throwing place are abstractly interpreted together with the library, with an exact model of saved jump contexts. The set of '
               'event sequences (block bodies entered, handler chosen, error reported) must be exactly the expected set; jumps to a context '
               'whose function returned, uses of dead frames and missing or extra handler runs are violations.')


def run(ctx):
    mod = ctx.mod('w_try.c')
    ctx.need(mod, 'ex_throw', 'ex_init')
    R = 'return'
    E = 'exit'
    t = lambda c, x, **k: trace.check(ctx, mod, c, x, **k)
    t('w_one', {(1, 2, 3, 5, 6, R), (1, 2, 4, 'out_of_memory', 5, 6, R)})
    t('w_select', {(10, 2, 4, 5, 7, 8, R), (11, 3, 'range_error', 4, 5, 7, 8, R), (12, 4, 6, 'logic_error', 7, 8, R), (13, 4, 7, E)})
    t('w_any', {(10, 2, 4, 5, R), (11, 3, 'range_error', 4, 5, R), (12, 3, 'logic_error', 4, 5, R), (13, 3, 'panic', 4, 5, R)})
    t('w_if', {(10, 2, 4, 5, 7, 8, R), (11, 3, 'range_error', 4, 6, 'range_error', 7, 8, R)})
    t('w_if_caught', {(10, 2, 5, 6, 8, 9, R), (11, 3, 4, 5, 6, 8, 9, R), (12, 3, 5, 7, 'logic_error', 8, 9, R)})
    t('w_rethrow', {(3, 5, 7, 'range_error', 8, 9, R)})
    t('w_throw_in_catch', {(3, 5, 8, E)})
    t('w_throw_in_catch2', {(3, 5, 7, 'logic_error', 8, 9, R)})
    t('w_throw_in_finally', {(2, 5, 7, 'logic_error', 8, 9, R), (3, 5, 7, 'logic_error', 8, 9, R)})
    t('w_sequence', {sum(x, ()) + (5, R) for x in [(a, b, c) for a in ((1, 2, 4), (1, 3, 4)) for b in ((1, 2, 4), (1, 3, 4)) for c in ((1, 2, 4), (1, 3, 4))]}, unroll=5)
    t('w_forever', {(R,)}, args=[arg('n', False, 0)], models={'ev_reset': trace.resetter({(1, 2, 4), (1, 3, 4)})})
    t('w_nested_ok', {(1, 2, 3, 4, 5, 7, 'logic_error', 8, 9, R)})
    t('w_deep', {(1, 2, 3, 6, 9, 11, 'logic_error', 12, 13, R)})
    t('w_uncaught', {(1, 4, E)})
    t('w_bare', {(1, E)})
    t('w_try_in_catch', {(1, 2, 3, 5, 'logic_error', 6, 7, 'range_error', 8, 9, R)})
    t('w_try_in_finally', {(1, 2, 3, 4, 6, 7, 8, 9, R)})
    t('w_call', {(1, 2, 3, 5, 6, 7, 9, 10, 2, 3, 5, 6, 11, R), (1, 2, 4, 5, 6, 7, 9, 10, 2, 3, 5, 6, 11, R),
                 (1, 2, 5, 8, 'logic_error', 9, 10, 2, 3, 5, 6, 11, R)})
    gen.check(ctx, 'c8', ('try',), 100, 1500, 'generated programs with try')
    gen.check(ctx, 'c8l', ('try',), 50, 500, 'generated programs with try', size=16, choices=6, hi=100)
