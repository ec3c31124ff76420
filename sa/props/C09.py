from core import *
import trace, gen

EXPLANATION = ('The protection of pointer variables is a macro compiled into client code: clients protecting one or several variables with '
               'arbitrary pointer values, in nested try blocks, loops, called functions and guarded sections, removing protection in every '
               'order and throwing at every chosen place, are abstractly interpreted together with the library. The set of event sequences '
               '(releases with the value released, handlers, the value left in the variable) must be exactly the expected one.')


def run(ctx):
    mod = ctx.mod('w_prot.c')
    ctx.need(mod, 'ex_protect_ptr', 'ex_unprotected_ptr', 'ex_throw')
    R, E = 'return', 'exit'
    a, b, c = (arg(x, lo=1) for x in 'abc')
    t = lambda w, x, *ar, **k: trace.check(ctx, mod, w, x, args=ar, leak=True, unroll=5, **k)
    t('wp_one', {(1, 2, 3, 5, 'a', E), (1, 2, 3, 5, 'a', 6, R), (1, 2, 4, 5, 'a', E), (1, 2, 4, 5, 'a', 6, R), (1, 30, 'a', 4, 5, 0, E), (1, 30, 'a', 4, 5, 0, 6, R)}, a)
    t('wp_null', {(1, 4, 5, 6, R)})
    t('wp_changed', {(1, 30, 'b', 4, 5, 0, R), (1, 4, 5, 0, R), (1, 5, 0, R)}, a, b)
    t('wp_two', {(1, 31, 'b', 30, 'a', 4, 5, 6, R), (1, 7, 31, 'b', 4, 5, 6, R), (1, 7, 9, 2, 5, 6, R), (1, 7, 9, 4, 5, 6, R),
                 (1, 8, 30, 'a', 4, 5, 6, R), (1, 8, 9, 2, 5, 6, R), (1, 8, 9, 4, 5, 6, R)}, a, b)
    t('wp_three', {(1, 30, 'c', 30, 'a', 4, 5, 6, R), (1, 30, 'c', 31, 'b', 30, 'a', 4, 5, 6, R), (1, 30, 'c', 31, 'b', 4, 5, 6, R),
                   (1, 31, 'b', 30, 'a', 4, 5, 6, R)}, a, b, c)
    ra = 'range_error'
    t('wp_nested', {(1, 2, 3, 5, 6, 30, 'a', 8, ra, 9, 10, R), (1, 2, 3, 5, 6, 7, 9, 10, R), (1, 2, 31, 'b', 4, 5, 6, 30, 'a', 8, ra, 9, 10, R),
                    (1, 2, 31, 'b', 4, 5, 6, 7, 9, 10, R), (1, 2, 31, 'b', 5, 30, 'a', 8, 'logic_error', 9, 10, R)}, a, b)
    t('wp_outer', {(1, 2, 3, 4, 5, 30, 'a', 6, 7, 8, R)}, a)
    t('wp_call', {(1, 2, 3, 4, 5, 6, R), (1, 2, 3, 5, 6, R), (1, 2, 30, 'a', 4, 5, 6, R)}, a)
    t('wp_uncaught', {(1, 2, R), (1, 30, 'a', E)}, a)
    t('wp_heap', {(1, 2, 5, 6, R), (1, 32, 32, 4, 5, 6, R)})
    t('wp_free', {(1, 5, R), (1, 4, 5, R)})
    t('wp_heap_realloc', {(1, 2, 5, 6, R), (1, 32, 4, 5, 6, R)})
    # the order between deferred functions and protected pointers is not part of the property
    t('wp_guard', lambda x, e: x in {(1, 21, 3, 5, 6, R), (1, 21, 30, 'a', 4, 5, 6, R), (1, 30, 'a', 21, 4, 5, 6, R)}, a)
    t('wp_thread', lambda x, e: x in {(1, 2, 21, R), (1, 21, 30, 'a', E), (1, 30, 'a', 21, E)}, a)
    t('wp_loop', {(1, 2, 1, 2, 1, 2, 3, 5, 6, R), (1, 2, 1, 2, 1, 30, 'a', 4, 5, 6, R), (1, 2, 1, 30, 'a', 4, 5, 6, R), (1, 30, 'a', 4, 5, 6, R)}, a)
    t('wp_again', {(1, 2, 3, 5, 6, R), (1, 2, 31, 'a', 4, 5, 6, R), (1, 2, 4, 5, 6, R)}, a)
    t('wp_inner_remove', {(1, 2, 3, 4, 30, 'a', 6, 7, 8, R), (1, 2, 3, 4, 5, 7, 8, R), (1, 2, 4, 30, 'a', 6, 7, 8, R), (1, 2, 4, 5, 7, 8, R)}, a, b)
    t('wp_rounds', {(R,)}, a, models={'ev_reset': trace.resetter({(1, 2, 5), (1, 30, 'a', 4, 5)})})
    t('wp_late', {(1, 4, 5, 0, R), (1, 30, 'a', 4, 5, 0, R), (1, 4, 5, 'a', R), (1, 2, 5, 'a', R)}, a)
    t('wp_late_two', {(1, 30, 'a', 4, 5, 0, 0, R), (1, 31, 'b', 4, 5, 0, 0, R), (1, 31, 'b', 30, 'a', 4, 5, 0, 0, R)}, a, b)
    t('wp_bare', {(1, 2, 3, R), (1, 3, R), (1, 2, E), (1, 30, 'a', E)}, a)
    t('wp_bare_two', {(1, 2, 31, 'b', E), (1, 3, 30, 'a', E)}, a, b)
    t('wp_bare_inner', {(1, 2, 3, 5, E), (1, 2, 5, 30, 'a', E)}, a)
    gen.check(ctx, 'c9', ('try', 'protect'), 100, 1500, 'generated programs with protected pointers')
    gen.check(ctx, 'c9g', ('try', 'protect', 'guard'), 50, 500, 'generated programs with protected pointers', size=12)
