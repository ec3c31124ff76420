from core import *
import trace, life, text, defer

EXPLANATION = ('Ownership analysis by abstract interpretation of clients that pack argument sets, read them any number of times from one or '
               'several scopes (of any content) or never, and end those scopes, sections or the program normally or by an error: the set '
               'and its storage must be released exactly once, not before the scope it is bound to ends, and every read is of live memory.')


def run(ctx):
    mod = ctx.mod('w_argset.c', 'w_defer.c')
    ctx.need(mod, 'args_free', 'raii_get_args', 'raii_args_ex', 'args_for', 'raii_args_for')
    lay = defer.Layout(ctx, mod)
    S = lay.scope
    a, b = arg('a', lo=1), arg('b', lo=1)
    R = 'return'

    def live(an, st, ins, x):
        y = A.baseof(st.norm(x[0]))
        if y is None or y in st.freed:
            an.report(st, ins, 'set-gone', 'an argument set is released while its scope still exists (%s)' % (st.freed.get(y),))
        return [(st, None)]

    def dead(an, st, ins, x):
        y = A.baseof(st.norm(x[0]))
        if y is None or y not in st.freed:
            an.report(st, ins, 'set-kept', 'an argument set is not released with its scope')
        return [(st, None)]

    def run_exit(an, st, ins, x):
        todo = [f for f in st.ghost.get('atexit', ()) if f in an.m.funcs]
        st.ghost['atexit'] = ()
        for f in todo:
            an.push(st, f, [], ins)
        return None
    MD = {**text.MODELS, 'm_live': live, 'm_dead': dead, 'run_exit': run_exit, 'cb_a': defer.cb}
    LM = {**MD, 'raii_init': lambda an, st, ins, x: [(st, S)], 'raii_local': lambda an, st, ins, x: [(st, S)]}
    own = lambda s: (lambda a_, e, y: False)
    for w, x, ar in [('wq_unread', {(R,)}, (a, b)), ('wq_peek', {('a', 'a', R)}, (a,)), ('wq_empty', {(R,)}, ()), ('wq_own', {(0, 'b', R)}, (a, b)),
                     ('wq_context', {(0, R)}, (a,)), ('wq_context_arena', {(0, R)}, (a,)), ('wq_context_late', {(0, R)}, (a,)), ('wq_first', {(0, R)}, (a,)), ('wq_default', {(1, R)}, (a,)), ('wq_loop', {(1, R)}, (a,)),
                     ('wq_many', {(R,)}, (a,)), ('wq_other', {(1, R)}, (a,))]:
        for start in lay.starts:
            trace.check(ctx, mod, w, x, args=(S,) + ar, models=LM, setup=start, leak=True, unroll=5 if w != 'wq_loop' else 2, rule='sets of ' + w, only=True)
    t = lambda w, x, *ar, **k: trace.check(ctx, mod, w, x, args=ar, models=MD, leak=True, unroll=20, rule='sets of ' + w, **k)
    t('wq_guard', lambda y, e: y in {(1, 21, 2, 4, R), (21, 3, 4, R)}, a)
    t('wq_try', {(1, 4, R), (3, 4, R)}, a)
    t('wq_program', {(5, R), ('exit',)}, a)
    t('wq_rounds', {(R,)}, a)
    # at every end of the program nothing is left either
    for n, y in (('wq_program', 1),):
        an, tr = trace.check(ctx, mod, n, {(5, R), ('exit',)}, args=(a,), models=MD, unroll=20, rule='sets of ' + n)
        for e in ctx.ends(an):
            for y in life.leaks(an, e):
                ctx.bad('sets of ' + n, 'left:' + life.where(an, y), 'a block of an argument set is left when the program ends', life.where(an, y), e.path())
