from core import *
import defer

EXPLANATION = ('Abstract interpretation of client programs that cancel and fire registrations by handle, from an arbitrary scope (empty, or any '
               'number of entries with any contents). A monitor follows every callback; each obligation is one callback reached or one end of '
               'a client path: the handle designates its own registration, a cancelled entry never runs, a fired one runs once at that moment.')


def run(ctx):
    mod = ctx.mod('w_defer.c')
    ctx.need(mod, 'raii_deferred', 'raii_deferred_free', 'raii_deferred_cancel', 'raii_deferred_fire', 'raii_defer_cancel', 'raii_defer_fire')
    lay = defer.Layout(ctx, mod)
    one, two, three = (lay.f, lay.d), (arg('f2', lo=1), arg('d2')), (arg('f3', lo=1), arg('d3'))
    S = lay.scope
    sc = lambda *a, **k: defer.scenario(ctx, mod, lay, *a, **k)
    for start in lay.starts:
        a = ctx.an(mod)
        a.start('w_reg', [lay.scope, lay.f, lay.d], setup=start)
        hs = [e for e in ctx.ends(a, 'return')]
        for e in hs:
            ctx.ok('handle', e.ne0(add(e.norm(e.ghost['$ret']), ONE)), 'handle:refused', 'a successful registration returns the refusal value', e.end[1], e.path())
    sc('w_reg_cancel_run', one, [])
    sc('w_reg_fire_run', one, [one])
    sc('w_cancel_old_run', one + two, [two])
    sc('w_fire_old_run', one + two, [one, two])
    sc('w_cancel_mid_run', one + two + three, [three, one])
    sc('w_fire_mid_run', one + two + three, [two, three, one])
    sc('w_cancel_thread', one + two, [two])
    sc('w_fire_thread', one + two, [one, two])
    sc('w_cancel_last_reg', one + two, [two])
    sc('w_fire_last_reg', one + two, [one, two])
    sc('w_fire_registers', one, [('cb_b', S), one])
    sc('w_fire_runs', one, [('cb_a', S), one])
    sc('w_fire_jumps', one, [('cb_a', S), one])
    sc('w_cancel_twice', one + two, [two])
    sc('w_cancel_then_fire', one + two, [two])
    sc('w_fire_twice', one + two, [one, two])
