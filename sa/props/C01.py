from core import *
import defer

EXPLANATION = ('Abstract interpretation of the registration and unwinding code from an arbitrary scope (empty, or any number n of entries with '
               'any contents): the address of every entry is an affine term in n, callbacks are counted by a monitor, loops are closed by '
               'inductive affine invariants. Each obligation is one call site reached or one end of a client path. A growth rule checks that '
               'the array is extended whenever the next entry would not fit.')


def growth(ctx, mod, lay):
    """a registration that does not enlarge the array must know that there is room"""
    a = ctx.an(mod)
    a.start('w_reg', [lay.scope, lay.f, lay.d], setup=lay.filled)
    b = ctx.an(mod)
    b.start('w_reg', [lay.scope, lay.f, lay.d], setup=lay.empty)
    quantum = set()
    keep = []
    for an in (a, b):
        for e in ctx.ends(an, 'return'):
            base = single(lay.base(an, e))
            info = an.regions.get(base)
            if info and info['kind'] == 'heap' and info['size'] is not None:
                room = sub(info['size'], scale(lay.count(an, e), lay.stride))
                ctx.ok('growth', e.ge0(e.norm(room)), 'growth:size', 'the enlarged array of %s bytes cannot hold %s entries of %d bytes' % (
                    show(info['size']), show(lay.count(an, e)), lay.stride), info['where'], e.path())
                q = sub(info['size'], scale(e.norm(lay.n), lay.stride))
                if is_const(e.norm(q)) and e.norm(q)[0] > 0:
                    quantum.add(e.norm(q)[0] // lay.stride)
            else:
                keep.append((an, e))
    if len(quantum) != 1:
        ctx.notes.append('the array grows by another policy than a fixed step')
        return
    q = quantum.pop()
    for an, e in keep:
        r = A.evalop(e, 'urem', e.norm(lay.n), K(q), 64)
        ctx.ok('growth', e.ne0(r), 'growth:reuse', 'an entry is appended without enlarging the array although %s may be a multiple of %d, '
               'the number of entries the array was enlarged by' % (show(e.norm(lay.n)), q), e.end[1], e.path())


def run(ctx):
    mod = ctx.mod('w_defer.c')
    ctx.need(mod, 'raii_deferred', 'raii_deferred_free', 'raii_deferred_count', 'raii_recover_by', 'raii_defer', 'raii_recover', 'raii_deferred_clean')
    lay = defer.Layout(ctx, mod)
    f, d, f2, d2, f3, d3 = lay.f, lay.d, arg('f2', lo=1), arg('d2'), arg('f3', lo=1), arg('d3')
    one, two = (f, d), (f2, d2)
    S = lay.scope
    sc = lambda *a, **k: defer.scenario(ctx, mod, lay, *a, **k)
    sc('w_reg_run', one, [one])
    sc('w_rec_run', one, [one])
    sc('w_reg_run_twice', one, [one])
    sc('w_three', one + two + (f3, d3), [(f3, d3), two, one])
    sc('w_thread', one + two, [two, one])
    sc('w_reenter_reg', one, [('cb_b', S), one])
    sc('w_reenter_run', one, [('cb_a', S), one])
    sc('w_jump_run', one, [('cb_a', S), one])

    def oom(st):
        fl = st.ghost.get('failed', ())
        return ([] if 1 in fl else [two]) + ([] if 0 in fl else [one])
    sc('w_oom', one + two, oom, oom=1)
    sc('w_oom', one + two, oom, oom=2)
    again(ctx, mod, lay, one, two)
    growth(ctx, mod, lay)


def again(ctx, mod, lay, one, two):
    """a scope that ran can be used again: f, all older entries, then g"""
    for start in lay.starts:
        a = ctx.an(mod)

        def hook(an, st, ins, name, tgt, args):
            if name is not None or len(args) != 1:
                return
            k = st.norm(st.ghost.get('#calls', ZERO))
            n = st.norm(lay.n)
            last = st.eq0(sub(sub(k, n), ONE))
            if last:
                st.ghost['#calls'] = add(k, ONE)
                if not (st.eq0(sub(tgt, two[0])) and st.eq0(sub(args[0], two[1]))):
                    an.report(st, ins, 'order', 'after the scope ran once, callback %s(%s) runs, expected %s(%s)' % (show(tgt), show(args[0]), show(two[0]), show(two[1])))
                return
            defer.check_call(lay, an, st, ins, tgt, args, [one])
        a.hooks['call'].append(hook)
        a.start('w_again', [lay.scope] + list(one + two), setup=start)
        ctx.pull(a, 'callbacks of w_again')
        for e in ctx.ends(a):
            k = e.norm(e.ghost.get('#calls', ZERO))
            ctx.ok('callbacks of w_again', e.end[0] == 'return' and e.eq0(sub(k, add(e.norm(lay.n), K(2)))), 'count:w_again',
                   '%s callbacks ran, expected %s (end %s)' % (show(k), show(add(e.norm(lay.n), K(2))), e.end[0]), e.end[1], e.path())
