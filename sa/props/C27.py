from core import *
import text
import threads
import trace
import life

EXPLANATION = ('The queries are abstractly interpreted on an object of any type code: on every path the answer must follow from the range the code is known '
               'to lie in there, and the object must not be written to. Every named code is classified by the type-checked constants, and every kind of '
               'object the library makes is created and asked for its type.')

R = 'return'


def any_type(ctx, mod, client, args, want):
    """the answer of a query on every path, against what is known of the type code there"""
    rule = 'answers of ' + client

    def answer(an, st, ins, x):
        st.ghost['asked'] = True
        for ok, key, msg in want(an, st, st.norm(x[1])):
            ctx.ok(rule, True, 'x', 'x')
            if not ok:
                an.report(st, ins, key, msg)
        return [(st, None)]

    def acc(an, st, ins, base, off, size, kind):
        if base is not None and an.regions.get(base, {}).get('kind') != 'local' and ins.fn.name != client and kind not in ('load', 'memcpy-src') and L.term(base)[0] != 'reg':
            an.report(st, ins, 'written', 'a query writes to what it is asked about')
    a = ctx.an(mod, models={**trace.MODELS, **text.MODELS, 'm_bool': answer})
    life.attach(a, only=False)
    life.nulls(a)
    a.hooks['access'].append(acc)
    a.hooks['free'].append(lambda an, st, ins, *x: an.report(st, ins, 'released', 'a query releases memory'))
    if not ctx.start(a, client, list(args)):
        ctx.pull(a, rule)
        return
    ctx.pull(a, rule)
    ctx.ok(rule, any(e.ghost.get('asked') for e in ctx.ends(a, R)), 'never:' + client, '%s never gives an answer' % client)
    for e in ctx.ends(a):
        ctx.ok(rule, e.end[0] == R, 'end:%s:%s' % (client, e.end[0]), '%s ends by %s' % (client, e.end), e.end[1], e.path())


def code(an, st, p):
    return st.norm(an.load(st, single(p), ZERO, 4))


def follows(an, st, x, conds, what):
    """x is true exactly when all the conditions (linear, >= 0) hold"""
    out = []
    for truth in (1, 0):
        y = st.clone()
        if not (y.assume_eq0(sub(x, ONE)) if truth else y.assume_eq0(x)):
            continue
        if truth:
            ok = all(y.ge0(y.norm(c)) for c in conds)
        else:
            ok = not all(y.assume_ge0(y.norm(c)) for c in conds)
        out.append((ok, 'answer', '%s is %s when the type code is %s' % (what, 'true' if truth else 'false', 'not in its range' if truth else 'in its range')))
    y = st.clone()
    out.append((y.ge0(x) and y.ge0(sub(ONE, x)), 'answer', '%s is neither true nor false' % what))
    return out


def run(ctx):
    mod = ctx.mod('w_type.c', 'w_defer.c')
    ctx.need(mod, 'type_of', 'is_type', 'is_instance_of', 'is_value', 'is_instance', 'is_valid', 'is_guard', 'is_empty', 'is_str_eq', 'is_str_empty', 'raii_value')
    # the ends of the ranges, as the program is compiled
    limits = []
    a = ctx.an(mod, models={'m_bool': lambda an, st, ins, x: (limits.append(st.norm(x[1])), [(st, None)])[1]})
    ctx.start(a, 'wk_bounds', [])
    nul, nan, noi, grd, soff = [x[0] for x in limits]
    p, q = arg('p', lo=1), arg('q', lo=1)
    T = lambda o: arg('t', False, 0, (1 << 31) - 1) if o is None else None
    t = T(None)

    def rng(lo, hi, what):
        return lambda an, st, x: follows(an, st, x, [sub(code(an, st, p), K(lo)), sub(K(hi), code(an, st, p))], what)

    def same(get, what):
        def f(an, st, x):
            v, w = get(an, st)
            return follows(an, st, x, [sub(v, w), sub(w, v)], what)
        return f

    def valid(an, st, x):
        out = []
        c = code(an, st, p)
        for truth in (1, 0):
            y = st.clone()
            if not (y.assume_eq0(sub(x, ONE)) if truth else y.assume_eq0(x)):
                continue
            for lo, hi, inside in ((-(1 << 40), nul, False), (nul + 1, nan - 1, True), (nan, nan, False), (nan + 1, noi - 1, True), (noi, 1 << 40, False)):
                z = y.clone()
                if z.assume_ge0(sub(c, K(lo))) and z.assume_ge0(z.norm(sub(K(hi), c))) and inside != bool(truth):
                    out.append((False, 'answer', 'is_valid is %s for type codes from %d to %d' % (bool(truth), lo, hi)))
        return out or [(True, '', '')]

    def exactly(v, what):
        def f(an, st, x):
            w = v(an, st)
            return [(st.eq0(st.norm(sub(x, w))), 'answer', '%s gives %s, not %s' % (what, show(x), show(w)))]
        return f

    def truth(cond, what):
        """cond: the value that is zero exactly when the answer is true"""
        def f(an, st, x):
            v = st.norm(cond(an, st))
            return follows(an, st, x, [v, scale(v, -1)], what)
        return f
    n = arg('n', False, 0)
    b = arg('b', False, 0, 1)
    A = any_type
    A(ctx, mod, 'wk_type', [p, t], same(lambda an, st: (code(an, st, p), st.norm(t)), 'is_type'))
    A(ctx, mod, 'wk_of', [p], exactly(lambda an, st: code(an, st, p), 'type_of'))
    A(ctx, mod, 'wk_same', [p, q], same(lambda an, st: (code(an, st, p), code(an, st, q)), 'is_instance_of'))
    A(ctx, mod, 'wk_value', [p], rng(nul + 1, nan - 1, 'is_value'))
    A(ctx, mod, 'wk_instance', [p], rng(nan + 1, noi - 1, 'is_instance'))
    A(ctx, mod, 'wk_valid', [p], valid)
    o = arg('o')
    A(ctx, mod, 'wk_empty', [o], truth(lambda an, st: o, 'is_empty'))
    A(ctx, mod, 'wk_zero', [n], truth(lambda an, st: n, 'is_zero'))
    A(ctx, mod, 'wk_true', [b], truth(lambda an, st: sub(b, ONE), 'is_true'))
    A(ctx, mod, 'wk_false', [b], truth(lambda an, st: b, 'is_false'))
    status = lambda an, st: st.norm(an.load(st, single(p), K(soff), 4))
    A(ctx, mod, 'wk_guard', [p], lambda an, st, x: follows(an, st, x, [sub(status(an, st), K(grd)), sub(K(grd), status(an, st))], 'is_guard'))
    A(ctx, mod, 'wk_guard', [ZERO], exactly(lambda an, st: ZERO, 'is_guard of NULL'))
    A(ctx, mod, 'wk_data', [p], exactly(lambda an, st: st.norm(an.load(st, single(p), ZERO, 8, True)), 'raii_value'))

    # every code by name
    t_ = lambda c, x, **k: trace.check(ctx, mod, c, x, **k)
    t_('wk_values', {(1,) * 24 + (R,)}, unroll=200)
    t_('wk_instances', {(2,) * 24 + (R,)}, unroll=200)
    t_('wk_neither', {(0,) * 11 + (R,)}, unroll=200)
    t_('wk_distinct', {(13, R)}, unroll=200)

    # text
    md = text.MODELS
    t_('wk_eq_null', {(0, 0, 0, 0, R)}, args=[arg('t')], models=md)
    t_('wk_eq_same', {(1, R), (0, R)}, args=[arg('t')], models={**md, **{k: trace.m_strcmp for k in ('simd_strcmp', 'strcmp')}})
    t_('wk_eq_const', {(1, 0, 0, 1, 0, 1, 0, R)}, models={**md, **{k: trace.m_strcmp for k in ('simd_strcmp', 'strcmp')}})
    t_('wk_value_null', {(0, 0, R)})

    # objects the library makes
    t_('wk_array', {(1, 1, R)})
    for c, expect in (('wk_arena', {(1, 0, 1, R)}), ('wk_unique', {(0, R)}), ('wk_guarded', {(1, R)})):
        t_(c, expect)
    al = arg('a', lo=1)
    import defer
    lay = defer.Layout(ctx, mod)
    for start in lay.starts:
        t_('wk_args', {(1, 2, R)}, args=[lay.scope, al], models={**text.MODELS, 'raii_init': lambda an, st, ins, x: [(st, lay.scope)]}, setup=start)
    t_('wk_args_gone', {(1, R)}, args=[al], models=text.MODELS)
    t_('wk_defer', {(1, 2, R)}, args=[lay.scope, lay.f, lay.d], setup=lay.empty)
    threads.check(ctx, mod, 'wk_future', '', {(1, 2, 0, 0, 41, R)}, 'type of a future')
    threads.check(ctx, mod, 'wk_group', '', {(1, 0, 0, 1, 1, 2, 1, 0, 41, R)}, 'type of a group and its results')
