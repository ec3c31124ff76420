"""Event traces of client programs: every sequence of events the analysed code can produce, against the expected ones."""
import lin as L
from lin import K, V, ZERO, ONE, add, sub, scale, is_const, single, show
import absint as A
import life


def m_ev(an, st, ins, a):
    v = st.norm(a[0])
    st.ghost['tr'] = st.ghost.get('tr', ()) + (v[0] if is_const(v) else '?' + show(v),)
    return [(st, None)]


def m_nd(an, st, ins, a):
    x = st.clone()
    x.log('%s: nd() is 1' % an.m.where(ins))
    st.log('%s: nd() is 0' % an.m.where(ins))
    return [(st, ZERO), (x, ONE)]


def m_nd3(an, st, ins, a):
    n = st.norm(a[0])[0]
    out = []
    for i in range(n):
        x = st.clone() if i < n - 1 else st
        x.log('%s: choice %d' % (an.m.where(ins), i))
        out.append((x, K(i)))
    return out


def m_assume(an, st, ins, a):
    """keep only the executions in which the condition holds"""
    c = st.norm(a[0])
    if is_const(c):
        return [(st, None)] if c[0] else []
    return [(x, None) for x, t in an.fork2(st, ins, c) if t]


def m_str(an, st, ins, a):
    """record which named string a pointer is"""
    v = st.norm(a[0])
    y = single(v)
    t = L.term(y) if y is not None else None
    s = 'null' if is_const(v) and v[0] == 0 else None
    if s is None and t and t[0] == 'glob':
        g = an.m.globals.get(t[1])
        if g is not None and g.init is not None and g.init.kind == 'str':
            s = g.init.v.split(b'\0')[0].decode()
        else:
            s = t[1]
    st.ghost['tr'] = st.ghost.get('tr', ()) + (s or show(v),)
    return [(st, None)]


def m_int(an, st, ins, a):
    v = st.norm(a[0])
    st.ghost['tr'] = st.ghost.get('tr', ()) + (v[0] if is_const(v) else show(v),)
    return [(st, None)]


def streq(an, st, ins, a):
    """comparison of constant strings; unknown otherwise"""
    r = []
    for p in a[:2]:
        y = single(st.norm(p))
        t = L.term(y) if y is not None else None
        g = an.m.globals.get(t[1]) if t and t[0] == 'glob' else None
        if g is None or g.init is None or g.init.kind not in ('str', 'zero'):
            r.append(None)
        else:
            r.append(g.init.v.split(b'\0')[0] if g.init.kind == 'str' else b'')
    if r[0] is not None and r[1] is not None:
        return K(0) if r[0] == r[1] else K(1)
    if st.eq0(sub(a[0], a[1])):
        return K(0)
    return V(L.fresh('strcmp'))


def m_strcmp(an, st, ins, a):
    for i in (0, 1):
        v = st.norm(a[i])
        if is_const(v) and v[0] == 0:
            an.report(st, ins, 'null-string', 'a NULL string is compared')
    return [(st, streq(an, st, ins, a))]


MODELS = {'m_assume': m_assume, 'ex_signal_setup': lambda an, st, ins, a: [(st, None)], 'ev': m_ev, 'nd': m_nd, 'choose': m_nd3, 'ev_str': m_str, 'ev_int': m_int, 'simd_strcmp': m_strcmp, 'strcmp': m_strcmp}


def resetter(allowed):
    def m(an, st, ins, a):
        t = st.ghost.get('tr', ())
        if t and t not in allowed:
            an.report(st, ins, 'round:' + '.'.join(str(x) for x in t), 'one round goes through events %s, which is not allowed' % ' '.join(str(x) for x in t))
        st.ghost['tr'] = ()
        return [(st, None)]
    return m


def ending(e):
    k = e.end[0]
    if k == 'exit':
        return e.ghost.get('exit', ('exit',))[0]
    return k


def traces(ctx, a):
    out = {}
    for e in ctx.ends(a):
        out.setdefault(e.ghost.get('tr', ()) + (ending(e),), []).append(e)
    return out


def check(ctx, mod, client, expect, args=(), models=None, rule=None, own=True, oom=0, setup=None, leak=False, keep=None, only=True, track=True, within=True, **kw):
    """observed set of event sequences must be the expected set"""
    rule = rule or 'events of ' + client
    md = dict(MODELS)
    md.update(models or {})
    a = ctx.an(mod, models=md, oom=oom, **kw)
    if own:
        life.attach(a, only=only, track=track)
        if within:
            life.bounds(a, kinds=('heap', 'stack'))
    if not ctx.start(a, client, list(args), setup):
        ctx.pull(a, rule)
        return a, {}
    ctx.pull(a, rule)
    tr = traces(ctx, a)
    exp = expect if callable(expect) else (lambda t, e: t in expect)
    for t, es in sorted(tr.items(), key=lambda x: str(x[0])):
        for e in es:
            if not ctx.ok(rule, exp(t, e), '%s:%s' % (client, '.'.join(str(x) for x in t)),
                          '%s can go through events %s, which is not allowed' % (client, ' '.join(str(x) for x in t)), e.end[1], e.path()):
                break
    if not callable(expect):
        for t in expect:
            ctx.ok(rule, t in tr, '%s:missing:%s' % (client, '.'.join(str(x) for x in t)),
                   '%s never goes through events %s' % (client, ' '.join(str(x) for x in t)))
    if leak:
        for e in ctx.ends(a, 'return'):
            for y in life.leaks(a, e):
                if keep and keep(a, e, y):
                    continue
                ctx.bad(rule, 'leak:%s:%s' % (client, life.where(a, y)), 'a block obtained in %s is never released' % client, life.where(a, y), e.path())
    ctx.sample('%s: %s' % (client, '; '.join(' '.join(str(x) for x in t) for t in sorted(tr, key=str)[:6])))
    return a, tr
