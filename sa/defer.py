"""Shared reasoning about the deferred-entry list, derived from the code's own registration and counting functions."""
import lin as L
from lin import K, V, ZERO, ONE, add, sub, scale, is_const, single, show
import absint as A
from core import arg, Anchor


class Layout:
    """Where a scope keeps its entries: found by analysing the counting and registering functions"""

    def __init__(s, ctx, mod):
        s.scope = arg('scope', lo=1)
        s.f, s.d = arg('f', lo=1), arg('d')
        a = ctx.an(mod)
        a.start('w_count', [s.scope])
        vals = {e.norm(e.ghost['$ret']) for e in ctx.ends(a, 'return')}
        if len(vals) != 1:
            raise Anchor('the number of deferred entries is not one stored quantity')
        v = vals.pop()
        y = single(v)
        t = L.term(y) if y is not None else None
        if not t or t[0] != 'ld' or t[1] != single(s.scope) or not is_const(t[2]):
            raise Anchor('the number of deferred entries is not stored in the scope')
        s.noff, s.n = t[2], v
        a = ctx.an(mod)
        a.start('w_reg', [s.scope, s.f, s.d], setup=s.pre)
        found = set()
        for e in ctx.ends(a, 'return'):
            found |= s.find(a, e)
        if len(found) != 1:
            raise Anchor('cannot see where a registration stores its entry: %s' % (found,))
        s.stride, s.foff, s.doff, s.boff = found.pop()
        s.reg = a
        # constants a registration leaves in the scope: part of what a non-empty scope looks like
        s.marks = []
        for e in ctx.ends(a, 'return'):
            sc = a.getreg(e, single(s.scope))
            m = {(o, sz, e.norm(v)) for o, (sz, v, q) in sc.cells.items() if is_const(o) and v[0] != 'agg' and is_const(e.norm(v)) and o != s.noff}
            s.marks.append(m)
        s.marks = set.intersection(*s.marks) if s.marks else set()

    @property
    def starts(s):
        return s.empty, s.drained, s.filled

    def find(s, a, e):
        """candidate (stride, offset of func, offset of data, offset of the array pointer in the scope)"""
        out = set()
        for base, r in e.mem.items():
            fo = [o for o, (sz, v, q) in r.cells.items() if sz == 8 and e.norm(v) == s.f]
            do = [o for o, (sz, v, q) in r.cells.items() if sz == 8 and e.norm(v) == s.d]
            for x in fo:
                for y in do:
                    if not is_const(sub(y, x)):
                        continue
                    # the pointer to this array inside the scope
                    sc = a.getreg(e, single(s.scope))
                    bo = None
                    for o, (sz, v, q) in sc.cells.items():
                        if sz == 8 and is_const(o) and single(e.norm(v)) == base:
                            bo = o
                    if bo is None:
                        t = L.term(base)
                        if t[0] == 'ld' and t[1] == single(s.scope) and is_const(t[2]):
                            bo = t[2]
                    if bo is None:
                        continue
                    co = dict(x[1]).get(single(s.n))
                    if co is None:
                        nn = e.norm(s.n)
                        if is_const(nn):
                            continue
                        return out
                    rest = add(x, s.n, -co)
                    rest2 = add(y, s.n, -co)
                    if is_const(rest) and is_const(rest2):
                        out.add((co, rest[0], rest2[0], bo))
        return out

    def pre(s, a, st):
        """a scope as the library leaves it: a number of entries that fits in memory"""
        st.assume_ge0(s.n)
        st.assume_ge0(sub(K(1 << 31), s.n))

    def empty(s, a, st):
        st.assume_eq0(s.n)

    def filled(s, a, st):
        st.assume_ge0(sub(s.n, ONE))
        st.assume_ge0(sub(K(1 << 31), s.n))
        st.assume_ne0(V(L.sym(('ld', single(s.scope), s.boff, 8), True)))
        for o, sz, v in s.marks:
            st.assume_eq0(sub(V(L.sym(('ld', single(s.scope), o, sz))), v))

    def drained(s, a, st):
        """an array of entries is there, but none is left in it"""
        st.assume_eq0(s.n)
        st.assume_ne0(V(L.sym(('ld', single(s.scope), s.boff, 8), True)))
        for o, sz, v in s.marks:
            st.assume_eq0(sub(V(L.sym(('ld', single(s.scope), o, sz))), v))

    def entry(s, a, e, i, snap=None):
        """(func, data) of entry i of the scope in state e"""
        b = e.norm(a.load(e, single(s.scope), s.boff, 8, True))
        base = A.baseof(b)
        if base is None:
            return None
        o = sub(b, V(base))
        at = add(o, scale(i, s.stride))
        return (a.load(e, base, add(at, K(s.foff)), 8, True), a.load(e, base, add(at, K(s.doff)), 8, True))

    def count(s, a, e):
        return e.norm(a.load(e, single(s.scope), s.noff, 8))

    def base(s, a, e):
        return e.norm(a.load(e, single(s.scope), s.boff, 8, True))

    def initial(s, i):
        """(func, data) of entry i before the client ran"""
        b = L.sym(('ld', single(s.scope), s.boff, 8), True)
        at = scale(i, s.stride)
        return (V(L.sym(('ld', b, add(at, K(s.foff)), 8), True)), V(L.sym(('ld', b, add(at, K(s.doff)), 8), True)))


OLD = '...older entries'


def check_call(lay, an, st, ins, tgt, args, expect, key='#calls', skip=None):
    """the next callback must be the next expected one, then the older entries n-1, n-2, ... 0"""
    k = st.norm(st.ghost.get(key, ZERO))
    st.ghost[key] = add(k, ONE)
    m = len(expect)
    if is_const(k) and k[0] < m:
        f, d = expect[k[0]]
        same = tgt == f if isinstance(f, str) or isinstance(tgt, str) else st.eq0(sub(f, tgt))
        if not same or d is not None and not st.eq0(sub(d, args[0])):
            an.report(st, ins, 'order', 'callback number %d is %s(%s), expected %s(%s)' % (
                k[0] + 1, tgt if isinstance(tgt, str) else show(tgt), show(args[0]), f if isinstance(f, str) else show(f), show(d) if d else '*'))
        return
    i = sub(sub(st.norm(lay.n), ONE), sub(k, K(m)))
    f, d = lay.initial(i)
    f, d = st.norm(f), st.norm(d)
    if isinstance(tgt, str) or not st.ge0(sub(k, K(m))) or st.norm(tgt) != f or st.norm(args[0]) != d:
        an.report(st, ins, 'order', 'callback number %s+1 is %s(%s), expected older entry %s, that is %s(%s)' % (
            show(k), tgt if isinstance(tgt, str) else show(tgt), show(args[0]), show(i), show(f), show(d)))


def calls(lay, a, expect):
    """monitor for expected callbacks; expect is a list, or a function of the state giving one"""
    def hook(an, st, ins, name, tgt, args):
        if name is not None and not name.startswith('cb_') or name in an.m.funcs:
            return
        if len(args) != 1:
            return
        e = expect(st) if callable(expect) else expect
        check_call(lay, an, st, ins, name if name is not None else tgt, args, e)
    a.hooks['call'].append(hook)


def cb(an, st, ins, args):
    return [(st, None)]


def mark(an, st, ins, args):
    st.ghost['failed'] = st.ghost.get('failed', ()) + (st.norm(args[0])[0],)
    return [(st, None)]


def scenario(ctx, mod, lay, client, args, expect, oom=0, total=None, kinds=('return',), both=True, models=None):
    """Analyse a client from an arbitrary empty and an arbitrary non-empty scope."""
    rule = 'callbacks of ' + client
    for start in lay.starts:
        md = {'cb_a': cb, 'cb_b': cb, 'cb_c': cb, 'm_failed': mark, 'raii_local': lambda an, st, ins, a: [(st, lay.scope)],
              'raii_init': lambda an, st, ins, a: [(st, lay.scope)]}
        md.update(models or {})
        a = ctx.an(mod, models=md, oom=oom, unroll=5)
        calls(lay, a, expect)
        a.start(client, [lay.scope] + list(args), setup=start)
        ctx.pull(a, rule)
        done = 0
        for e in ctx.ends(a):
            if e.end[0] not in kinds:
                ctx.bad(rule, '%s:%s' % (e.end[0], e.end[1]), 'the client ends with %s instead of returning' % (e.end,), e.end[1], e.path())
                continue
            done += 1
            k = e.norm(e.ghost.get('#calls', ZERO))
            x = expect(e) if callable(expect) else expect
            want = add(e.norm(lay.n), K(len(x)))
            ctx.ok(rule, e.eq0(sub(k, want)), 'count:' + client, '%s callbacks ran in %s, expected %s' % (show(k), client, show(want)), e.end[1], e.path())
            ctx.ok(rule, e.eq0(lay.count(a, e)), 'left:' + client, '%s entries are left after the scope ran in %s' % (show(lay.count(a, e)), client), e.end[1], e.path())
        ctx.ok(rule, done > 0, 'none:' + client, 'no path of %s completes' % client)
        ctx.sample('%s from %s scope: %d complete paths, callbacks %s' % (client, start.__name__, done, [x[0] if isinstance(x[0], str) else show(x[0]) for x in (expect if not callable(expect) else [])] + [OLD]))
