"""Arenas: arbitrary states built from the invariant, what a request may hand out, what clearing and freeing give back.

Invariant of an arena: either it has no block and nothing is available, or its newest block B is a live heap block of S bytes,
the available part [avail, limit) lies in it behind the header that keeps the arena's previous state, and that state satisfies
the invariant in turn. Every block handed out ends at or before avail of the block it came from."""
import lin as L
from lin import K, V, ZERO, ONE, add, sub, is_const, single, show
import absint as A
import models as M
import life, trace, text
from core import arg, Anchor

TYPE, NEXT, AVAIL, LIMIT, BASE, GLOBAL, THRESHOLD, BYTES, TOTAL = range(9)
MAX = 1 << 62


class Shape:
    def __init__(s, ctx, mod):
        s.ctx, s.mod = ctx, mod
        a = ctx.an(mod)
        s.size = s.const(ctx, mod, 'wa_size', [])
        s.off = [s.const(ctx, mod, 'wa_off', [K(i)]) for i in range(9)]
        s.t_block, s.t_arena = s.const(ctx, mod, 'wa_off', [K(9)]), s.const(ctx, mod, 'wa_off', [K(10)])

        s.head = s.size
        s.head = s.first()

    def first(s):
        """offset of the first block handed out from a new block of memory"""
        n = arg('n', False, 1, 1 << 20)
        a = s.ctx.an(s.mod, models=MODELS, unroll=6)
        a.start('wa_alloc', [arg('a', lo=1), n], setup=s.setup({'a': 0}))
        out = []
        for e in s.ctx.ends(a, 'return'):
            p = e.norm(e.ghost['#got0'])
            B = A.baseof(p)
            off = e.norm(sub(p, V(B))) if B is not None else p
            if is_const(off) and B != single(p) and off[0] >= s.size:
                out.append(off[0])
        return min(out) if out else s.size      # if the first block lies anywhere else the requests are reported below

    def const(s, ctx, mod, f, args):
        a = ctx.an(mod)
        a.start(f, args)
        v = {e.norm(e.ghost['$ret']) for e in ctx.ends(a, 'return')}
        v = v.pop()
        return v[0]

    def put(s, an, st, base, f, v, size=8):
        an.store(st, base, K(s.off[f]), size, v)

    def get(s, an, st, base, f, size=8):
        return st.norm(an.load(st, base, K(s.off[f]), size, f in (NEXT, AVAIL, LIMIT, BASE)))

    def setup(s, arenas, cut=None):
        """arenas: {name: number of blocks}; the state is stored in the analysis as an.chain[name] = [block, ...] newest first"""
        def f(an, st):
            an.chain = {}
            an.old = {}
            for name, k in arenas.items():
                P = arg(name, lo=1)
                if single(P) not in an.regions:
                    an.regions[single(P)] = dict(kind='heap', name=name, size=K(s.size), where='the arena ' + name, init='lazy')
                    st.ghost['#heap%d' % single(P)] = P
                s.put(an, st, single(P), TYPE, K(s.t_arena), 4)
                s.put(an, st, single(P), GLOBAL, ZERO, 1)
                th = V(L.sym(('arg', 'threshold_of_' + name), False, lo=1))
                tot = V(L.sym(('arg', 'total_of_' + name), False, lo=0, hi=MAX))
                s.put(an, st, single(P), THRESHOLD, th)
                s.put(an, st, single(P), TOTAL, tot)
                an.old[name] = dict(total=tot)
                cur, blocks = single(P), []
                for i in range(k):
                    S = V(L.sym(('arg', 'size_of_%s_%d' % (name, i)), False, lo=1, hi=MAX))
                    x = V(L.sym(('arg', 'used_of_%s_%d' % (name, i)), False, lo=1, hi=MAX))
                    y = V(L.sym(('arg', 'limit_of_%s_%d' % (name, i)), False, lo=1, hi=MAX))
                    for c in sub(x, K(s.head)), sub(y, x), sub(S, y), sub(y, K(s.head)), sub(S, K(s.head)):
                        st.assume_ge0(c)
                    B = an.region('heap', 'block %d of %s' % (i, name), S, 'lazy', 'block %d of arena %s' % (i, name))
                    st.ghost['#heap%d' % B] = V(B)
                    s.put(an, st, cur, NEXT, V(B))
                    s.put(an, st, cur, AVAIL, add(V(B), x))
                    s.put(an, st, cur, LIMIT, add(V(B), y))
                    s.put(an, st, B, TYPE, K(s.t_block), 4)
                    s.put(an, st, B, GLOBAL, ZERO, 1)
                    s.put(an, st, B, THRESHOLD, th)
                    blocks.append((B, S, x, y))
                    cur = B
                s.put(an, st, cur, NEXT, ZERO)
                s.put(an, st, cur, AVAIL, ZERO)
                s.put(an, st, cur, LIMIT, ZERO)
                s.put(an, st, single(P), BASE, ZERO if not blocks else V(blocks[-1][0]))
                an.chain[name] = blocks
        return f

    def walk(s, an, e, P, most=12):
        """[(block, avail, limit)] of an arena, newest first; None when the chain is broken"""
        out, cur = [], P
        while True:
            nx = s.get(an, e, cur, NEXT)
            if is_const(nx) and nx[0] == 0:
                return out, s.get(an, e, cur, AVAIL), s.get(an, e, cur, LIMIT)
            B = single(nx)
            if B is None or len(out) >= most:
                return None, nx, nx
            out.append((B, s.get(an, e, cur, AVAIL), s.get(an, e, cur, LIMIT)))
            cur = B

    def held(s, an, e, name):
        return [b[0] for b in s.walk(an, e, single(arg(name, lo=1)))[0] or ()]

    def spare(s, an, e, shared, client, rule):
        """blocks kept for reuse: those the shared data of the library points to, and what follows them in the list"""
        out = set()
        for g in shared:
            r = e.mem.get(g)
            for o, (sz, v, q) in (r.cells.items() if r is not None else ()):
                B = single(e.norm(v)) if v[0] != 'agg' else None
                n = 0
                while B is not None and an.regions.get(B, {}).get('kind') == 'heap':
                    n += 1
                    if not s.ctx.ok(rule, B not in out and n < 40, 'spare-twice:' + client, 'a block is kept for reuse twice', e.end[1], e.path()):
                        break
                    out.add(B)
                    if B in e.freed:
                        break
                    B = single(s.get(an, e, B, NEXT))
        return out

    def inv(s, an, e, P, client, rule):
        """the arena satisfies the invariant; returns its blocks"""
        ctx = s.ctx
        ch, av, li = s.walk(an, e, P)
        if not ctx.ok(rule, ch is not None, 'chain:' + client, 'the list of blocks of the arena is broken at %s' % show(av), e.end[1], e.path()):
            return None
        ctx.ok(rule, e.eq0(e.norm(sub(li, av))), 'empty:' + client, 'an arena without blocks has %s bytes available' % show(sub(li, av)), e.end[1], e.path())
        seen = set()
        for B, av, li in ch:
            info = an.regions.get(B, {})
            w = info.get('where', '')
            ctx.ok(rule, B not in seen, 'twice:' + client, 'a block is in the arena twice', e.end[1], e.path())
            seen.add(B)
            if not ctx.ok(rule, info.get('kind') == 'heap' and B not in e.freed, 'dead:' + client, 'the arena keeps a block that was released', e.end[1], e.path()):
                continue
            x, y, S = e.norm(sub(av, V(B))), e.norm(sub(li, V(B))), e.norm(info['size'])
            ctx.ok(rule, e.ge0(e.norm(sub(x, K(s.head)))), 'header:' + client, 'memory from offset %s of a block, inside its header of %d bytes, is available' % (show(x), s.head), e.end[1], e.path())
            ctx.ok(rule, e.ge0(e.norm(sub(y, x))), 'negative:' + client, 'available memory ends at %s before it starts at %s' % (show(y), show(x)), e.end[1], e.path())
            ctx.ok(rule, e.ge0(e.norm(sub(S, y))), 'limit:' + client, 'memory up to offset %s of a block of %s bytes is available' % (show(y), show(S)), e.end[1], e.path())
        return ch

    def judge(s, an, e, names, client, rule):
        """blocks handed out: in bounds, disjoint from each other and from what was handed out before"""
        ctx = s.ctx
        got = []
        for i in range(e.ghost.get('ngot', 0)):
            p, n = e.norm(e.ghost['#got%d' % i]), e.norm(e.ghost['#len%d' % i])
            got.append((p, n))
        for i, (p, n) in enumerate(got):
            B = A.baseof(p)
            info = an.regions.get(B)
            if e.ghost.get('dead%d' % i):
                continue
            if not ctx.ok(rule, info is not None and info['kind'] == 'heap' and info.get('size') is not None and B != single(p), 'where:' + client, 'the block handed out is %s, which is not inside memory of the arena' % show(p), e.end[1], e.path()):
                continue
            off, S = e.norm(sub(p, V(B))), e.norm(info['size'])
            ctx.ok(rule, e.ge0(e.norm(sub(off, K(s.size)))), 'in-header:' + client, 'the block handed out starts at offset %s, inside the header of %d bytes' % (show(off), s.size), e.end[1], e.path())
            ctx.ok(rule, e.ge0(e.norm(sub(sub(S, off), n))), 'beyond:' + client, 'the %s bytes handed out at offset %s leave their block of %s bytes' % (show(n), show(off), show(S)), e.end[1], e.path())
            ctx.ok(rule, B not in e.freed or e.ghost.get('allgone'), 'released:' + client, 'the block handed out has been released', e.end[1], e.path())
            for name, ch in an.chain.items():
                for b, S0, x, y in ch:
                    if b == B and not e.ghost.get('gone:' + name):
                        ctx.ok(rule, e.ge0(e.norm(sub(off, x))), 'overlap-old:' + client, 'the block handed out at offset %s overlaps memory handed out before, up to %s' % (show(off), show(x)), e.end[1], e.path())
            for j in range(i):
                if e.ghost.get('dead%d' % j):
                    continue
                q, m = got[j]
                if A.baseof(q) == B:
                    d = e.ge0(e.norm(sub(sub(p, q), m))) or e.ge0(e.norm(sub(sub(q, p), n)))
                    ctx.ok(rule, d, 'overlap:' + client, 'two blocks handed out overlap: %s of %s bytes and %s of %s bytes' % (show(q), show(m), show(p), show(n)), e.end[1], e.path())
        # what is available afterwards lies behind what was handed out
        for name in names:
            P = single(arg(name, lo=1))
            if P in e.freed:
                continue
            ch = s.inv(an, e, P, client, rule)
            for B, av, li in ch or ():
                for i, (p, n) in enumerate(got):
                    if A.baseof(p) == B and not e.ghost.get('dead%d' % i):
                        d = e.ge0(e.norm(sub(sub(av, p), n)))
                        ctx.ok(rule, d, 'again:' + client, 'memory handed out at %s (%s bytes) stays available from %s' % (show(p), show(n), show(av)), e.end[1], e.path())
                for b, S0, x, y in an.chain.get(name, ()):
                    if b == B and not e.ghost.get('gone:' + name):
                        ctx.ok(rule, e.ge0(e.norm(sub(sub(av, V(B)), x))), 'again-old:' + client, 'memory handed out earlier becomes available again without clearing', e.end[1], e.path())
            for b, S0, x, y in an.chain.get(name, ()):
                if not e.ghost.get('gone:' + name):
                    ctx.ok(rule, b in [c[0] for c in ch or ()], 'lost:' + client, 'a block of the arena is lost', e.end[1], e.path())
        # no block in two places
        seen = {}
        for name in names:
            P = single(arg(name, lo=1))
            if P not in e.freed:
                for B, av, li in s.walk(an, e, P)[0] or ():
                    ctx.ok(rule, seen.setdefault(B, name) == name, 'shared:' + client, 'a block is in two arenas', e.end[1], e.path())


def m_got(an, st, ins, a):
    n = st.ghost.get('ngot', 0)
    p, m = st.norm(a[0]), st.norm(a[1])
    info = an.regions.get(A.baseof(p))
    if info and info.get('size') is not None:
        room = st.norm(sub(sub(info['size'], sub(p, V(A.baseof(p)))), m))
        if st.ge0(room):
            st.assume_ge0(room)     # proved: a fact for what follows
    st.ghost['#got%d' % n] = st.norm(a[0])
    st.ghost['#len%d' % n] = st.norm(a[1])
    st.ghost['ngot'] = n + 1
    return [(st, None)]


def m_gone(an, st, ins, a):
    """blocks of this arena are given up: those handed out so far may be handed out again"""
    y = single(st.norm(a[0]))
    t = L.term(y) if y is not None else ()
    st.ghost['gone:' + (t[1] if t and t[0] == 'arg' else str(y))] = 1
    for i in range(st.ghost.get('ngot', 0)):
        st.ghost['dead%d' % i] = 1
    return [(st, None)]


MODELS = {**trace.MODELS, **text.MODELS, 'm_got': m_got, 'm_gone': m_gone, 'm_reset': lambda an, st, ins, a: [(st, None)]}


def wraps(an):
    """arithmetic that leaves 64 bits"""
    def h(an, st, ins, a, b, v):
        if ins.ty.k != 'i' or ins.ty.bits != 64 or is_const(v):
            return
        if ins.fn.name.startswith('wa_'):
            return
        lim = (1 << 63) - 1
        an.narith = getattr(an, 'narith', 0) + 1
        if ins.op in ('add', 'sub', 'mul', 'shl'):
            if not st.ge0(sub(K(lim), v)) or not st.ge0(add(K(lim + 1), v)):
                an.report(st, ins, 'overflow', '%s of %s and %s may leave 64 bits' % (ins.op, show(a), show(b)))
    an.hooks['arith'].append(h)


def writes(sh, an):
    """the library writes to the arena, to headers of blocks and to blocks it hands out, nowhere else"""
    def acc(an, st, ins, base, off, size, kind):
        if kind in ('load', 'memcpy-src') or ins.fn.name.startswith('wa_'):
            return
        info = an.regions.get(base)
        if info is None or info['kind'] != 'heap':
            return
        end = st.norm(add(off, size))
        if not st.ge0(st.norm(sub(K(sh.size), end))):
            if kind == 'memset':
                st.ghost['#zero'] = add(V(base), off)
                st.ghost['#zlen'] = st.norm(size)
                return
            an.report(st, ins, 'written', '%s at offset %s of %s, behind the header' % (kind, show(off), info['name']))
    an.hooks['access'].append(acc)
