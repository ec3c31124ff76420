"""Ownership of heap blocks along every path: released at most once, never used afterwards, nothing left behind."""
import lin as L
from lin import K, V, ZERO, ONE, add, sub, scale, is_const, single, show
import absint as A


def attach(a, only=None, track=True):
    """report double, interior and wild releases and uses of released or out-of-scope blocks"""
    def fr(an, st, ins, base, p, kind):
        st.ghost.setdefault('freed', ())
        if kind != 'ok':
            who = an.regions.get(base, {}).get('where', '')
            if kind == 'wild' and only:
                return
            an.report(st, ins, 'free-' + kind, 'release of %s: %s%s' % (show(p), {
                'double': 'already released (%s)' % st.freed.get(base), 'interior': 'not the start of a block',
                'notheap': 'not a heap block', 'wild': 'not a known block'}[kind], ', block from ' + who if who else ''))

    def uaf(an, st, ins, base, off, size, kind):
        an.report(st, ins, 'use-after-free', '%s of %s+%s after it was released (%s)' % (kind, L.show_term(L.term(base)), show(off), st.freed.get(base)))

    def al(an, st, ins, y, size, name):
        if y is not None:
            st.ghost['#heap%d' % y] = V(y)
    a.hooks['free'].append(fr)
    a.hooks['uaf'].append(uaf)
    if track:
        a.hooks['alloc'].append(al)


def blocks(a, e):
    """heap blocks obtained on the path to this end"""
    out = []
    for k, v in e.ghost.items():
        if k.startswith('#heap'):
            out.append(int(k[5:]))
    return out


def nulls(a):
    """report every access through, and call of, a null pointer"""
    def acc(an, st, ins, base, off, size, kind):
        if base is None and st.eq0(off):
            an.report(st, ins, 'null-use', '%s through a null pointer' % kind)
        elif base is None and is_const(st.norm(off)) and abs(st.norm(off)[0]) < 1 << 16:
            an.report(st, ins, 'null-use', '%s through a null pointer' % kind)

    def call(an, st, ins, name, tgt, args):
        if name is None and is_const(st.norm(tgt)):
            an.report(st, ins, 'null-call', 'call of a null function pointer')
            st.dead = True
    a.hooks['access'].append(acc)
    a.hooks['call'].append(call)


def reach(a, st, roots):
    """bases of the regions reachable through memory from the given ones"""
    seen, todo = set(), [r for r in roots if r is not None]
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        r = st.mem.get(b)
        if r is None:
            continue
        snaps = [r]
        while snaps:
            r = snaps.pop()
            for o, (sz, v, q) in r.cells.items():
                if v[0] == 'agg':
                    continue
                y = A.baseof(st.norm(v))
                if y is not None:
                    todo.append(y)
            for rg in r.ranges:
                for x in rg:
                    if isinstance(x, tuple) and len(x) == 3 and isinstance(x[2], A.Region):
                        snaps.append(x[2])
    return seen


def leaks(a, e, keep=()):
    return [y for y in blocks(a, e) if y not in e.freed and y not in keep]


def where(a, y):
    return a.regions[y]['where']


def bounds(a, kinds=('heap', 'stack', 'va', 'arg', 'global'), count=None):
    """every access lies inside the block it starts from; blocks of known size only"""
    def acc(an, st, ins, base, off, size, kind):
        info = an.regions.get(base)
        if base is None or info is None or info.get('size') is None or info['kind'] not in kinds:
            return
        if count is not None:
            count[0] += 1
        off, size = st.norm(off), st.norm(size)
        if is_const(size) and size[0] == 0:
            return
        sz = st.norm(info['size'])
        lo = st.ge0(off)
        hi = st.ge0(sub(sub(sz, off), size))
        if not lo or not hi:
            an.report(st, ins, 'out-of-bounds', '%s of %s bytes at offset %s of %s of %s bytes (%s)' % (kind, show(size), show(off), info['name'], show(sz), info.get('where', '')))
    a.hooks['access'].append(acc)
