"""Text functions of the library, analysed with texts of any length and any content (strings.py): where they write, where what
they return ends, how long it is, and what a list of pieces looks like."""
import itertools
import time
import absint as A
import lin as L
import life
import strings
import text
from lin import K, V, ZERO, ONE, add, sub, scale, is_const, single, show


class Job:
    """one client: its arguments, what must hold of each result, and the ways in which its loops can be looked at"""

    def __init__(s, client, args, want=None, keep=(), plain=False, oom=0, setup=None, extra=None, rank=False):
        s.client, s.args, s.want, s.keep, s.plain, s.oom, s.setup, s.extra, s.rank = client, args, want, keep, plain, oom, setup, extra, rank


def slots(T, an):
    """'#slots': the bytes from the start of a block that hold pointers to pieces of a text in the same block, each piece starting where
    the text starts or behind a match; '#cuts': matches whose first byte was overwritten by a terminator"""
    def store(an, st, ins, base, off, size, v):
        if base is None or an.regions.get(base, {}).get('kind') != 'heap' or v[0] == 'agg':
            return
        off = st.norm(off)
        if size == 8:
            k = '#slots%d' % base
            cur = st.norm(st.ghost.get(k, ZERO))
            if piece(st, base, v):
                if st.eq0(sub(off, cur)):
                    st.ghost[k] = add(cur, K(8))
                    return
            elif not st.ge0(sub(off, cur)):
                st.ghost[k] = off
        elif size == 1 and st.eq0(v):
            for g in list(st.ghost):
                if g.startswith('#at%d_' % base):
                    i = int(g.split('_')[1])
                    key = [x for x, n in T.ids.items() if n == i][0]
                    ln = K(len(key)) if isinstance(key, bytes) else T.args[key]
                    if st.eq0(st.norm(st.ghost['#gone' + g[3:]])) and st.eq0(sub(add(off, ln), st.norm(st.ghost[g]))):
                        st.ghost['#cuts' + g[3:]] = add(st.norm(st.ghost.get('#cuts' + g[3:], ZERO)), ONE)

    def piece(st, base, v):
        b, o = T.split(st, v)
        if b != base or '#start%d' % b not in st.ghost:
            return False
        at = [st.ghost['#start%d' % b]] + [st.ghost[g] for g in st.ghost if g.startswith('#at%d_' % b) and st.eq0(st.norm(st.ghost['#gone' + g[3:]]))]
        if not any(st.eq0(st.norm(sub(o, st.norm(x)))) for x in at):
            return False
        z = T.terminator(st, b, o)
        return z is not None and st.ge0(st.norm(sub(z, o)))
    an.hooks['store'].append(store)


BOUND = 1 << 40


class Rank:
    """every loop: a value that grows (or shrinks) with every round and cannot pass a bound that does not change"""

    def __init__(s, an):
        s.seen = {}
        an.hooks['backedge'].append(s.edge)

    def edge(s, an, st, fr, bb, old, new, le):
        if le.ctx is None or le.ctx.ver != le.ver or le.splits < an.split and any(an.ended(st, old.get(k), v) for k, v in new.items()):
            return
        x = st.clone()
        good = set()
        if x.lower(scale(V(le.ctx.T), -1)) >= -BOUND:
            good.add(('rounds',))
        ks = sorted(k for k in new if k in old and new[k][0] != 'agg' and old[k][0] != 'agg')

        def val(v):
            v = x.norm(v)
            b = A.baseof(v)
            return sub(v, V(b)) if b is not None and b in an.regions else v
        for k in ks:
            s.grows(x, (k,), val(old[k]), val(new[k]), good)
        if not good:
            for i, k in enumerate(ks):
                for j in ks[:i]:
                    s.grows(x, (k, j), sub(x.norm(old[k]), x.norm(old[j])), sub(x.norm(new[k]), x.norm(new[j])), good)
        s.seen.setdefault(le.ctx, []).append((le.ver, good, ['%s: %s' % (k, show(sub(x.norm(new[k]), x.norm(old[k])))) for k in ks], x))

    def grows(s, x, k, a, b, good):
        for g in (1, -1):
            if x.ge0(x.norm(sub(scale(sub(b, a), g), ONE))) and x.lower(x.norm(scale(a, -g))) >= -BOUND:
                good.add((k, g))

    def judge(s, ctx, an, what):
        n = 0
        for c, l in s.seen.items():
            l = [x for x in l if x[0] == c.ver and an.live(x[3])]
            if not l:
                continue
            n += 1
            common = set.intersection(*[x[1] for x in l])
            bad = min(l, key=lambda x: len(x[1]))
            ctx.ok('loops of ' + what, bool(common), 'loop:%s' % c.fname, 'nothing is shown to grow with every round of a loop and to stay below a bound; in one round: %s' % '; '.join(bad[2]),
                   '%s %s' % (c.fname, c.hdr), bad[3].path())
        return n


def once(ctx, mod, lay, job, what, pairs=(), jump=(), unroll=1):
    a = ctx.an(mod, models={}, oom=job.oom, unroll=unroll)
    a.deadline = time.time() + (60 if ctx.tier == 'quick' else 240)
    a.split = 3
    T = strings.Texts(a, jump)
    T.pairs = list(pairs)
    S = lay.scope if lay is not None else None
    a.models.update(T.models())
    for x in job.plain or ():
        a.models.pop(x, None)
    if S is not None:
        a.models.update({'raii_local': lambda an, st, ins, x: [(st, S)], 'raii_init': lambda an, st, ins, x: [(st, S)]})
    if job.rank:
        rank = Rank(a)
    else:
        life.attach(a, only=True)
        life.nulls(a)
        life.bounds(a)
        slots(T, a)
    rule = 'result of ' + what
    count = [0, 0]

    def ends(kind):
        def f(an, st, ins, x):
            count[0] += 1
            st.ghost['got'] = st.ghost.get('got', ()) + (kind,)
            if job.want is not None:
                for ok, key, msg in job.want(T, an, st, ins, kind, [st.norm(y) for y in x]):
                    count[1] += 1
                    if not ok:
                        an.report(st, ins, key, msg)
            return [(st, None)]
        return f
    a.models.update({k: ends(k) for k in ('m_text', 'm_list', 'm_value', 'm_block')})
    if job.extra is not None:
        job.extra(T, a)
    args = [T.arg(x) if isinstance(x, str) else x(T) if callable(x) else x for x in job.args]
    ctx.start(a, job.client, ([S] if S is not None else []) + args, setup=lambda an, st: ((lay.empty(an, st) if lay is not None else None), job.setup(T, an, st) if job.setup else None))
    if job.rank:
        ctx.count('loops bounded in ' + what, rank.judge(ctx, a, what))
    else:
        ctx.pull(a, what)
    ctx.count('accesses and results of ' + what, getattr(a, 'naccess', 0) + count[1])
    if getattr(T, 'codes', None) is not None and T.codes.nbits:
        ctx.count('bits traced to the input in ' + what, T.codes.nbits)
    got = set()
    for e in ctx.ends(a):
        ctx.ok('end of ' + what, e.end[0] in ('return', 'exit', 'assert', 'panic', 'longjmp'), 'end:%s:%s' % (job.client, e.end[0]), 'the client ends by %s' % (e.end,), e.end[1], e.path())
        if e.end[0] == 'return':
            got.add(e.ghost.get('got', ()))
    if not got:
        ctx.bad('end of ' + what, 'never:' + job.client, 'the client never finishes')
    return T


def run(ctx, mod, lay, job):
    """analyse in one way of looking at the searches after the other until everything is shown; report what the best one left open"""
    what = job.client

    def mark():
        return len(ctx.fail), {k: list(v) for k, v in ctx.obl.items()}, len(ctx.undecided), len(ctx.ans)

    def cut(m):
        left = (ctx.fail[m[0]:], {k: list(v) for k, v in ctx.obl.items()}, ctx.undecided[m[2]:], ctx.ans[m[3]:])
        del ctx.fail[m[0]:], ctx.undecided[m[2]:], ctx.ans[m[3]:]
        ctx.obl.clear()
        ctx.obl.update(m[1])
        return left
    m = mark()
    best = None
    sites, pairs = [], []
    done = set()
    ways = [((), 1)]
    n = 0
    while ways:
        jump, unroll = ways.pop(0)
        k = (tuple(jump), unroll, tuple(pairs))
        if k in done:
            continue
        done.add(k)
        n += 1
        T = once(ctx, mod, lay, job, what, pairs, jump, unroll)
        if len(ctx.fail) == m[0] and len(ctx.undecided) == m[2]:
            ctx.extra.setdefault('ways_of_looking', {})[what] = '%d%s' % (n, ', searches continued from the match' if jump else '')
            return True
        left = cut(m)
        score = (len(left[2]), len({(x[0], x[2]) for x in left[0]}))
        if best is None or score < best[0]:
            best = (score, left)
        if n > (14 if ctx.tier == 'thorough' else 10):
            break
        new = [x for x in T.sites if x not in sites]
        sites += new
        grew = [x for x in T.pairs if x not in pairs]
        pairs += grew
        if new or grew:
            ways = [(tuple(sites), 1), ((), 1)]
            if 1 < len(sites) <= 3:
                ways += [(c, 1) for r in range(1, len(sites)) for c in itertools.combinations(sites, r)]
            if left[0] and time.time() - ctx.t0 < 150:
                ways += [((), 2), (tuple(sites), 2)]
        if n == 1:
            ways.append(((), 7))
    f, o, u, an = best[1]
    ctx.fail += f
    ctx.obl.clear()
    ctx.obl.update(o)
    ctx.undecided += u
    ctx.ans += an
    return False
