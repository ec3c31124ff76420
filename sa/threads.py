"""Threads: an analysed thrd_create runs the start routine at once or later; every access is ordered by happens-before.

Each created thread runs as a whole either when it is created or when its creator yields or joins it. Which of the two, and
in which order, is explored in full; what could happen in between is decided by vector clocks: two accesses of different
threads to overlapping bytes, one of them a write and not both atomic, must be ordered by creation, join, or a release
operation whose value an acquire operation reads. Thread-local variables are one region per thread."""
import lin as L
from lin import K, V, ZERO, ONE, add, sub, is_const, single, show
import absint as A
import models as M

FIRST = 1000
ACQ = ('acquire', 'acq_rel', 'seq_cst')
REL = ('release', 'acq_rel', 'seq_cst')


def tid(st):
    t = st.ghost.get('tids', ())
    return t[-1][0] if t else 0


def clock(st, t=None):
    t = tid(st) if t is None else t
    return st.ghost.get('vc', {}).get(t) or {t: 1}


def setclock(st, t, c):
    vc = dict(st.ghost.get('vc', {}))
    vc[t] = c
    st.ghost['vc'] = vc


def merge(a, b):
    r = dict(a)
    for k, v in b.items():
        if v > r.get(k, 0):
            r[k] = v
    return r


def tick(st, t):
    c = dict(clock(st, t))
    c[t] = c.get(t, 0) + 1
    setclock(st, t, c)


class Threads:
    def __init__(s, fail=0, now=True, later=True, races=True, ordered=False):
        s.fail, s.now, s.later, s.races, s.ordered = fail, now, later, races, ordered
        s.checked = [0, 0]       # accesses, pairs compared

    # ------------------------------------------------------------ scheduling
    def threads(s, st):
        return st.ghost.get('thr', {})

    def put(s, st, t, **kw):
        d = dict(s.threads(st))
        d[t] = dict(d.get(t, {}), **kw)
        st.ghost['thr'] = d

    def pending(s, st):
        p = [t for t, d in sorted(s.threads(st).items()) if d['state'] == 'pending']
        return p[:1] if s.ordered else p

    def run(s, an, st, ins, t, then=None):
        d = s.threads(st)[t]
        name = an.fname_of(d['fn'])
        if name not in an.m.funcs:
            an.report(st, ins, 'thread-start', 'a thread is started at %s, which is no function' % show(d['fn']))
            return False
        s.put(st, t, state='running')
        st.log('%s: thread %d runs' % (an.m.where(ins), t))
        mask = st.ghost.get('mask')
        st.ghost['tids'] = st.ghost.get('tids', ()) + ((t, len(st.frames)),)
        st.ghost['mask'] = V(L.sym(('arg', 'mask_of_thread_%d' % t)))

        def back(an, st, v):
            st.ghost['tids'] = st.ghost['tids'][:-1]
            if mask is None:
                st.ghost.pop('mask', None)
            else:
                st.ghost['mask'] = mask
            s.put(st, t, state='done')
            st.log('thread %d has ended' % t)
            if then:
                then(an, st)
        an.push(st, name, [d['arg']], None, onret=back)
        return True

    def m_create(s, an, st, ins, a):
        me = tid(st)
        t = max(list(s.threads(st)) + [0]) + 1
        out = []
        if st.ghost.get('cfail', 0) < s.fail:
            x = st.clone()
            x.ghost['cfail'] = x.ghost.get('cfail', 0) + 1
            x.log('%s: the thread cannot be started' % an.m.where(ins))
            out.append((x, K(2)))
        s.put(st, t, fn=st.norm(a[1]), arg=st.norm(a[2]), state='pending', joined=False, by=me)
        setclock(st, t, merge(clock(st, me), {t: 1}))
        tick(st, me)
        b, o = an.access(st, ins, a[0], K(8), 'store')
        if b is not None:
            an.store(st, b, o, 8, K(FIRST + t))
        if s.later:
            x = st.clone() if s.now else st
            x.log('%s: thread %d will run later' % (an.m.where(ins), t))
            out.append((x, ZERO))
        if s.now:
            if ins.dst:
                st.top().regs[ins.dst] = ZERO
            if s.run(an, st, ins, t):
                an.work.append(st)
        return out

    def m_yield(s, an, st, ins, a):
        p = s.pending(st)
        if not p:
            if tid(st) == 0:
                an.report(st, ins, 'waits-forever', 'waits for a thread that has ended or was never started')
            return []
        for t in p:
            x = st.clone()
            if s.run(an, x, ins, t):
                an.work.append(x)
        return []

    def m_join(s, an, st, ins, a):
        v = st.norm(a[0])
        t = v[0] - FIRST if is_const(v) else None
        d = s.threads(st).get(t)
        if d is None:
            an.report(st, ins, 'join-unknown', 'joins %s, which is no thread that was started' % show(v))
            return [(st, K(2))]
        if d['joined']:
            an.report(st, ins, 'join-twice', 'a thread is joined a second time')
            return [(st, K(2))]

        def done(an, st):
            s.put(st, t, joined=True)
            setclock(st, tid(st), merge(clock(st), clock(st, t)))
            if ins.dst:
                st.top().regs[ins.dst] = ZERO
        if d['state'] == 'pending':
            if s.run(an, st, ins, t, done):
                an.work.append(st)
            return []
        if d['state'] == 'running':
            an.report(st, ins, 'join-self', 'joins a thread that waits for this one')
            return []
        done(an, st)
        return [(st, ZERO)]

    def m_exit(s, an, st, ins, a):
        t = st.ghost.get('tids', ())
        if not t:
            st.ghost['exit'] = ('thrd_exit', 0)
            an.finish(st, 'exit', ins)
            return []
        i = t[-1][1]
        fr = st.frames[i]
        dead = [x for f in st.frames[i:] for x in f.allocas]
        if dead:
            st.freed = dict(st.freed)
            for x in dead:
                st.freed[x] = 'out of scope since the thread ended'
        st.frames = st.frames[:i]
        for f in st.frames:
            f.owner = None
        fr.onret(an, st, a[0])
        an.work.append(st)
        return []

    def m_longjmp(s, an, st, ins, a):
        t = st.ghost.get('tids', ())
        if t:
            buf = st.norm(a[0])
            j = st.jmp.get(buf)
            if j is not None and len(j[0]) <= t[-1][1]:
                an.report(st, ins, 'jump-to-other-thread', 'a worker jumps into a function of the thread that created it')
                return []
        return M.m_longjmp(an, st, ins, a)

    def m_tls(s, an, st, ins, a):
        t = tid(st)
        y = single(st.norm(a[0]))
        k = L.term(y)
        if t == 0 or not k or k[0] != 'glob':
            return [(st, a[0])]
        z = L.sym(('glob', k[1], t), True, lo=1)
        if z not in an.regions:
            info = dict(an.regions[y])
            info['name'] = '%s of thread %d' % (info['name'], t)
            an.regions[z] = info
        return [(st, V(z))]

    def m_alloc(s, f):
        def m(an, st, ins, a):
            if tid(st) == 0:
                return f(an, st, ins, a)
            keep, an.alloc_fail = an.alloc_fail, False
            r = f(an, st, ins, a)
            an.alloc_fail = keep
            return r
        return m

    def m_self(s, an, st, ins, a):
        return [(st, K(FIRST + tid(st)))]

    def models(s):
        return {'thrd_create': s.m_create, 'thrd_yield': s.m_yield, 'thrd_join': s.m_join, 'thrd_exit': s.m_exit,
                'thrd_current': s.m_self, 'thrd_cpu_count': lambda an, st, ins, a: [(st, K(2))],
                'longjmp': s.m_longjmp, 'siglongjmp': s.m_longjmp, '_longjmp': s.m_longjmp,
                'llvm.threadlocal.address.p0': s.m_tls, 'rpmalloc_init': M.m_zero, 'rpmalloc_thread_finalize': M.m_zero,
                'malloc': s.m_alloc(M.m_malloc), 'calloc': s.m_alloc(M.m_calloc), 'realloc': s.m_alloc(M.m_realloc)}

    # ------------------------------------------------------------ happens-before
    def attach(s, an):
        if s.races:
            an.hooks['access'].append(s.acc)
            an.hooks['free'].append(s.freed)

    def acc(s, an, st, ins, base, off, size, kind):
        if base is None or not s.threads(st) or 'exit' in st.ghost:
            return
        info = an.regions.get(base)
        if info is not None and (info['kind'] == 'func' or info['name'] == 'errno'):
            return
        order = None
        atomic = False
        if ins.op in ('load', 'store'):
            order, atomic = ins.x, ins.x is not None
        elif ins.op in ('atomicrmw', 'cmpxchg'):
            order, atomic = ins.x[1], True
        off = st.norm(off)
        write = kind not in ('load', 'memcpy-src')
        me = tid(st)
        if atomic:
            sv = dict(st.ghost.get('sv', {}))
            k = (base, off)
            if order in ACQ and kind in ('load', 'rmw') and k in sv:
                setclock(st, me, merge(clock(st), sv[k]))
            if kind == 'store':
                sv.pop(k, None)
            if write and order in REL:
                sv[k] = merge(sv.get(k, {}), clock(st))
            st.ghost['sv'] = sv
        s.note(an, st, ins, base, off, st.norm(size), write, atomic, kind)
        if atomic and write and order in REL:
            tick(st, me)

    def freed(s, an, st, ins, base, p, kind):
        if base is None or kind != 'ok' or not s.threads(st) or 'exit' in st.ghost:
            return
        s.note(an, st, ins, base, None, None, True, False, 'release')

    def note(s, an, st, ins, base, off, size, write, atomic, kind):
        me = tid(st)
        c = clock(st)
        key = 'sh%d' % base
        old = st.ghost.get(key, ())
        s.checked[0] += 1
        keep = []
        for e in old:
            eo, es, et, ec, ew, ea, ek, ew2 = e
            if et != me:
                s.checked[1] += 1
                if (write or ew) and not (atomic and ea) and ec > c.get(et, 0) and s.overlap(an, st, off, size, eo, es):
                    an.report(st, ins, 'race', '%s of %s%s by thread %d is not ordered with the %s by thread %d at %s' % (
                        kind, an.regions.get(base, {}).get('name', L.show_term(L.term(base))), '+' + show(off) if off is not None else '', me, ek, et, ew2))
            elif eo == off and es == size and (write or not ew) and (atomic == ea):
                continue
            keep.append(e)
        keep.append((off, size, me, c.get(me, 1), write, atomic, kind, an.m.where(ins)))
        st.ghost[key] = tuple(keep)

    def overlap(s, an, st, o1, s1, o2, s2):
        if o1 is None or o2 is None:
            return True
        return an.rel(st, o1, s1, st.norm(o2), st.norm(s2)) != 'dis'


def unjoined(e):
    return [t for t, d in sorted(e.ghost.get('thr', {}).items()) if not d['joined']]


R, E = 'return', 'exit'
X = 'range_error'
# client -> (argument names, the event sequences it may go through)
FUTURES = {
    'wh_value': ('', {(41, R)}), 'wh_null': ('', {(1, R)}), 'wh_arg': ('x', {(1, R)}), 'wh_defer': ('', {(42, R)}), 'wh_scope': ('', {(43, R)}),
    'wh_caught': ('', {(46, R)}), 'wh_recover': ('', {(1, R)}), 'wh_recover_late': ('', {(2, R)}), 'wh_nested': ('', {(42, R)}),
    'wh_args': ('', {(7, R)}), 'wh_returning': ('', {(7, 8, R)}), 'wh_returning_two': ('', {(7, 8, R)}), 'wh_returning_not': ('', {(46, R)}),
    'wh_two': ('', {(41, 42, R), (42, 41, R)}), 'wh_wait': ('', {(1, 41, R)}), 'wh_done': ('', {(1, 41, R), (2, 41, R)}),
    'wh_start_fails': ('', {(41, 21, R)}), 'wh_meanwhile': ('', {(1, 2, 42, 5, 21, R)}), 'wh_own': ('', {(44, 1, 5, 21, R), (2, 5, 21, R)}),
    'wh_big': ('', {(60, 61, 62, 63, R)}), 'wh_same': ('', {(7, 8, R)}), 'wh_abandon': ('', {(1, R)}), 'wh_abandon_args': ('', {(1, R)}), 'wh_get_twice': ('', {(41, 2, R)}), 'wh_nested_abandon': ('', {(48, R)}),
}
ERRORS = {
    'wh_throw': ('', {(X, 'null', 2, R)}), 'wh_throw_cleanup': ('', {(X, 'null', 2, R)}), 'wh_panic': ('', {('panic', 'boom', 2, R)}),
    'wh_maybe': ('', {(44, R), (1, R)}), 'wh_guard': ('', {(44, 21, R), (21, 1, R)}), 'wh_uncaught': ('', {(21, E)}),
    'wh_args_throw': ('', {(2, R)}), 'wh_returning_throw': ('', {(2, R)}), 'wh_two_throw': ('', {(2, 41, R)}),
    'wh_rounds': ('', {(a, b, c, R) for a in (44, 1) for b in (44, 1) for c in (44, 1)}), 'wh_own': ('', {(44, 1, 5, 21, R), (2, 5, 21, R)}),
    'wh_recover': ('', {(1, R)}), 'wh_recover_late': ('', {(2, R)}), 'wh_abandon_error': ('', {(E,)}), 'wh_get_failed_twice': ('', {(3, 2, R)}),
    'wj_throw': ('', {(X, 'null', 41, 42, 4, R)}), 'wj_throw_two': ('', {(X, 'null', 42, R)}), 'wj_throw_guard': ('', {(21, 2, R)}),
    'wj_twice_throw': ('', {(2, 3, 41, R)}), 'wj_then_failed': ('', {(2, 0, 41, 2, 42, R)}), 'wj_then_first': ('', {(2, 1, 42, R)}), 'wj_then_last': ('', {(2, 0, 41, R)}),
}
GROUPS = {
    'wj_one': ('', {(41, R)}), 'wj_arg': ('x', {(1, R)}), 'wj_three': ('', {(41, 42, 43, R)}), 'wj_none': ('', {(1, R)}), 'wj_args': ('', {(7, 11, R)}),
    'wj_args_unread': ('', {(41, R)}), 'wj_returning': ('', {(7, 8, R)}), 'wj_returning_other': ('', {(46, 7, 8, R)}), 'wj_big': ('', {(60, 61, 62, 63, 7, 8, R)}), 'wj_big_again': ('', {(60, 61, 62, 63, R)}), 'wj_twice': ('', {(41, R)}),
    'wj_again': ('', {(41, 42, R)}), 'wj_finish': ('', {(1, R)}), 'wj_unsynced': ('', {(1, R)}), 'wj_unsynced_args': ('', {(1, R)}),
    'wj_then': ('', {(0, 41, 1, 42, R)}), 'wj_then_before': ('', {(1, R)}), 'wj_start_fails': ('', {(1, 41, 42, 21, R)}),
    'wj_start_fails_ex': ('', {(1, 7, R)}), 'wj_own': ('', {(41, 5, 5, 21, 9, R)}), 'wj_two_groups': ('', {(42, R)}), 'wj_group_then_future': ('', {(42, R)}),
}
# what may happen besides when a thread cannot be started / memory runs out
FAILING = {
    'wh_start_fails': {('future_error', 21, R), ('panic', 21, R), (41, R)}, 'wj_start_fails': {('future_error', 21, R), ('panic', 21, R), ('future_error', 41, 21, R), ('panic', 41, 21, R), (1, 41, 42, R)},
    'wj_start_fails_ex': {('future_error', R), ('panic', R)},
}


def check(ctx, mod, client, args, expect, rule, fail=0, oom=0, marks=False, extra=None, joins=True, **kw):
    """analyse one client under every schedule of the model; events, ownership, joins and races are all judged"""
    import trace, text, life
    import core
    T = Threads(fail=fail, **kw)
    md = {**trace.MODELS, **text.MODELS, **T.models()}
    a = ctx.an(mod, models=md, oom=oom, unroll=20)
    a.max_steps = 6000000
    life.attach(a, only=True)
    life.nulls(a)
    life.bounds(a, kinds=('heap', 'stack'))
    T.attach(a)
    if extra:
        extra(a)
    M_ = None
    if marks:
        M_ = Marks()
        a.hooks['access'].append(M_.acc)
    if not ctx.start(a, client, [core.arg(x) for x in args]):
        ctx.pull(a, rule)
        return a
    ctx.pull(a, rule)
    tr = trace.traces(ctx, a)
    may = FAILING.get(client, set()) if fail or oom else set()
    for t, es in sorted(tr.items(), key=lambda x: str(x[0])):
        bad = t not in expect and t not in may and not ((fail or oom) and t[-1] == E)
        for e in es[:1]:
            ctx.ok(rule, not bad, '%s:%s' % (client, '.'.join(str(x) for x in t)), '%s can go through events %s, which is not allowed' % (client, ' '.join(str(x) for x in t)), e.end[1], e.path())
    for e in ctx.ends(a, R, E):
        if e.end[0] == E and ('exit' in e.ghost) and (e.ghost.get('cfail') or e.ghost.get('oom')):
            continue
        if not (e.ghost.get('cfail') or e.ghost.get('oom')):
            t = e.ghost.get('tr', ()) + (trace.ending(e),)
            ctx.ok(rule, t in expect, '%s:%s' % (client, '.'.join(str(x) for x in t)), '%s can go through events %s although nothing failed' % (client, ' '.join(str(x) for x in t)), e.end[1], e.path())
        for t in unjoined(e) if joins else ():
            ctx.bad(rule, 'unjoined:' + client, 'a thread that was started is never joined', e.end[1], e.path())
        ctx.count(rule, len(e.ghost.get('thr', {})))
        if e.end[0] == R:
            shared = life.reach(a, e, [y for y, i in a.regions.items() if i['kind'] == 'global' and not getattr(a.m.globals.get(i['name']), 'tls', True)])
            for y in life.leaks(a, e, shared):
                ctx.bad(rule, 'leak:%s:%s' % (client, life.where(a, y)), 'a block obtained in %s is never released' % client, life.where(a, y), e.path())
        if M_ is not None:
            M_.judge(ctx, a, e, rule, client)
    for t in expect if T.now and T.later else ():
        ctx.ok(rule, t in tr, '%s:missing:%s' % (client, '.'.join(str(x) for x in t)), '%s never goes through events %s' % (client, ' '.join(str(x) for x in t)))
    ctx.extra['accesses_ordered'] = ctx.extra.get('accesses_ordered', 0) + T.checked[0]
    ctx.extra['pairs_compared'] = ctx.extra.get('pairs_compared', 0) + T.checked[1]
    ctx.sample('%s: %d schedules; %s' % (client, len(a.ends), '; '.join(' '.join(str(x) for x in t) for t in sorted(tr, key=str)[:4])))
    return a


LOCKS = {
    'wl_count': ('', {(2, R)}), 'wl_count_three': ('', {(5, R)}), 'wl_two': ('', {(3, 3, R)}), 'wl_ready': ('', {(5, R)}),
    'wl_ready_explicit': ('', {(5, R)}), 'wl_ready_clear': ('', {(5, R)}), 'wl_word': ('', {(6, R)}), 'wl_word_explicit': ('', {(6, R)}), 'wl_word_count': ('', {(6, R)}),
}

BESIDE = {
    'wv_var': ('', {(1, 7, 7, 111, R)}), 'wv_var_before': ('', {(1, 7, 111, R)}), 'wv_var_two': ('', {(1, 2, 2, R)}), 'wv_couple': ('', {(6, 1, 111, R)}),
    'wv_update': ('', {(1, 2, 11, 8, R)}), 'wv_update_before': ('', {(1, 0, 11, R)}), 'wv_var_threads': ('', {(2, 2, 1, R)}), 'wv_start': ('', {(111, 1, R)}),
    'wv_scope': ('', {(1, 1, 0, 1, 2, R)}), 'wv_handles': ('', {(1, 0, 1, 1, 1, R)}), 'wv_mem': ('', {(5, 7, R)}), 'wv_mid': ('', {(1, -9, R)}),
    'wv_try': ('', {(X, 3, 'logic_error', 1, R)}), 'wv_try_quiet': ('', {(4, 'logic_error', R)}), 'wv_throw_beside': ('', {('logic_error', 'null', X, 1, R)}),
    'wv_cleanup_beside': ('', {(0, X, 1, 0, 0, 1, R)}), 'wv_in_catch': ('', {('logic_error', 'null', 'logic_error', R)}),
    'wv_panic_beside': ('', {('mine', 'mine', 'theirs', R)}), 'wv_not_mine': ('', {(E,)}), 'wv_init_in_try': ('', {(0, 0, 2, R)}),
    'wv_guard_quiet': ('', {(0, 1, 2, R)}), 'wv_guard_beside': ('', {(1, 1, 1, R)}), 'wv_guard_throws': ('', {(0, X, 1, R)}), 'wv_hooks': ('', {(1, 1, R)}),
    'wv_hook_own': ('', {(1, 3, 1, R)}), 'wv_protect': ('', {(1, 41, 2, R)}), 'wv_protect_beside': ('', {(41, 2, 3, R)}), 'wv_protect_kept': ('', {(3, 2, R)}),
    'wv_text': ('', {(1, 1, R)}), 'wv_code': ('', {(1, 1, R)}), 'wv_arena': ('', {(7, 5, R)}), 'wv_returning': ('', {(41, 7, 7, R)}),
}


class Marks:
    """an atomic flag another thread waits on is set exactly once by the thread that owns it"""

    def acc(s, an, st, ins, base, off, size, kind):
        if base is None or not st.ghost.get('thr'):
            return
        t = tid(st)
        if ins.op == 'load' and ins.x is not None:
            st.ghost['aw'] = dict(st.ghost.get('aw', {}), **{'%d.%s.r.%d' % (base, off, t): 1})
        elif ins.op in ('atomicrmw', 'cmpxchg') or (ins.op == 'store' and ins.x is not None):
            o = ins.ops[0] if ins.op == 'store' else ins.ops[1]
            x = an.val(st, st.frames[-1], o)
            if not (is_const(st.norm(x)) and st.norm(x)[0] == 0):
                k = '%d.%s.w.%d' % (base, off, t)
                d = dict(st.ghost.get('aw', {}))
                d[k] = d.get(k, 0) + 1
                st.ghost['aw'] = d

    def judge(s, ctx, a, e, rule, client):
        aw = e.ghost.get('aw', {})
        for k in aw:
            p = k.rsplit('.', 2)
            if p[1] != 'r':
                continue
            for q, n in aw.items():
                b = q.rsplit('.', 2)
                if b[0] == p[0] and b[1] == 'w' and b[2] != p[2]:
                    ctx.ok(rule, n == 1, 'marked:' + client, 'a flag another thread waits for is set %d times' % n, e.end[1], e.path())
