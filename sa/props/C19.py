from core import *
import threads, flow, atomics, ir, locks
import absint as A

EXPLANATION = ('The lock and unlock operations are interpreted abstractly from every content of the lock word while other threads may change it before '
               'each access: a return from lock needs a read-modify-write that found the word clear, set it, and acquires; unlock clears it once with '
               'release. Clients sharing data under locks and ready marks must be free of races by happens-before in every schedule of the thread model, '
               'and every function of the library that takes a lock gives it back on every path, with no jump out in between.')


def word(ctx, mod, client, rule):
    """lock or unlock on a word of unknown content that others keep changing"""
    P = V(L.sym(('arg', 'm'), True, lo=1))
    pb = single(P)
    a = ctx.an(mod, unroll=3)
    a.max_steps = 20000

    def access(an, st, ins, base, off, size, kind):
        if base != pb:
            return
        order = ins.x if ins.op in ('load', 'store') else ins.x[1] if ins.op in ('atomicrmw', 'cmpxchg') else None
        if order is None:
            an.report(st, ins, 'plain', 'the lock word is accessed by an operation that is not atomic')
            return
        w = V(L.fresh('env', lo=0, hi=1))
        an.store(st, pb, ZERO, 1, w)
        st.ghost['#env'] = w
        ctx.count(rule, 1)

    def store(an, st, ins, base, off, size, val):
        if base == pb:
            st.ghost['#was'] = st.ghost['#env'] if ins.op != 'store' else K(-1)
            st.ghost['#set'] = st.norm(val)
            st.ghost['how'] = ins.x if ins.op == 'store' else ins.x[1]
            st.ghost['n'] = min(st.ghost.get('n', 0) + 1, 2)
            if client == 'wl_lock':
                v = st.norm(val)
                x = st.clone()
                if v != ONE and v != st.norm(st.ghost['#env']) and x.assume_eq0(v):
                    an.report(st, ins, 'clears', 'locking may clear a lock another thread holds')
    a.hooks['access'].append(access)
    a.hooks['store'].append(store)
    if not ctx.start(a, client, [P]):
        return
    ctx.pull(a, rule)
    es = [e for e in ctx.ends(a) if e.end[0] == 'return']
    ctx.ok(rule, bool(es), client + ':ends', '%s never returns' % client)
    for e in es:
        w = e.ghost.get('#was')
        if not ctx.ok(rule, w is not None, client + ':write', 'returns without having written the lock word', e.end[1], e.path()):
            continue
        v = e.norm(e.ghost['#set'])
        if client == 'wl_lock':
            ctx.ok(rule, not e.clone().assume_ne0(w), 'lock:entered', 'the lock is entered although the word was not found clear', e.end[1], e.path())
            ctx.ok(rule, is_const(v) and v[0] != 0, 'lock:set', 'the lock is entered without setting the word', e.end[1], e.path())
            ctx.ok(rule, e.ghost['how'] in atomics.RANK['acquire'], 'lock:acquire', 'the lock is entered with order %s, which does not acquire' % e.ghost['how'], e.end[1], e.path())
        else:
            ctx.ok(rule, is_const(v) and v[0] == 0, 'unlock:clear', 'unlocking leaves %s in the word' % show(v), e.end[1], e.path())
            ctx.ok(rule, e.ghost['how'] in atomics.RANK['release'], 'unlock:release', 'unlocking uses order %s, which does not release' % e.ghost['how'], e.end[1], e.path())
            ctx.ok(rule, e.ghost['n'] == 1, 'unlock:once', 'unlocking writes the word more than once', e.end[1], e.path())
        ctx.sample('%s: word found %s, set to %s, order %s' % (client, show(e.norm(w)), show(v), e.ghost['how']))


def only(mod, w):
    c = {flow.callee(i) for i in flow.calls(mod.funcs[w])} - {None}
    c = {x for x in c if not x.startswith('llvm.')}
    if len(c) != 1:
        raise Anchor('%s calls %s: the lock operation cannot be told' % (w, ', '.join(sorted(c)) or 'nothing'))
    return flow.base(c.pop())


class Held:
    """locks held, by word and by thread"""

    def __init__(s, lock, unlock):
        s.lock, s.unlock = lock, unlock

    def __call__(s, a):
        a.hooks['call'].append(s.call)
        a.hooks['ret'].append(s.ret)

    def key(s, st, p):
        return show(st.norm(p))

    def call(s, an, st, ins, name, tgt, args):
        name = flow.base(name)
        if name not in (s.lock, s.unlock):
            return
        h = dict(st.ghost.get('held', {}))
        k, t = s.key(st, args[0]), threads.tid(st)
        if name == s.lock:
            if h.get(k) is not None:
                an.report(st, ins, 'lock-twice', 'takes a lock %s already holds' % ('this thread' if h[k][0] == t else 'a thread that has ended'))
            h[k] = (t, an.m.where(ins), st.top().fn.name)
        else:
            if h.get(k, (None,))[0] != t:
                an.report(st, ins, 'unlock-free', 'gives back a lock this thread does not hold')
            h.pop(k, None)
        st.ghost['held'] = h

    def ret(s, an, st, name, v, ins):
        for k, (t, w, f) in st.ghost.get('held', {}).items():
            if f == name and t == threads.tid(st):
                an.report(st, ins, 'lock-kept', '%s returns with the lock it took at %s' % (name, w))

    def judge(s, ctx, a, rule, client):
        for e in ctx.ends(a):
            for k, (t, w, f) in e.ghost.get('held', {}).items():
                ctx.bad(rule, 'held:' + client, 'a lock taken at %s is never given back' % w, w, e.path())


def pairs(ctx, mod, lock, unlock):
    """every function that takes a lock gives it back on every path and cannot be left in between"""
    rule = 'locks given back'
    ends = {'abort', '__assert_fail', '_exit', '_Exit'}     # nothing runs after these
    nr = flow.noreturn(mod) - ends
    D = locks.Depth(mod, lock, unlock)
    called = {flow.callee(i) for f in mod.funcs.values() for i in flow.calls(f)}
    entry = D.entry()
    found = []
    for n in sorted(D.plain):
        if n.startswith('wl_') or not D.takes(n) and D.delta[n] == {0} and not entry[n]:
            continue
        found.append(n)
        where = mod.where((D.takes(n) or list(flow.calls(mod.funcs[n])))[0])
        d = D.delta[n]
        ctx.ok(rule, len(d) <= 1, 'kept:%s' % n, '%s can return with its lock held or without, depending on the path' % n, where)
        ctx.ok(rule, max(d or {0}) <= 0 or mod.funcs[n].internal and n in called, 'kept:%s' % n, '%s returns with its lock held' % n, where)
        ctx.ok(rule, min(d or {0}) >= 0 or mod.funcs[n].internal and n in called, 'released:%s' % n, '%s gives back a lock it did not take' % n, where)
        for b, j, ins, ds in D.at(n):
            c = flow.callee(ins)
            if c is None or flow.base(c) in (lock, unlock) or max(ds) + entry[n] <= 0 or c in ends:
                continue
            r = flow.reachable(mod, [c])
            out = [c] if c in nr else sorted(r & nr) + sorted({flow.callee(i) for g in r for i in flow.calls(mod.funcs[g])} & nr)
            ctx.ok(rule, not out, 'thrown:%s:%s' % (n, c), '%s calls %s with its lock held, which may leave it through %s' % (n, c, ', '.join(out[:3])), mod.where(ins))
    ctx.extra['functions_around_locks'] = found
    return len(found)


def run(ctx):
    mod = ctx.mod('w_lock.c', 'w_thr.c')
    word(ctx, mod, 'wl_lock', 'entering a lock')
    word(ctx, mod, 'wl_unlock', 'leaving a lock')
    for c, (args, ev) in threads.LOCKS.items():
        threads.check(ctx, mod, c, args, ev, 'ordering in ' + c)
    lock, unlock = only(mod, 'wl_lock'), only(mod, 'wl_unlock')
    ctx.extra['functions_taking_locks'] = pairs(ctx, mod, lock, unlock)
    for table in (threads.FUTURES, threads.ERRORS, threads.GROUPS):
        for c, (args, ev) in table.items():
            h = Held(lock, unlock)
            a = threads.check(ctx, mod, c, args, ev, 'locks and ready marks in ' + c, extra=h)
            h.judge(ctx, a, 'locks and ready marks in ' + c, c)
