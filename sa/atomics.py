"""Clients for every atomic operation of catomic.h, one per operation, operand type and memory order, and what each must do."""
import lin as L
from lin import K, V, ZERO, ONE, add, sub, is_const, single, show
import absint as A

# what each requested order must at least be in the IR
RANK = {'relaxed': ('monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst'), 'consume': ('acquire', 'acq_rel', 'seq_cst'),
        'acquire': ('acquire', 'acq_rel', 'seq_cst'), 'release': ('release', 'acq_rel', 'seq_cst'), 'acq_rel': ('acq_rel', 'seq_cst'), 'seq_cst': ('seq_cst',)}
LOAD = ('relaxed', 'consume', 'acquire', 'seq_cst')
STORE = ('relaxed', 'release', 'seq_cst')
RMW = ('relaxed', 'consume', 'acquire', 'release', 'acq_rel', 'seq_cst')
CAS = (('relaxed', 'relaxed'), ('acquire', 'relaxed'), ('acquire', 'acquire'), ('release', 'relaxed'), ('acq_rel', 'acquire'), ('seq_cst', 'relaxed'), ('seq_cst', 'seq_cst'))
FETCH = ('add', 'sub', 'or', 'xor', 'and')
GENERIC = [('bool', 'c89atomic_bool', 1), ('char', 'signed char', 1), ('schar', 'signed char', 1), ('uchar', 'unsigned char', 1), ('short', 'short', 2),
           ('ushort', 'unsigned short', 2), ('int', 'int', 4), ('uint', 'unsigned', 4), ('long', 'long', 8), ('ulong', 'unsigned long', 8),
           ('llong', 'long long', 8), ('ullong', 'unsigned long long', 8), ('intptr_t', 'intptr_t', 8), ('uintptr_t', 'uintptr_t', 8),
           ('intmax_t', 'intmax_t', 8), ('uintmax_t', 'uintmax_t', 8), ('size_t', 'size_t', 8), ('ptrdiff_t', 'ptrdiff_t', 8), ('ptr_t', 'void *', 8)]
SIZED = [(str(w), 'c89atomic_uint%d' % w, w // 8) for w in (8, 16, 32, 64)] + [('i%d' % w, 'c89atomic_int%d' % w, w // 8) for w in (8, 16, 32, 64)] + \
        [('f32', 'float', 4), ('f64', 'double', 8), ('ptr', 'void *', 8)]


class Client:
    def __init__(s, name, op, sem, size, order, fail=None, text='', label='', what=None, isfloat=False):
        s.name, s.op, s.sem, s.size, s.order, s.fail, s.text, s.label, s.what, s.isfloat = name, op, sem, size, order, fail, text, label, what, isfloat


def clients():
    out = []

    def put(op, label, sem, obj, val, size, order, expr, fail=None, what=None):
        n = 'wx_%d' % len(out)
        ret = {'load': val, 'store': 'void', 'clear': 'void', 'exchange': val, 'fetch': val, 'tas': val, 'flag': 'int', 'cas': 'int', 'casv': val}[sem]
        pre = '' if ret == 'void' else 'return '
        pars = '%s *p' % obj
        if sem == 'cas':
            pars += ', %s *e, %s v' % (val, val)
        elif sem == 'casv':
            pars += ', %s e, %s v' % (val, val)
        elif sem in ('store', 'exchange', 'fetch'):
            pars += ', %s v' % val
        t = '%s %s(%s) { %s%s; }\n' % (ret, n, pars, pre, expr)
        out.append(Client(n, op, sem, size, order, fail, t, '%s:%s' % (op, label), what, val in ('float', 'double')))

    mo = 'memory_order_'
    co = 'c89atomic_memory_order_'
    for nm, val, size in GENERIC:
        obj = 'atomic_' + nm

        def g(op, sem, expr, order='seq_cst', fail=None, what=None, o=''):
            put(op, nm + (':' + o if o else ''), sem, obj, val, size, order, expr, fail, what)
        g('atomic_load', 'load', 'atomic_load(p)')
        g('atomic_get', 'load', 'atomic_get(%s, p)' % val)
        g('atomic_store', 'store', 'atomic_store(p, v)')
        g('atomic_init', 'store', 'atomic_init(p, v)', 'relaxed')
        g('atomic_exchange', 'exchange', 'atomic_exchange(p, v)')
        for s in ('strong', 'weak'):
            g('atomic_compare_exchange_' + s, 'cas', 'atomic_compare_exchange_%s(p, e, v)' % s, fail='seq_cst', what=s)
            for a, b in CAS:
                g('atomic_compare_exchange_%s_explicit' % s, 'cas', 'atomic_compare_exchange_%s_explicit(p, e, v, %s, %s)' % (s, mo + a, mo + b), a, b, s, a + '/' + b)
        g('atomic_cas', 'cas', 'atomic_cas(p, e, v)', fail='seq_cst', what='strong')
        g('atomic_swap', 'cas', 'atomic_swap(p, e, v)', fail='seq_cst', what='strong')
        if size == 4:
            g('atomic_cas_32', 'cas', 'atomic_cas_32(p, e, v)', fail='seq_cst', what='strong')
        if nm != 'ptr_t':
            for f in FETCH:
                g('atomic_fetch_' + f, 'fetch', 'atomic_fetch_%s(p, v)' % f, what=f)
        for o in LOAD:
            g('atomic_load_explicit', 'load', 'atomic_load_explicit(p, %s)' % (mo + o), o, o=o)
        for o in STORE:
            g('atomic_store_explicit', 'store', 'atomic_store_explicit(p, v, %s)' % (mo + o), o, o=o)
        for o in RMW:
            g('atomic_exchange_explicit', 'exchange', 'atomic_exchange_explicit(p, v, %s)' % (mo + o), o, o=o)
            if nm != 'ptr_t':
                for f in FETCH:
                    g('atomic_fetch_%s_explicit' % f, 'fetch', 'atomic_fetch_%s_explicit(p, v, %s)' % (f, mo + o), o, what=f, o=o)
    for nm, val, size in SIZED:
        fl = nm[0] == 'f'
        ptr = nm == 'ptr'
        obj = 'volatile ' + val if not ptr else 'volatile void *'
        c = lambda op: 'c89atomic_%s_%s' % (op, nm)

        def h(op, sem, args, order='seq_cst', fail=None, what=None, o=''):
            put(c(op), o or '-', sem, obj, val, size, order, '%s(%s)' % (c(op), args), fail, what)
        h('load', 'load', 'p')
        h('store', 'store', 'p, v')
        h('exchange', 'exchange', 'p, v')
        for s in ('strong', 'weak'):
            h('compare_exchange_' + s, 'cas', 'p, e, v', fail='seq_cst', what=s)
            for a, b in CAS:
                h('compare_exchange_%s_explicit' % s, 'cas', 'p, e, v, %s, %s' % (co + a, co + b), a, b, s, a + '/' + b)
        h('compare_and_swap', 'casv', 'p, e, v', fail='seq_cst', what='strong')
        for o in LOAD:
            h('load_explicit', 'load', 'p, ' + co + o, o, o=o)
        for o in STORE:
            h('store_explicit', 'store', 'p, v, ' + co + o, o, o=o)
        for o in RMW:
            h('exchange_explicit', 'exchange', 'p, v, ' + co + o, o, o=o)
        if ptr:
            continue
        for o in STORE:
            h('clear_explicit', 'clear', 'p, ' + co + o, o, o=o)
        for f in FETCH:
            h('fetch_' + f, 'fetch', 'p, v', what=f)
            for o in RMW:
                h('fetch_%s_explicit' % f, 'fetch', 'p, v, ' + co + o, o, what=f, o=o)
        if not fl:
            h('clear', 'clear', 'p')
            h('test_and_set', 'tas', 'p')
            for o in RMW:
                h('test_and_set_explicit', 'tas', 'p, ' + co + o, o, o=o)
    for obj, pre, m in (('atomic_flag', 'atomic_flag', mo), ('c89atomic_flag', 'c89atomic_flag', co)):
        nm = 'flag'
        put(pre + '_test_and_set', nm, 'flag', obj, 'int', 1, 'seq_cst', '%s_test_and_set(p)' % pre)
        put(pre + '_clear', nm, 'clear', obj, 'int', 1, 'seq_cst', '%s_clear(p)' % pre)
        if pre == 'atomic_flag':
            put(pre + '_load', nm, 'load', obj, 'c89atomic_uint8', 1, 'seq_cst', '%s_load(p)' % pre)
        for o in RMW:
            put(pre + '_test_and_set_explicit', o, 'flag', obj, 'int', 1, o, '%s_test_and_set_explicit(p, %s)' % (pre, m + o))
        for o in STORE:
            put(pre + '_clear_explicit', o, 'clear', obj, 'int', 1, o, '%s_clear_explicit(p, %s)' % (pre, m + o))
        for o in LOAD:
            put(pre + '_load_explicit', o, 'load', obj, 'c89atomic_uint8', 1, o, '%s_load_explicit(p, %s)' % (pre, m + o))
    return out


def text(cs):
    return '#include "raii.h"\n' + ''.join(c.text for c in cs)


def same(e, x, y):
    x, y = e.norm(x), e.norm(y)
    if x == y:
        return True
    a, b = single(x), single(y)
    if a is None or b is None:
        return False
    a, b = L.term(a), L.term(b)
    return len(a) == len(b) and a[0] == b[0] and a[0] not in ('arg', 'fresh', 'reg') and all(
        p == q or isinstance(p, tuple) and isinstance(q, tuple) and len(p) == 2 and isinstance(p[1], tuple) and isinstance(q[1], tuple) and same(e, p, q) for p, q in zip(a[1:], b[1:]))


def judge(ctx, mod, c, rule):
    """one client under interference: before each atomic access another thread may have stored anything"""
    P = V(L.sym(('arg', 'p'), True, lo=1))
    Eb = V(L.sym(('arg', 'e'), True, lo=1))
    v = V(L.sym(('arg', 'v')))
    e0 = V(L.sym(('arg', 'e0')))
    pb, eb = single(P), single(Eb)
    a = ctx.an(mod, unroll=3)
    a.max_steps = 20000
    n = [0]

    def access(an, st, ins, base, off, size, kind):
        if base == pb:
            order = ins.x if ins.op in ('load', 'store') else ins.x[1] if ins.op in ('atomicrmw', 'cmpxchg') else None
            n[0] += 1
            if order is None:
                an.report(st, ins, 'plain', 'reads or writes the object without an atomic access')
                return
            if not (is_const(off) and off[0] == 0 and is_const(size) and size[0] == c.size):
                an.report(st, ins, 'width', 'accesses %s bytes at offset %s of an object of %d bytes' % (show(size), show(off), c.size))
                return
            w = V(L.fresh('env'))
            an.store(st, pb, ZERO, c.size, w)
            st.ghost['#env'] = w
            st.ghost['order'] = order
            if ins.op == 'cmpxchg' and c.fail and ins.x[2] not in RANK[c.fail]:
                an.report(st, ins, 'order', 'the order %s for failure is weaker than %s' % (ins.x[2], c.fail))
        elif base == eb:
            if not (is_const(off) and off[0] == 0 and is_const(size) and size[0] == c.size):
                an.report(st, ins, 'width-expected', 'accesses %s bytes at offset %s of an expected value of %d bytes' % (show(size), show(off), c.size))
        elif base is None or a.regions.get(base, {}).get('kind') != 'stack':
            an.report(st, ins, 'other', 'accesses memory that is not its object')

    def store(an, st, ins, base, off, size, val):
        if base == pb:
            st.ghost['writes'] = st.ghost.get('writes', 0) + 1
            if ins.op == 'atomicrmw' or ins.op == 'store' or ins.op == 'cmpxchg':
                o = ins.x if ins.op == 'store' else ins.x[1]
                if c.sem not in ('load',) and o not in RANK[c.order]:
                    an.report(st, ins, 'order', 'the order %s is weaker than %s' % (o, c.order))
    a.hooks['access'].append(access)
    a.hooks['store'].append(store)

    def setup(a, st):
        a.store(st, pb, ZERO, c.size, V(L.sym(('arg', 'initial'))))
        a.store(st, eb, ZERO, c.size, e0)
    args = [P]
    if c.sem == 'cas':
        args += [Eb, v]
    elif c.sem == 'casv':
        args += [e0, v]
    elif c.sem in ('store', 'exchange', 'fetch'):
        args += [v]
    if not ctx.start(a, c.name, args, setup):
        return
    for (key, where), (msg, path) in a.results().items():
        ctx.bad(rule, '%s:%s' % (c.label, key), '%s %s' % (c.op, msg), where, path)
    es = [e for e in ctx.ends(a) if e.end[0] == 'return']
    ctx.ok(rule, bool(es), c.label + ':ends', '%s never returns' % c.op)
    seen = set()
    for e in es:
        env = e.norm(e.ghost['#env']) if '#env' in e.ghost else None
        if not ctx.ok(rule, env is not None, c.label + ':access', '%s returns without an atomic access to its object' % c.op, e.end[1], e.path()):
            continue
        ret = e.ghost.get('$ret')
        ret = e.norm(ret) if ret is not None else None
        now = e.norm(a.load(e, pb, ZERO, c.size))
        writes = e.ghost.get('writes', 0)

        def need(cond, key, msg):
            ctx.ok(rule, cond, '%s:%s' % (c.label, key), '%s %s' % (c.op, msg), e.end[1], e.path())

        def is_(x, y):
            return same(e, x, y)
        if c.sem == 'load':
            need(is_(ret, env), 'result', 'returns %s, not the value loaded' % show(ret))
            need(writes == 0, 'writes', 'changes its object')
            need(e.ghost['order'] in RANK[c.order], 'order', 'the order %s is weaker than %s' % (e.ghost['order'], c.order))
            continue
        if c.sem in ('cas', 'casv'):
            if c.sem == 'cas':
                x = e.clone()
                t1 = x.assume_eq0(ret)
                x = e.clone()
                t2 = x.assume_ne0(ret)
                need(t1 != t2, 'result', 'returns %s' % show(ret))
                won = t2
                exp = e.norm(a.load(e, eb, ZERO, c.size))
            else:
                need(is_(ret, env), 'result', 'returns %s, not the old value' % show(ret))
                won = writes > 0
            seen.add(won)
            need(writes == (1 if won else 0), 'indivisible', 'writes its object %d times when %s' % (writes, 'it reports an exchange' if won else 'it reports none'))
            x = e.clone()
            if won:
                need(is_(now, v), 'value', 'stores %s' % show(now))
                need(not x.assume_ne0(sub(env, e0)), 'compares', 'exchanges although the value is not the expected one')
                if c.sem == 'cas':
                    need(not e.clone().assume_ne0(sub(exp, e0)), 'expected', 'changes the expected value although it exchanged')
            else:
                need(is_(now, env), 'value', 'stores %s' % show(now))
                if c.what == 'strong' or c.sem == 'casv':
                    need(not x.assume_eq0(sub(env, e0)), 'compares', 'does not exchange although the value is the expected one')
                if c.sem == 'cas':
                    need(is_(exp, env), 'expected', 'leaves %s in the expected value, not the old value' % show(exp))
            continue
        need(writes == 1, 'indivisible', 'writes its object %d times' % writes)
        if c.sem == 'store':
            want = v
        elif c.sem == 'clear':
            want = ZERO
        elif c.sem == 'exchange':
            want = v
        elif c.sem in ('tas', 'flag'):
            want = ONE
        elif c.isfloat and c.what in ('add', 'sub'):
            want = V(L.sym(('f' + c.what, env, v)))
        elif c.what == 'add':
            want = add(env, v)
        elif c.what == 'sub':
            want = sub(env, v)
        else:
            want = A.evalop(e, c.what, env, v, c.size * 8)
        need(is_(now, want), 'value', 'stores %s instead of %s' % (show(now), show(want)))
        if c.sem in ('exchange', 'fetch', 'tas'):
            need(is_(ret, env), 'result', 'returns %s, not the old value' % show(ret))
        elif c.sem == 'flag':
            x = e.clone()
            z = not x.assume_eq0(env) or is_(x.norm(ret), ZERO) or not x.assume_ne0(x.norm(ret))
            x = e.clone()
            o = not x.assume_ne0(env) or not x.assume_eq0(x.norm(ret))
            need(z and o, 'result', 'returns %s, which does not say whether the flag was set' % show(ret))
    if c.sem in ('cas', 'casv'):
        ctx.ok(rule, seen == {True, False}, c.label + ':outcomes', '%s cannot both succeed and fail' % c.op)
    ctx.count(rule, n[0])
