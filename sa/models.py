"""Models of the functions the library imports. Each returns [(state, return value)] or None (not handled)."""
import lin as L
from lin import K, ZERO, ONE, V, add, sub, is_const, single, scale
import absint as A


def nullsplit(an, st, ins, p):
    """[(state, is_null)]"""
    c = A.evalop(st, 'cmp', 'eq', p, ZERO, 64)
    return an.fork2(st, ins, c)


def alloc(an, st, ins, size, name, init, fail=None):
    out = []
    fail = an.alloc_fail if fail is None else fail
    if fail:
        x = st.clone()
        x.log('%s: %s returns NULL' % (an.m.where(ins), name))
        x.ghost['oom'] = x.ghost.get('oom', 0) + 1
        if x.ghost['oom'] <= an.max_oom:
            for h in an.hooks['alloc']:
                h(an, x, ins, None, size, name)
            out.append((x, ZERO))
    y = an.region('heap', name, size, init, an.m.where(ins))
    for h in an.hooks['alloc']:
        h(an, st, ins, y, size, name)
    out.insert(0, (st, V(y)))
    return out


def m_malloc(an, st, ins, a):
    return alloc(an, st, ins, a[0], 'malloc', 'undef')


def m_calloc(an, st, ins, a):
    return alloc(an, st, ins, A.evalop(st, 'mul', a[0], a[1], 64), 'calloc', 'zero')


def dofree(an, st, ins, p, how='free'):
    base = A.baseof(p)
    if base is None:
        for h in an.hooks['free']:
            h(an, st, ins, None, p, 'wild')
        return
    off = sub(p, V(base))
    info = an.regions.get(base)
    kind = 'ok'
    if base in st.freed:
        kind = 'double'
    elif not st.eq0(off):
        kind = 'interior'
    elif info and info['kind'] in ('stack', 'global', 'func'):
        kind = 'notheap'
    for h in an.hooks['free']:
        h(an, st, ins, base, p, kind)
    st.freed = dict(st.freed)
    st.freed[base] = '%s at %s' % (how, an.m.where(ins))


def m_free(an, st, ins, a):
    out = []
    for x, null in nullsplit(an, st, ins, a[0]):
        if not null:
            dofree(an, x, ins, x.norm(a[0]))
        out.append((x, None))
    return out


def m_realloc(an, st, ins, a):
    out = []
    for x, null in nullsplit(an, st, ins, a[0]):
        p = x.norm(a[0])
        for z, r in alloc(an, x, ins, x.norm(a[1]), 'realloc', 'undef'):
            if not is_const(r) and not null:
                base = A.baseof(p)
                nb = single(r)
                if base is not None:
                    snap = an.getreg(z, base)
                    z.mem[nb] = A.Region(dict(snap.cells), snap.ranges, snap.init if snap.init != 'lazy' else 'undef', snap.n + 1)
                    if snap.init == 'lazy':
                        an.rangewrite(z, nb, K(-A.BIG), K(2 * A.BIG), 'copy', (base, K(-A.BIG), snap))
                    dofree(an, z, ins, p, 'realloc')
            out.append((z, r))
    return out


def m_memset(an, st, ins, a):
    base, off = an.access(st, ins, a[0], a[2], 'memset')
    if base is not None:
        an.rangewrite(st, base, off, a[2], 'fill', a[1])
    return [(st, a[0])]


def m_memcpy(an, st, ins, a):
    if is_const(a[2]) and a[2][0] == 0:
        return [(st, a[0])]
    db, do = an.access(st, ins, a[0], a[2], 'memcpy-dst')
    sb, so = an.access(st, ins, a[1], a[2], 'memcpy-src')
    if db is not None and sb is not None:
        an.copy(st, db, do, sb, so, a[2])
    elif db is not None:
        an.rangewrite(st, db, do, a[2], 'havoc', 0)
    return [(st, a[0])]


def m_strncpy(an, st, ins, a):
    db, do = an.access(st, ins, a[0], a[2], 'strncpy-dst')
    if db is not None:
        an.rangewrite(st, db, do, a[2], 'havoc', 0)
    return [(st, a[0])]


def m_vastart(an, st, ins, a):
    fr = st.frames[-1]
    y = an.region('va', 'the variable arguments', K(8 * len(fr.va)), 'lazy', an.m.where(ins))
    off = 0
    for v in fr.va:
        if v[0] != 'agg':
            an.store(st, y, K(off), 8, v)
        off += 8
    base, o = an.access(st, ins, a[0], K(24), 'store')
    if base is not None:
        an.store(st, base, o, 4, K(48))
        an.store(st, base, add(o, K(4)), 4, K(176))
        an.store(st, base, add(o, K(8)), 8, V(y))
        an.store(st, base, add(o, K(16)), 8, V(y))
    return [(st, None)]


def m_vaend(an, st, ins, a):
    return [(st, None)]


def m_vacopy(an, st, ins, a):
    db, sb = A.baseof(a[0]), A.baseof(a[1])
    an.copy(st, db, sub(a[0], V(db)), sb, sub(a[1], V(sb)), K(24))
    return [(st, None)]


def m_setjmp(an, st, ins, a):
    st.jmp = dict(st.jmp)
    for f in st.frames:
        f.owner = None
    save = len(a) > 1 and is_const(a[1]) and a[1][0] != 0
    st.jmp[a[0]] = (st.frames, ins, st.ghost.get('mask', V(L.sym(('arg', 'mask0')))) if save else None, 0)
    return [(st, ZERO)]


def m_longjmp(an, st, ins, a):
    buf = st.norm(a[0])
    j = st.jmp.get(buf)
    if j is None:
        for k, v in st.jmp.items():
            if st.eq0(sub(st.norm(k), buf)):
                j, buf = v, k
    if j is None:
        st.ghost['badjmp'] = 'longjmp to a buffer never saved'
        an.finish(st, 'badjmp', ins)
        return []
    frames, sj, mask, times = j
    if times >= 8:
        an.report(st, ins, 'jumps', 'control jumps back to the same saved place again and again (saved at %s)' % an.m.where(sj))
        an.finish(st, 'jumps', ins)
        return []
    st.jmp = dict(st.jmp)
    st.jmp[buf] = (frames, sj, mask, times + 1)
    if mask is not None:
        st.ghost['mask'] = mask
    live = {f.uid for f in st.frames}
    if frames[-1].uid not in live:
        st.ghost['badjmp'] = 'longjmp into a function that has already returned'
        an.finish(st, 'badjmp', ins)
        return []
    n = len(frames)
    dead = []
    for f in st.frames[n:]:
        dead.extend(f.allocas)
    # the surviving frame keeps loops and registers as they were when the buffer was saved
    allocas = st.frames[n - 1].allocas
    if dead:
        st.freed = dict(st.freed)
        for d in dead:
            st.freed[d] = 'out of scope since the jump at %s' % an.m.where(ins)
    st.frames = frames
    fr = st.top()
    fr.allocas = allocas
    fr.i = sj.idx + 1
    v = st.norm(a[1])
    if is_const(v) and v[0] == 0:
        v = ONE
    st.log('%s: jumps back to %s' % (an.m.where(ins), an.m.where(sj)))
    if sj.dst:
        fr.regs[sj.dst] = v
    for f in st.frames:
        f.owner = None
    an.work.append(st)
    return []


def m_atexit(an, st, ins, a):
    st.ghost['atexit'] = st.ghost.get('atexit', ()) + (an.fname_of(st.norm(a[0])),)
    return [(st, ZERO)]


def m_exit(an, st, ins, a):
    if 'exit' not in st.ghost:
        st.ghost['exit'] = ('exit', a[0][0] if is_const(a[0]) else None)
        h = [f for f in st.ghost.get('atexit', ()) if f in an.m.funcs]
        if h:
            # the registered functions run, the last one first, then the process is gone
            st.frames = ()
            st.ghost['atexit'] = ()
            for f in h:
                an.push(st, f, [], None)
            an.work.append(st)
            return []
    an.finish(st, 'exit', ins)
    return []


def m__exit(an, st, ins, a):
    st.ghost['exit'] = ('_Exit', a[0][0] if is_const(a[0]) else None)
    an.finish(st, 'exit', ins)
    return []


def m_assert(an, st, ins, a):
    an.finish(st, 'assert', ins)
    return []


def m_zero(an, st, ins, a):
    return [(st, ZERO)]


def m_ret0(an, st, ins, a):
    return [(st, a[0])]


def m_freshint(an, st, ins, a):
    return [(st, V(L.fresh('ext')))]


def m_freshnn(an, st, ins, a):
    return [(st, V(L.fresh('ext', lo=0)))]


def m_errno(an, st, ins, a):
    y = an.globs.get('errno')
    if y is None:
        y = an.globs['errno'] = L.sym(('glob', '@errno$'), True, lo=1)
        an.regions[y] = dict(kind='global', name='errno', size=K(4), where='', init='lazy')
    return [(st, V(y))]


def m_fullset(an, st, ins, a):
    b, o = an.access(st, ins, a[0], K(128), 'memset')
    if b is not None:
        an.rangewrite(st, b, o, K(128), 'fill', K(-1))
    return [(st, ZERO)]


def m_emptyset(an, st, ins, a):
    b, o = an.access(st, ins, a[0], K(128), 'memset')
    if b is not None:
        an.rangewrite(st, b, o, K(128), 'fill', K(0))
    return [(st, ZERO)]


def m_changeset(adds):
    def m(an, st, ins, a):
        """one signal put into or taken from a set: signal n is bit n - 1 of the first word"""
        n = st.norm(a[1])
        b, o = an.access(st, ins, a[0], K(128), 'memset')
        if b is not None:
            old = st.norm(an.load(st, b, o, 8, True))
            if is_const(n) and 1 <= n[0] <= 64 and is_const(old):
                w = old[0] & (1 << 64) - 1
                w = w | 1 << n[0] - 1 if adds else w & ~(1 << n[0] - 1)
                an.store(st, b, o, 8, K(w - (1 << 64) if w >> 63 else w))
            else:
                an.store(st, b, o, 8, V(L.fresh('set')))
        return [(st, ZERO)]
    return m


def m_sigmask(an, st, ins, a):
    """ghost 'mask' is the current set: ('sym', snapshot key)"""
    cur = st.ghost.get('mask', V(L.sym(('arg', 'mask0'))))
    if not (is_const(a[2]) and a[2][0] == 0):
        b, o = an.access(st, ins, a[2], K(128), 'store')
        if b is not None:
            an.rangewrite(st, b, o, K(128), 'havoc', 0)
            an.store(st, b, o, 8, cur)
    if not (is_const(a[1]) and a[1][0] == 0):
        b, o = an.access(st, ins, a[1], K(128), 'load')
        new = an.load(st, b, o, 8) if b is not None else V(L.fresh('mask'))
        how = st.norm(a[0])
        if is_const(how) and how[0] == 2:
            st.ghost['mask'] = new
        elif is_const(how) and how[0] == 0:      # SIG_BLOCK
            st.ghost['mask'] = new if is_const(new) and new[0] == -1 else V(L.fresh('maskblk'))
        else:
            st.ghost['mask'] = V(L.fresh('mask'))
    return [(st, ZERO)]


def indirect(an, st, ins, a):
    return [(st, V(L.fresh('cb', ins.ty.k == 'ptr')) if ins.dst else None)]


BUILTIN = {
    'malloc': m_malloc, 'calloc': m_calloc, 'realloc': m_realloc, 'free': m_free,
    'memset': m_memset, 'memcpy': m_memcpy, 'memmove': m_memcpy, 'strncpy': m_strncpy,
    '_setjmp': m_setjmp, 'setjmp': m_setjmp, '__sigsetjmp': m_setjmp, 'sigsetjmp': m_setjmp,
    'longjmp': m_longjmp, 'siglongjmp': m_longjmp, '_longjmp': m_longjmp,
    'exit': m_exit, '_Exit': m__exit, '_exit': m__exit, 'abort': m__exit, '__assert_fail': m_assert, 'thrd_exit': m__exit,
    '__errno_location': m_errno, 'sigfillset': m_fullset, 'sigemptyset': m_emptyset, 'sigaddset': m_changeset(True), 'sigdelset': m_changeset(False), 'pthread_sigmask': m_sigmask,
    'sigprocmask': m_sigmask,
    'puts': m_zero, 'printf': m_zero, 'fprintf': m_zero, 'fflush': m_zero, 'atexit': m_atexit,
    'backtrace_symbols_fd': m_zero, 'backtrace': m_freshnn, 'sigaction': m_freshint, 'thrd_yield': m_zero,
}
PREFIX = [
    ('llvm.threadlocal.address', m_ret0), ('llvm.memset', m_memset), ('llvm.memcpy', m_memcpy), ('llvm.memmove', m_memcpy),
    ('llvm.va_start', m_vastart), ('llvm.va_end', m_vaend), ('llvm.va_copy', m_vacopy),
    ('llvm.cttz', m_freshnn), ('llvm.ctlz', m_freshnn), ('llvm.abs', m_freshnn), ('llvm.stacksave', m_freshint),
    ('llvm.stackrestore', m_zero), ('llvm.expect', m_ret0), ('llvm.lifetime', m_zero), ('llvm.assume', m_zero),
]
