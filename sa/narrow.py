"""Counts and lengths must not be squeezed into 8 or 16 bits.

Rule over the SSA form: a value that is a length (the result of a length routine, an integer parameter of pointer width or int)
or a count (a phi that goes round a loop by a step) may not be cut to fewer than 32 bits, by a truncation or a mask of 8 or more
low bits, unless what it counts is compared with a constant bound that fits.  Values read from memory are characters, not counts."""
import ir

LENGTH = {'simd_strlen', 'strlen', 'strnlen'}
STEP = ('add', 'sub')


def defs(f):
    d = {}
    for b in f.order:
        for i in f.blocks[b]:
            if i.dst is not None:
                d[i.dst if isinstance(i.dst, str) else i.dst.name] = i
    return d


def operands(i):
    for o in i.ops or ():
        if isinstance(o, tuple):
            for q in o:
                if isinstance(q, (ir.Reg, ir.Const)):
                    yield q
        else:
            yield o


def const(o):
    return o.v if isinstance(o, ir.Const) and o.kind == 'int' else None


def bound_of(v, d, w, steps=True):
    """whether what v counts is compared with a constant that fits in w bits"""
    same = {v}
    for _ in range(6 if steps else 0):
        for n, i in d.items():
            if i.op in ('zext', 'sext', 'trunc', 'phi') or i.op in STEP and any(const(o) is not None for o in operands(i)):
                if any(o.name in same for o in sources(i) if isinstance(o, ir.Reg)):
                    same.add(n)
    for i in d.values():
        if i.op == 'icmp':
            o = list(operands(i))
            if any(isinstance(x, ir.Reg) and x.name in same for x in o):
                for x in o:
                    if const(x) is not None and 1 < const(x) < 1 << w:
                        return True
    return False


def sources(i):
    if i.op == 'phi':
        return [o for o in i.x.values()]
    return list(operands(i))


def counts(f, d):
    """names of the values that are lengths, positions or counts"""
    # phis that come back to themselves by a step
    cyc = set()
    for n, i in d.items():
        if i.op != 'phi' or i.ty.k != 'i' or i.ty.bits == 1:
            continue
        seen, work = set(), [(n, False)]
        while work:
            v, stepped = work.pop()
            if (v, stepped) in seen:
                continue
            seen.add((v, stepped))
            e = d.get(v)
            if e is None or e.op not in ('phi', 'add', 'sub', 'zext', 'sext', 'trunc', 'select'):
                continue
            if e.op in STEP:
                cs = [const(o) for o in operands(e)]
                if not any(c not in (None, 0) for c in cs):
                    continue
                stepped = True
            for o in sources(e):
                if isinstance(o, ir.Reg):
                    if o.name == n and stepped:
                        cyc.add(n)
                    work.append((o.name, stepped))
    out = set(cyc)
    for p in f.params:
        t, n = p[0], p[1]
        if t.k == 'i' and t.bits == 64:
            out.add(n)
    for n, i in d.items():
        if i.op == 'call' and i.ops and isinstance(i.ops[0], ir.Const) and str(i.ops[0].v).lstrip('@') in LENGTH:
            out.add(n)
    more = True
    while more:
        more = False
        for n, i in d.items():
            if n in out:
                continue
            if i.op in ('add', 'sub', 'mul', 'zext', 'sext', 'trunc', 'phi', 'select', 'udiv', 'sdiv', 'shl') and i.ty.k == 'i' and i.ty.bits > 1:
                o = sources(i)
                if i.op == 'select':
                    o = o[1:]
                if any(isinstance(x, ir.Reg) and x.name in out for x in o):
                    out.add(n)
                    more = True
            elif i.op == 'and' and any(isinstance(x, ir.Reg) and x.name in out for x in operands(i)):
                c = [const(x) for x in operands(i) if const(x) is not None]
                if c and not 0 <= c[0] < 256:
                    out.add(n)
                    more = True
    return out, cyc


def check(ctx, mod, names, rule='counts keep their width', loops=False):
    """no count of these functions is cut short (only what loops count, when loops is set)"""
    nv = 0
    for fn in names:
        f = mod.funcs.get(fn)
        if f is None:
            continue
        d = defs(f)
        cs, cyc = counts(f, d)
        for n in cs:
            i = d.get(n)
            if i is None or loops and n not in cyc:
                continue
            nv += 1
            bad = None
            if n in cyc and i.ty.bits < 32 and not bound_of(n, d, i.ty.bits):
                bad = 'a count is kept in %d bits' % i.ty.bits
            elif i.op == 'trunc' and i.ty.bits < 32:
                o = [x for x in sources(i) if isinstance(x, ir.Reg)]
                if not bound_of(o[0].name, d, i.ty.bits, False):
                    bad = 'a length or count is cut to %d bits' % i.ty.bits
            elif i.op == 'and':
                c = [const(x) for x in operands(i) if const(x) is not None]
                if c and 255 < c[0] < (1 << 32) - 1 and c[0] & (c[0] + 1) == 0:
                    bad = 'a length or count is cut to its low bits'
            l = mod.where(i) if hasattr(mod, 'where') else ''
            ctx.ok(rule, bad is None, 'narrow:%s' % fn, '%s in %s' % (bad, fn), l)
    return nv


def reach(mod, names, name='swar.c'):
    """these functions and those they call that the source file defines"""
    out, work = [], list(names)
    while work:
        n = work.pop()
        f = mod.funcs.get(n)
        if n in out or f is None:
            continue
        l = next((x for b in f.order for x in (mod.loc(i.dbg) for i in f.blocks[b]) if x), None)
        if l is None or name and not str(l[0]).endswith(name):
            continue
        out.append(n)
        for b in f.order:
            for i in f.blocks[b]:
                if i.op == 'call' and i.ops and isinstance(i.ops[0], ir.Const):
                    work.append(str(i.ops[0].v).lstrip('@'))
    return out
