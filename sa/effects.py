"""What each function writes: stores to process-wide (not per-thread) data, with the locks held at them."""
import ir, flow, locks

READS = {'printf', 'fprintf', 'vfprintf', 'puts', 'fputs', 'strlen', 'strcmp', 'memcmp', 'simd_strcmp', 'simd_strlen', 'fflush', 'putchar', 'fputc',
         'sigismember', 'vprintf', 'fwrite'}


class Effects:
    def __init__(s, mod, lock, unlock):
        s.m, s.lock, s.unlock = mod, lock, unlock
        s.shared = {n for n, g in mod.globals.items() if not g.tls and not g.const and not g.external}
        s.sites = []            # (function, global, instruction, how) of every unguarded plain write
        s.guarded = 0
        s.calls_through = []
        s.depth = locks.Depth(mod, lock, unlock)
        s.entry = s.depth.entry()
        s.pw = {}               # function -> indices of parameters it may write through
        s.params()
        for f in mod.funcs.values():
            s.scan(f)

    def root(s, defs, v, d=0):
        """the globals and parameters an address may be computed from"""
        out = set()
        if d > 30:
            return out
        if isinstance(v, ir.Const):
            if v.kind == 'global':
                out.add(v.v)
            elif v.kind == 'gep':
                out |= s.root(defs, v.v[1][0], d + 1)
            elif v.kind == 'cast':
                out |= s.root(defs, v.v[2], d + 1)
            return out
        if isinstance(v, ir.Reg):
            i = defs.get(v.name)
            if i is None:
                return out
            if isinstance(i, int):
                return {i}
            if i.op in ('getelementptr', 'bitcast', 'freeze', 'inttoptr', 'ptrtoint', 'addrspacecast'):
                return s.root(defs, i.ops[0], d + 1)
            if i.op == 'phi':
                for x in i.ops:
                    x = x[0] if isinstance(x, tuple) else x
                    out |= s.root(defs, x, d + 6)
            if i.op == 'select':
                for x in i.ops[1:]:
                    out |= s.root(defs, x, d + 1)
        return out

    def defs(s, f):
        d = {}
        for k, p in enumerate(f.params):
            d[p[1] if isinstance(p, tuple) else p] = k
        for b in f.order:
            for i in f.blocks[b]:
                if i.dst:
                    d[i.dst] = i
        return d

    def writes(s, f, defs):
        """(instruction, roots) of every plain write f may make itself or let a callee make"""
        for b in f.order:
            for j, i in enumerate(f.blocks[b]):
                if i.op == 'store' and i.x is None:
                    yield b, j, i, s.root(defs, i.ops[1]), 'store'
                elif i.op == 'call':
                    c = flow.callee(i)
                    for k, a in enumerate(i.ops[1:]):
                        if c is None or flow.base(c) in (s.lock, s.unlock) or c in READS or c.startswith('llvm.dbg') or c.startswith('llvm.lifetime'):
                            continue
                        if c.startswith('llvm.'):
                            if k or c.startswith('llvm.threadlocal'):
                                continue
                        elif c in s.m.funcs and k not in s.pw.get(c, ()):
                            continue
                        r = s.root(defs, a)
                        if r:
                            yield b, j, i, r, 'call of ' + c

    def params(s):
        ch = True
        alld = {n: s.defs(f) for n, f in s.m.funcs.items()}
        s.alld = alld
        while ch:
            ch = False
            for n, f in s.m.funcs.items():
                w = set(s.pw.get(n, ()))
                for b, j, i, r, how in s.writes(f, alld[n]):
                    w |= {x for x in r if isinstance(x, int)}
                if w != s.pw.get(n, set()):
                    s.pw[n] = w
                    ch = True

    def scan(s, f):
        e = s.entry.get(f.name, 0)
        at = {(b, j): min(ds) for b, j, i, ds in s.depth.at(f.name)}
        for b, j, i, r, how in s.writes(f, s.alld[f.name]):
            g = {x for x in r if x in s.shared}
            if not g or (b, j) not in at:
                continue
            for x in sorted(g):
                if at[b, j] + e > 0:
                    s.guarded += 1
                else:
                    s.sites.append((f.name, x, i, how))
