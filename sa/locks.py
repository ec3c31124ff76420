"""How many locks are held where: net effect of every function, depth at every instruction, entry depth over all callers."""
import ir, flow

LO, HI = -2, 4


class Depth:
    def __init__(s, mod, lock, unlock):
        s.m, s.lock, s.unlock = mod, lock, unlock
        s.delta = {n: {0} for n in mod.funcs}
        for n in mod.funcs:
            if flow.base(n) == lock:
                s.delta[n] = {1}
            elif flow.base(n) == unlock:
                s.delta[n] = {-1}
        s.plain = [n for n in mod.funcs if flow.base(n) not in (lock, unlock)]
        for _ in range(20):
            ch = False
            for n in s.plain:
                d = s.exits(n)
                if d != s.delta[n]:
                    s.delta[n], ch = d, True
            if not ch:
                break

    def step(s, ins, ds):
        c = flow.callee(ins)
        if c is None:
            return ds
        e = s.delta.get(c)
        if e is None or e == {0} or not e:
            return ds
        return {min(max(x + y, LO), HI) for x in ds for y in e}

    def blocks(s, n):
        """depths possible on entry of each block, starting from 0"""
        f = s.m.funcs[n]
        inn = {f.order[0]: {0}}
        todo = [f.order[0]]
        while todo:
            b = todo.pop()
            ds = set(inn[b])
            for i in f.blocks[b]:
                ds = s.step(i, ds)
            for t in ir.succs(f.blocks[b][-1]):
                if not ds <= inn.get(t, set()):
                    inn[t] = inn.get(t, set()) | ds
                    todo.append(t)
        return inn

    def at(s, n):
        """(block, index, instruction, depths before it)"""
        f = s.m.funcs[n]
        inn = s.blocks(n)
        for b in f.order:
            if b not in inn:
                continue
            ds = set(inn[b])
            for j, i in enumerate(f.blocks[b]):
                yield b, j, i, ds
                ds = s.step(i, ds)

    def exits(s, n):
        return {d for b, j, i, ds in s.at(n) if i.op == 'ret' for d in ds}

    def takes(s, n):
        """calls in n after which more locks are held than before"""
        return [i for i in flow.calls(s.m.funcs[n]) if 1 in s.delta.get(flow.callee(i), ())]

    def entry(s):
        """fewest locks held when each function is entered, over all its callers; functions callable from outside: none"""
        e = {}
        called = {}
        taken = s.taken()
        for n in s.m.funcs:
            for b, j, i, ds in s.at(n):
                c = flow.callee(i)
                if c in s.m.funcs:
                    called.setdefault(c, []).append((n, min(ds) if ds else 0))
        for n, f in s.m.funcs.items():
            e[n] = HI if f.internal and n in called and n not in taken else 0
        for _ in range(50):
            ch = False
            for n, cs in called.items():
                if not s.m.funcs[n].internal or n in taken:
                    continue
                x = min(min(max(e[c] + d, 0), HI) for c, d in cs)
                if x != e[n]:
                    e[n], ch = x, True
            if not ch:
                break
        return e

    def taken(s, skip=()):
        """functions whose address is used other than to call them"""
        out = set()

        def walk(x):
            if isinstance(x, ir.Const):
                if x.kind == 'global' and x.v.lstrip('@') in s.m.funcs:
                    out.add(x.v.lstrip('@'))
                elif x.kind == 'gep':
                    for y in x.v[1]:
                        walk(y)
                elif isinstance(x.v, (list, tuple)):
                    for y in x.v:
                        walk(y)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    walk(y)
        for g in s.m.globals.values():
            walk(g.init)
        for f in s.m.funcs.values():
            if f.name in skip:
                continue
            for b in f.order:
                for i in f.blocks[b]:
                    ops = i.ops[1:] if i.op == 'call' else i.ops
                    for o in ops or ():
                        walk(o)
        return out
