"""Control-flow facts over the call graph."""
import re
import ir

STOP = {'exit', '_Exit', '_exit', 'abort', 'longjmp', 'siglongjmp', '_longjmp', '__assert_fail', 'thrd_exit', 'pthread_exit'}


def callee(ins):
    """name of the function called directly, or None"""
    if ins.op != 'call':
        return None
    o = ins.ops[0]
    if isinstance(o, ir.Const) and o.kind == 'global':
        return o.v.lstrip('@')
    return None


def base(name):
    """name of a function without the number the linker gives to further copies of a static one"""
    return re.sub(r'\.\d+$', '', name) if name else name


def calls(f):
    for b in f.order:
        for ins in f.blocks[b]:
            if ins.op == 'call':
                yield ins


def noreturn(m):
    """functions no path of which reaches a return"""
    out = {f for f in STOP if f not in m.funcs}
    cand = dict(m.funcs)
    ch = True
    while ch:
        ch = False
        for n, f in list(cand.items()):
            if witness(f, out) is None:
                out.add(n)
                del cand[n]
                ch = True
    return out


def witness(f, stop):
    """a path (list of instructions' blocks) from entry to a return that avoids calls of stop, or None"""
    seen = {f.order[0]: None}
    todo = [f.order[0]]
    while todo:
        b = todo.pop()
        for ins in f.blocks[b]:
            if ins.op == 'call' and callee(ins) in stop or ins.op == 'unreachable':
                break
            if ins.op == 'ret':
                p = [ins]
                while b is not None:
                    p.append(f.blocks[b][0])
                    b = seen[b]
                return p[::-1]
        else:
            for t in ir.succs(f.blocks[b][-1]):
                if t not in seen:
                    seen[t] = b
                    todo.append(t)
    return None


def reachable(m, roots, indirect=()):
    """functions reachable through direct calls (and the given ones when anything is called indirectly)"""
    seen, todo = set(), [r for r in roots if r in m.funcs]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        for ins in calls(m.funcs[n]):
            c = callee(ins)
            for x in ([c] if c else indirect):
                if x in m.funcs and x not in seen:
                    todo.append(x)
    return seen
