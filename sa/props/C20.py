from core import *
import atomics

EXPLANATION = ('One client per operation, operand type and memory order is compiled and interpreted abstractly from an object of unknown content that '
               'another thread may change before every access: all accesses to the object must be atomic, of its width, at its start and of at least the '
               'requested order, at most one of them writes, the stored and returned values must be those the operation defines over the value that '
               'access read, and nothing else is touched.')


def run(ctx):
    cs = atomics.clients()
    mod = ctx.mod(sources=("raii",), text=atomics.text(cs))
    for c in cs:
        atomics.judge(ctx, mod, c, c.op.split('_explicit')[0])
    ctx.extra['operations'] = len({c.op for c in cs})
    ctx.extra['clients'] = len(cs)
