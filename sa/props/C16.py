from core import *
import threads

EXPLANATION = ('Ownership and thread typestate (started, running, joined) by abstract interpretation of clients with futures and groups in every '
               'schedule of the thread model, with any thread failing to start and any memory request of the creator failing: every started thread '
               'is joined exactly once, every block is released exactly once, a thread that could not start is reported as an error.')


def run(ctx):
    mod = ctx.mod('w_thr.c')
    ctx.need(mod, 'thrd_async', 'thrd_get', 'thrd_scope', 'thrd_spawn', 'thrd_spawn_ex', 'thrd_sync', 'thrd_destroy', 'thrd_is_finish')
    for table in (threads.FUTURES, threads.GROUPS, threads.ERRORS):
        for c, (args, ev) in table.items():
            threads.check(ctx, mod, c, args, ev, 'joined and released in ' + c)
            threads.check(ctx, mod, c, args, ev, 'thread not started in ' + c, fail=1)
            threads.check(ctx, mod, c, args, ev, 'out of memory in ' + c, oom=1, later=ctx.thorough)
            if ctx.thorough:
                threads.check(ctx, mod, c, args, ev, 'failures in ' + c, fail=2, oom=2)
