from core import *
import threads

EXPLANATION = ('Clients starting workers that return, defer, allocate, throw or return a block are abstractly interpreted with every worker run as a '
               'whole when created or later, in every order; thread-local variables are kept per thread and every pair of accesses by different '
               'threads to overlapping bytes (one of them a write, not both atomic) must be ordered by thread creation, join, or a release operation '
               'read by an acquire operation. The values read must be those the worker stored, the flag waited for is set once per worker.')


def run(ctx):
    mod = ctx.mod('w_thr.c')
    ctx.need(mod, 'thrd_async', 'thrd_get', 'thrd_wait', 'thrd_is_done', 'thrd_scope', 'thrd_spawn', 'thrd_spawn_ex', 'thrd_sync', 'thrd_result', 'thrd_returning')
    for table in (threads.FUTURES, threads.GROUPS, threads.ERRORS):
        for c, (args, ev) in table.items():
            threads.check(ctx, mod, c, args, ev, 'ordering in ' + c, marks=True)
