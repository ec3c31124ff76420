from core import *
import threads

EXPLANATION = ('Clients whose workers throw, panic, throw after registering clean-ups, or recover are abstractly interpreted in every schedule of '
               'the thread model: the getter or synchroniser must see the error of its worker by name and message, after every worker of the '
               'group was joined, and the values of the other workers must be intact; an error a worker handled itself must not arrive.')


def run(ctx):
    mod = ctx.mod('w_thr.c')
    ctx.need(mod, 'thrd_async', 'thrd_get', 'thrd_spawn', 'thrd_sync', 'thrd_result', 'thrd_then')
    for c, (args, ev) in threads.ERRORS.items():
        threads.check(ctx, mod, c, args, ev, 'errors of workers in ' + c)
        threads.check(ctx, mod, c, args, ev, 'errors of workers in %s, a thread not started' % c, fail=1)
