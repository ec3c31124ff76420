import re
from core import *
import threads, flow, effects
from props.C19 import only

EXPLANATION = ('(1) Effect analysis: every store of the library, in any function, to data that is neither per-thread nor constant must be atomic, happen '
               'with a lock surely held (over all callers), or be reachable only through the signal set-up functions, whose effect is process-wide by '
               'contract. (2) Clients running scopes, errors, guards, protection, per-thread variables, text and arenas in two or three threads at once '
               'are interpreted abstractly in every schedule of the thread model, each thread with its own copy of the per-thread data: event traces, '
               'ownership and happens-before races are judged.')

# process-wide by contract: signal dispositions, what the handler notes, and how an uncaught error ends the program
WIDE = r'signal|ex_flags_reset|ex_terminate'


def shared(ctx):
    rule = 'stores to process-wide data'
    lock, unlock = only(ctx.mod('w_lock.c'), 'wl_lock'), only(ctx.mod('w_lock.c'), 'wl_unlock')
    mod = ctx.mod()
    ctx.need(mod, 'raii_init', 'ex_init', 'ex_throw', 'arena_alloc', 'thrd_async')
    ef = effects.Effects(mod, lock, unlock)
    roots = [n for n, f in mod.funcs.items() if not f.internal]
    wide = {n for n in roots if re.search(WIDE, n)}
    roots += sorted(ef.depth.taken(wide) - set(roots))
    why = {}

    def reach(n):
        seen, todo = {n: None}, [n]
        while todo:
            x = todo.pop()
            for i in flow.calls(mod.funcs[x]):
                c = flow.callee(i)
                if c in mod.funcs and c not in seen and c not in wide:
                    seen[c] = x
                    todo.append(c)
        return seen
    for n in roots:
        if n in wide:
            continue
        r = reach(n)
        bad = [w for w in ef.sites if w[0] in r]
        ctx.ok(rule, not bad, '', '')
        if bad:
            ctx.obl[rule][1] -= 1
            ctx.fail.pop()
            for f, g, i, how in bad:
                p, x = [], f
                while x:
                    p.append('%s is called by %s' % (x, r[x]) if r[x] else '%s is called by the user' % x)
                    x = r[x]
                why.setdefault((f, g), (i, how, p))
    for (f, g), (i, how, p) in sorted(why.items()):
        ctx.bad(rule, 'shared:%s:%s' % (f, g.lstrip('@')), '%s writes %s (%s), which all threads share, with no lock held and not atomically' % (f, g.lstrip('@'), how), mod.where(i), p)
    ctx.count(rule, len(ef.sites) + ef.guarded)
    ctx.extra['public_functions'] = len(roots)
    ctx.extra['shared_objects'] = sorted(ef.shared)
    ctx.extra['writes_under_a_lock'] = ef.guarded
    ctx.extra['writes_of_signal_set_up'] = sorted({'%s: %s' % (f, g) for f, g, i, how in ef.sites})


def run(ctx):
    shared(ctx)
    mod = ctx.mod('w_tls.c')
    for c, (args, ev) in threads.BESIDE.items():
        threads.check(ctx, mod, c, args, ev, 'threads beside each other in ' + c, joins=False)
