from core import *
import arena, life

EXPLANATION = ('Bounds and ownership analysis by abstract interpretation of requests made from arbitrary states of an arena, built from its '
               'invariant (every number of blocks up to a bound, each of any size and filling, with any threshold) and with arbitrary recycled '
               'blocks waiting, and of whole histories from the start; every request size, count and failure of memory. The invariant, '
               'the bounds and the disjointness of what is handed out are proved as affine facts of the state after each request.')

TOO_LARGE = 'Arena allocation failed!'


def run(ctx):
    mod = ctx.mod('w_arena.c')
    ctx.need(mod, 'arena_init', 'arena_alloc', 'arena_calloc', 'arena_clear', 'arena_free', 'arena_capacity', 'arena_total')
    sh = arena.Shape(ctx, mod)
    ctx.extra['header_bytes'] = sh.size
    ctx.extra['first_block_at'] = sh.head
    ctx.assumptions.append('memory the allocator grants is never larger than %d bytes in all' % arena.MAX)
    deep = ctx.tier == 'thorough'
    A_, O = arg('a', lo=1), arg('o', lo=1)
    n, m, c = (arg(x, False, 1, (1 << 63) - 1) for x in 'nmc')
    i = arg('i', False)

    def go(client, args, arenas, events=None, oom=0, unroll=6, kinds=('return',)):
        what = '%s with %s' % (client, ', '.join('%d blocks in %s' % (k, x) for x, k in arenas.items()) or 'a new arena')
        a = ctx.an(mod, models=arena.MODELS, oom=oom, unroll=unroll)
        life.attach(a)
        life.nulls(a)
        life.bounds(a)
        arena.wraps(a)
        arena.writes(sh, a)
        ctx.start(a, client, args, setup=sh.setup(arenas))
        ctx.pull(a, what)
        ctx.count('arithmetic stays in 64 bits', getattr(a, 'narith', 0))
        seen = set()
        for e in ctx.ends(a):
            ctx.ok('end of ' + what, e.end[0] in ('return', 'exit', 'assert'), 'end:%s:%s' % (client, e.end[0]), 'the client ends by %s' % e.end[0], e.end[1], e.path())
            if e.end[0] in kinds:
                seen.add(e.ghost.get('tr'))
                if events is not None:
                    ctx.ok('events of ' + what, e.ghost.get('tr') in events, 'events:' + client, 'observed %s, expected one of %s' % (e.ghost.get('tr'), sorted(map(str, events))), e.end[1], e.path())
                sh.judge(a, e, list(arenas), client, what)
                if TOO_LARGE in (e.ghost.get('tr') or ()):
                    for x in arenas:
                        t = sh.get(a, e, single(arg(x, lo=1)), arena.TOTAL)
                        got = [b for b in sh.walk(a, e, single(arg(x, lo=1)))[0] or ()]
                        new = [b for b in got if b[0] not in [y[0] for y in a.chain[x]] and 'arena o' not in a.regions[b[0]].get('where', '')]
                        if not new:
                            ctx.ok(what, e.eq0(e.norm(sub(t, a.old[x]['total']))), 'total:' + client, 'a request that failed changed the total from %s to %s' % (show(a.old[x]['total']), show(t)), e.end[1], e.path())
            elif e.end[0] == 'exit':
                ctx.count('requests refused in ' + what, 1)
        if events:
            for x in events - seen:
                ctx.bad('events of ' + what, 'missing:%s:%s' % (client, x), 'the outcome %s never occurs' % (x,))
        if not seen:
            ctx.bad('end of ' + what, 'never:' + client, 'the client never finishes')

    for k in range(4 if deep else 3):
        go('wa_alloc', [A_, n], {'a': k})
        go('wa_alloc_two', [A_, n, m], {'a': k})
        go('wa_calloc', [A_, c, n], {'a': k})
        go('wa_zeroed', [A_, c, n, i], {'a': k}, {(0,)})
        go('wa_clear_alloc', [A_, n], {'a': k})
        go('wa_failing', [A_, n], {'a': k}, {(1,), (TOO_LARGE,)}, oom=1)
        go('wa_failing_calloc', [A_, c, n], {'a': k}, {(1,), (TOO_LARGE,)}, oom=1)
        for r in range(1, 4 if deep else 3):
            go('wa_recycled', [O, A_, n], {'o': r, 'a': k})
            if k < 2:
                go('wa_recycled_calloc', [O, A_, c, n], {'o': r, 'a': k})
                go('wa_both', [O, A_, n, m], {'o': r, 'a': k})
    go('wa_null', [], {}, {('panic',)})
    n, m = (arg(x, False, 1, 1 << 40) for x in 'xy')
    go('wa_init', [n], {}, {(0, 0)})
    go('wa_reuse', [n], {}, {(1,)})
    go('wa_history', [n, m], {})
    go('wa_history_two', [n, m], {})
    if deep:
        go('wa_history_long', [n, m], {})
