from core import *
import arena, life, threads

EXPLANATION = ('Ownership analysis by abstract interpretation of clearing and freeing from arbitrary states of one or two arenas (every number of '
               'blocks up to a bound, of any size and filling, any threshold), and of whole histories of requests, clears and frees: every block '
               'is given back once - released, or kept for reuse in the list all arenas share - and never used after it is released; an arena '
               'that was cleared is empty and serves requests again. Threads that use arenas at the same time are analysed in every schedule of the thread model.')


def run(ctx):
    mod = ctx.mod('w_arena.c')
    ctx.need(mod, 'arena_init', 'arena_alloc', 'arena_clear', 'arena_free', 'arena_capacity', 'arena_total')
    sh = arena.Shape(ctx, mod)
    deep = ctx.tier == 'thorough'
    A_, O = arg('a', lo=1), arg('o', lo=1)
    n, m, c = (arg(x, False, 1, 1 << 40) for x in 'nmc')

    def go(client, args, arenas, events=None, oom=0, cleared=(), freed=(), kept=()):
        what = '%s with %s' % (client, ', '.join('%d blocks in %s' % (k, x) for x, k in arenas.items()) or 'new arenas')
        a = ctx.an(mod, models=arena.MODELS, oom=oom, unroll=7)
        life.attach(a)
        life.nulls(a)
        ctx.start(a, client, args, setup=sh.setup(arenas))
        ctx.pull(a, what)
        shared = [y for y, i in a.regions.items() if i['kind'] == 'global' and not getattr(mod.globals.get(i['name']), 'tls', True)]
        seen, done = set(), 0
        for e in ctx.ends(a):
            ctx.ok('end of ' + what, e.end[0] in ('return', 'exit', 'assert'), 'end:%s:%s' % (client, e.end[0]), 'the client ends by %s' % e.end[0], e.end[1], e.path())
            if e.end[0] != 'return':
                continue
            done += 1
            seen.add(e.ghost.get('tr'))
            if events is not None:
                ctx.ok('events of ' + what, e.ghost.get('tr') in events, 'events:' + client, 'observed %s, expected one of %s' % (e.ghost.get('tr'), sorted(map(str, events))), e.end[1], e.path())
            spare = sh.spare(a, e, shared, client, what)
            alive = set()
            for x in arenas:
                P = single(arg(x, lo=1))
                if x in freed:
                    ctx.ok(what, P in e.freed, 'kept-arena:' + client, 'the arena itself is not released', e.end[1], e.path())
                    continue
                ctx.ok(what, P not in e.freed, 'gone-arena:' + client, 'an arena that was not freed is released', e.end[1], e.path())
                alive.add(P)
                ch = sh.inv(a, e, P, client, what)
                alive |= {b[0] for b in ch or ()}
                if x in cleared:
                    ctx.ok(what, ch is not None and not ch, 'not-empty:' + client, 'an arena that was cleared still has blocks', e.end[1], e.path())
            for y in life.blocks(a, e):
                if y in e.freed:
                    ctx.ok(what, y not in alive, 'released:' + client, 'a block of an arena that is in use has been released', e.end[1], e.path())
                    ctx.ok(what, y not in spare, 'spare-released:' + client, 'a block kept for reuse has been released', e.end[1], e.path())
                else:
                    ctx.ok(what, y in alive or y in spare, 'lost:%s:%s' % (client, life.where(a, y)), 'memory is neither given back nor kept for reuse', life.where(a, y), e.path())
                    ctx.ok(what, not (y in alive and y in spare), 'both:' + client, 'a block is in use and free for reuse at the same time', e.end[1], e.path())
            # the list of spare blocks has no block twice
            for x, ch in a.chain.items():
                if x in cleared or x in freed:
                    for b in ch:
                        ctx.ok(what, b[0] in e.freed or b[0] in spare or any(b[0] in (sh.held(a, e, z) if z not in freed else ()) for z in arenas if z != x), 'kept:' + client, 'a block stays with an arena that was %s' % ('freed' if x in freed else 'cleared'), e.end[1], e.path())
        if events:
            for x in events - seen:
                ctx.bad('events of ' + what, 'missing:%s:%s' % (client, x), 'the outcome %s never occurs' % (x,))
        if not done:
            ctx.bad('end of ' + what, 'never:' + client, 'the client never finishes')

    for k in range(5 if deep else 4):
        go('wa_clear', [A_], {'a': k}, cleared='a')
        go('wa_clear_twice', [A_], {'a': k}, cleared='a')
        go('wa_clear_free', [A_], {'a': k}, freed='a')
        go('wa_free', [A_], {'a': k}, freed='a')
        go('wa_clear_alloc', [A_, n], {'a': k})
        go('wa_alloc_free', [A_, n], {'a': k}, freed='a')
        go('wa_alloc', [A_, n], {'a': k})
        go('wa_capacity_cleared', [A_], {'a': k}, {(0,)}, cleared='a')
        if k < 3 or deep:
            go('wa_clear_many', [A_, n, m], {'a': k}, cleared='a')
            go('wa_failing', [A_, n], {'a': k}, oom=1)
        for r in range(1, 4 if deep else 3):
            if k < 3:
                go('wa_recycled', [O, A_, n], {'o': r, 'a': k}, cleared='o')
                go('wa_both', [O, A_, n, m], {'o': r, 'a': k})
                go('wa_clear_both', [O, A_], {'o': r, 'a': k}, cleared='oa')
                go('wa_free_after', [O, A_, n], {'o': r, 'a': k}, cleared='o', freed='a')
    go('wa_null', [], {}, {('panic',)})
    go('wa_init_free', [], {}, {None})
    go('wa_init_clear', [], {}, {(0,)})
    go('wa_failing_init', [], {}, {(1,), ('panic',)}, oom=1)
    go('wa_init', [n], {}, {(0, 0)})
    go('wa_reuse', [n], {}, {(1,)})
    go('wa_history', [n, m], {})
    go('wa_history_two', [n, m], {})
    if deep:
        go('wa_history_long', [n, m], {})
    tls = ctx.mod('w_tls.c')
    args, ev = threads.BESIDE['wv_arena']
    threads.check(ctx, tls, 'wv_arena', args, ev, 'arenas of two threads', joins=False)
