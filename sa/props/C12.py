from core import *
import trace

EXPLANATION = ('Typestate of the signal mask: the mask is a value of the abstract state, changed only by the modelled mask functions and by '
               'the modelled jumps (which restore a mask only when it was saved). Clients with deferred functions, allocations, protected '
               'pointers, nested sections, recovery and errors thrown at every chosen place are abstractly interpreted from an unknown '
               'mask. Every call of a cleanup made while a throw is on the call stack must find all signals blocked, and every handler, '
               'finally part and client statement after it must find the mask its try block was entered with.')

# once the program is ending nothing is promised about the mask
ENDING = ('ex_terminate', 'raii_destroy')


def run(ctx):
    mod = ctx.mod('w_mask.c')
    ctx.need(mod, 'ex_throw', 'ex_init')
    M0 = V(L.sym(('arg', 'mask0')))
    n = {'clean': 0, 'mask': 0}

    def clean(an, st, ins, a):
        names = [f.fn.name for f in st.frames]
        last = max([i for i, x in enumerate(names) if x == 'ex_throw'] or [-1])
        end = max([i for i, x in enumerate(names) if x in ENDING] or [-1])
        if last >= 0 and last > end:
            n['clean'] += 1
            an.checked[an.m.where(ins), 'clean'] = 1
            if st.ghost.get('mask', M0) != K(-1):
                an.report(st, ins, 'unblocked:%s' % an.m.where(ins), 'a cleanup runs during a throw while signals are not blocked (%s)' % ' > '.join(names))
        return trace.m_ev(an, st, ins, a)

    def mask(an, st, ins, a):
        k = st.norm(a[0])[0]
        n['mask'] += 1
        want = M0 if k == 0 else K(k)
        got = st.ghost.get('mask', M0)
        if got != want:
            an.report(st, ins, 'mask:%s' % an.m.where(ins), 'the signal mask is %s, not the one in force before (%s)' % ('all signals' if got == K(-1) else show(got), show(want)))
        return [(st, None)]

    def setmask(an, st, ins, a):
        st.ghost['mask'] = M0 if st.norm(a[0])[0] == 0 else st.norm(a[0])
        return [(st, None)]
    MD = {'m_clean': clean, 'm_mask': mask, 'm_setmask': setmask}
    for w in ('try', 'set', 'nested', 'rethrow', 'prot', 'prot_thread', 'guard', 'guard_deep', 'recover', 'cleanup_try', 'scope', 'twice', 'init', 'init_set', 'many', 'changed', 'changed_guard', 'changed_recover'):
        for setup in (True, False) if w == 'init_set' or ctx.thorough else (False,):
            md = dict(MD)
            if setup:
                md.update({'ex_signal_setup': None, 'sigaction': lambda an, st, ins, a: [(st, ZERO)]})
            rule = 'mask in wm_' + w
            a = ctx.an(mod, models={**trace.MODELS, **md}, unroll=70)
            a.checked = {}
            a.start('wm_' + w, [])
            c0 = dict(n)
            ctx.pull(a, rule)
            ctx.count(rule, len(ctx.ends(a)))
            ctx.sample('wm_%s: %s' % (w, '; '.join(' '.join(map(str, t)) for t in sorted(trace.traces(ctx, a), key=str)[:5])))
    if not n['clean'] or not n['mask']:
        raise Anchor('no cleanup runs during a throw in any client')
    ctx.count('cleanups found blocked', n['clean'])
    ctx.count('masks found unchanged', n['mask'])
