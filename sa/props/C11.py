from core import *
import trace

EXPLANATION = ('Clients that set up signal handling (explicitly, or through the macros) are abstractly interpreted with a model of the process '
               'signal table that records every installation; a modelled delivery calls the handler installed for that signal in the place '
               'where the client is. For every signal installed the error reaching the handler must be the one of that signal; repeated, '
               'renamed, refused and default registrations and the signal mask after handling are compared with the expected ones.')

SIG = {'sig_hup': 1, 'sig_int': 2, 'sig_quit': 3, 'sig_ill': 4, 'sig_trap': 5, 'sig_abrt': 6, 'sig_bus': 7, 'sig_fpe': 8, 'sig_segv': 11, 'sig_alrm': 14, 'sig_term': 15, 'sig_winch': 28}


def run(ctx):
    mod = ctx.mod('w_sig.c')
    ctx.need(mod, 'ex_signal', 'ex_signal_setup', 'ex_signal_default', 'ex_throw')
    R, E, X = 'return', 'exit', '_Exit'
    NAME = {v: k for k, v in SIG.items()}

    def action(an, st, ins, a):
        sig = st.norm(a[0])
        if not is_const(sig):
            an.report(st, ins, 'unknown-signal', 'a handler is installed for an unknown signal')
            return [(st, ZERO)]
        b = A.baseof(st.norm(a[1]))
        if b is None:
            return [(st, ZERO)]
        o = sub(st.norm(a[1]), V(b))
        h = st.norm(an.load(st, b, o, 8, True))
        fl = st.norm(an.load(st, b, add(o, K(136)), 4))
        act = dict(st.ghost.get('act', ()))
        act[sig[0]] = (an.fname_of(h) or (h[0] if is_const(h) else '?'), fl[0] if is_const(fl) else '?')
        st.ghost['act'] = tuple(sorted(act.items()))
        return [(st, ZERO)]

    def deliver(an, st, ins, a):
        sig = st.norm(a[0])[0]
        act = dict(st.ghost.get('act', ()))
        h = act.get(sig)
        st.ghost['tr'] = st.ghost.get('tr', ())
        if not h or h[0] not in an.m.funcs:
            an.report(st, ins, 'no-handler:%s' % NAME.get(sig, sig), 'signal %s is raised but no handler of the library is installed' % NAME.get(sig, sig))
            st.dead = True
            return []
        if h[1] == '?' or h[1] & 0x80000000:
            an.report(st, ins, 'one-shot:%s' % NAME.get(sig, sig), 'the handler of %s is removed when it is first called' % NAME.get(sig, sig))
        st.ghost['mask'] = V(L.fresh('mask_in_handler'))
        an.push(st, h[0], [K(sig)], ins)
        return None

    def anysig(an, st, ins, a):
        out = []
        act = dict(st.ghost.get('act', ()))
        for sig in sorted(set(act) | set(NAME)):
            x = st.clone()
            x.ghost['tr'] = ('signal %s' % NAME.get(sig, sig),)
            x.log('signal %d is delivered' % sig)
            out.append((x, K(sig)))
        return out
    M0 = V(L.sym(('arg', 'mask0')))

    def mask(an, st, ins, a):
        m = st.ghost.get('mask', M0)
        if m != M0:
            an.report(st, ins, 'mask-kept', 'after the signal was handled the signal mask is not what it was before')
        return [(st, None)]
    MD = {'ex_signal_setup': None, 'sigaction': action, 'm_raise': deliver, 'm_sig': anysig, 'm_mask': mask}
    t = lambda w, x, **k: trace.check(ctx, mod, w, x, models=MD, unroll=70, leak=True, **k)
    every = {('signal ' + k, k, 5, R) for k in SIG}
    a, tr = t('wg_all', every)
    for e in ctx.ends(a):
        act = dict(e.ghost['act'])
        ctx.ok('installed signals', set(act) == set(NAME), 'installed', 'signals with a handler: %s' % sorted(act), e.end[1])
    t('wg_auto', every)
    t('wg_auto_guard', {(21, 2, 5, R)})
    t('wg_auto_scope', {(21, X)})
    t('wg_repeat', {(2, 5) * 3 + (R,)})
    t('wg_select', {(2, 5, R), (3, 5, R)})
    t('wg_renamed', {('mine', 5, R), ('sig_term', 5, R)})
    extra = set(range(34, 54))
    a, tr = t('wg_many', every | {('signal %d' % i, 'mine', 5, R) for i in extra})
    t('wg_refused', every | {('signal 10', 'mine', 5, R), ('signal 12', 'mine', 5, R)})
    a, tr = t('wg_default', {(1, R)})
    for e in ctx.ends(a):
        act = dict(e.ghost.get('act', ()))
        for sig in SIG.values():
            ctx.ok('default again', act.get(sig, ('?',))[0] == 0, 'default:%s' % NAME[sig], '%s still has %s after the default was restored' % (NAME[sig], act.get(sig)), e.end[1], e.path())
    t('wg_default_again', {(2, 5, 2, 5, R)})
    # the order between a deferred function and a protected pointer is nobody's promise
    t('wg_uncaught', lambda t, e: t in {w[:2] + c + (40, X) for w in ((21, 30), (30, 21)) for c in ((), (41,))})
    t('wg_uncaught_throw', lambda t, e: t in {w[:2] + c + (40, X) for w in ((21, 30), (30, 21)) for c in ((), (46,))})
    t('wg_then', {(2, 5, 'range_error', 5, R)})
    t('wg_meta', {(1, 2, 'sig_bus', 'null', 'unknown', 0, 5, R)})
    t('wg_in_handler', {(1, 3, x, 5, R) for x in ('sig_segv', 'sig_int')})
    t('wg_in_own_handler', {(1, 3, x, 5, R) for x in ('sig_fpe', 'sig_bus')})
    t('wg_in_finally', {(2, 'sig_term', 5, R), (1, 2, 'sig_term', 5, R)})
    t('wg_in_guard_handler', {(1, 3, 21, 'sig_segv', 5, R)})
    t('wg_after_guard', {(21, 'range_error', 5, 'sig_hup', 6, R), (21, 1, 'sig_ill', 5, 'sig_hup', 6, R)})
    t('wg_meta_handler', {(1, 'sig_bus', 'null', 'unknown', 0, 5, R)})
    for w, x in (('wg_end_plain', {(21, X)}), ('wg_end_cleanup_throw', {(24, 21, X)}), ('wg_end_guard', {(21, X)}), ('wg_end_rethrow', {(2, 3, 21, X)}), ('wg_end_later', {(2, 3, 21, X), (2, 3, 21, E)})):
        a, tr = t(w, lambda y, e: y in x)
        ctx.ok('uncaught signals', bool(tr), 'end:' + w, '%s has no execution' % w)
        for e in ctx.ends(a, E):
            ctx.ok('uncaught signals', e.ghost['exit'][1] not in (0, None), 'status:' + w, 'an uncaught signal ends the program with status %s' % (e.ghost['exit'][1],), e.end[1], e.path())
