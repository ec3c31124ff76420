/* signals as errors */
#include "raii.h"
#include <signal.h>
void ev(int n); int nd(void); int choose(int n); void ev_int(long n); void ev_str(const char *s); void m_raise(int sig); int m_sig(void); void m_mask(int k);
static void d1(void *x) { ev(21); }
static void rel(void *x) { ev(30); }
static void on_c(void) { ev(41); }
static void on_end(void) { ev(40); }
void wg_all(void) {
    ex_signal_setup();
    try { m_raise(m_sig()); ev(1); } catch_any { ev_str(err); } finally { ev(5); } end_try;
}
/* the macros install the handlers by themselves */
void wg_auto(void) { try { m_raise(m_sig()); ev(1); } catch_any { ev_str(err); } finally { ev(5); } end_try; }
void wg_auto_guard(void) { try { guard { _defer(d1, 0); m_raise(SIGSEGV); } guarded; ev(1); } catch (sig_segv) { ev(2); } finally { ev(5); } end_try; }
void wg_auto_scope(void) { raii_init(); raii_defer(d1, 0); m_raise(SIGFPE); ev(1); }
/* again and again */
void wg_repeat(void) {
    int i;
    for (i = 0; i < 3; i++) { try { m_raise(SIGSEGV); ev(1); } catch (sig_segv) { ev(2); } finally { ev(5); } end_try; m_mask(0); }
}
void wg_select(void) {
    try { m_raise(choose(2) ? SIGILL : SIGFPE); ev(1); } catch (sig_ill) { ev(2); } catch (sig_fpe) { ev(3); } catch_any { ev(4); } finally { ev(5); } end_try;
    m_mask(0);
}
void wg_renamed(void) {
    ex_signal_setup(); ex_signal(SIGINT, "mine");
    try { m_raise(choose(2) ? SIGINT : SIGTERM); ev(1); } catch_any { ev_str(err); } finally { ev(5); } end_try;
}
/* more registrations than there is room for */
static const char mine[] = "mine";
void wg_many(void) {
    int i;
    ex_signal_setup();
    for (i = 34; i < 64; i++) ex_signal(i, mine);
    ex_signal(SIGUSR1, mine);
    try { m_raise(m_sig()); ev(1); } catch_any { ev_str(err); } finally { ev(5); } end_try;
}
void wg_refused(void) {
    ex_signal_setup(); ex_signal(SIGUSR1, mine); ex_signal(SIGUSR2, mine);
    try { m_raise(m_sig()); ev(1); } catch_any { ev_str(err); } finally { ev(5); } end_try;
}
void wg_default(void) { ex_signal_setup(); ex_signal_default(); ev(1); }
void wg_default_again(void) {
    try { m_raise(SIGSEGV); ev(1); } catch (sig_segv) { ev(2); } finally { ev(5); } end_try;
    ex_signal_default();
    try { m_raise(SIGSEGV); ev(1); } catch (sig_segv) { ev(2); } finally { ev(5); } end_try;
}
void wg_uncaught(void) { raii_init(); raii_defer(d1, 0); void *p = &p; protected(p, rel); exception_ctrl_c_func = on_c; exception_terminate_func = on_end; m_raise(choose(2) ? SIGINT : SIGTERM); ev(1); }
static void on_c_throw(void) { ev(46); throw(logic_error); ev(1); }
void wg_uncaught_throw(void) { raii_init(); raii_defer(d1, 0); void *p = &p; protected(p, rel); exception_ctrl_c_func = on_c_throw; exception_terminate_func = on_end; m_raise(choose(2) ? SIGINT : SIGTERM); ev(1); }
/* an ordinary error after a handled signal */
void wg_then(void) {
    try { m_raise(SIGINT); ev(1); } catch (sig_int) { ev(2); } finally { ev(5); } end_try;
    try { throw(range_error); ev(1); } catch_any { ev_str(err); } finally { ev(5); } end_try;
}
void wg_meta(void) { try { raii_panic("old"); } catch_any { ev(1); } finally { ev(2); } end_try;
    try { m_raise(SIGBUS); } catch_any { ev_str(err); ev_str(ex_err.panic); ev_str(err_file); ev_int(err_line); } finally { ev(5); } end_try; }
/* a signal wherever the program is: in a handler, in a finally part, in a nested section, while another error is under way */
void wg_in_handler(void) {
    try { try { throw(range_error); } catch_any { ev(1); m_raise(choose(2) ? SIGSEGV : SIGINT); ev(2); } finally { ev(3); } end_try; ev(4); }
    catch_any { ev_str(err); } finally { ev(5); } end_try; m_mask(0);
}
void wg_in_own_handler(void) {
    try { try { m_raise(SIGFPE); } catch (sig_fpe) { ev(1); m_raise(choose(2) ? SIGFPE : SIGBUS); ev(2); } finally { ev(3); } end_try; ev(4); }
    catch_any { ev_str(err); } finally { ev(5); } end_try; m_mask(0);
}
void wg_in_finally(void) {
    try { try { if (nd()) throw(range_error); } catch_any { ev(1); } finally { ev(2); m_raise(SIGTERM); ev(3); } end_try; ev(4); }
    catch_any { ev_str(err); } finally { ev(5); } end_try; m_mask(0);
}
void wg_in_guard_handler(void) {
    try { guard { _defer(d1, 0); try { throw(range_error); } catch_any { ev(1); m_raise(SIGSEGV); ev(2); } finally { ev(3); } end_try; ev(4); } guarded; ev(6); }
    catch_any { ev_str(err); } finally { ev(5); } end_try; m_mask(0);
}
void wg_after_guard(void) {
    try { guard { _defer(d1, 0); if (nd()) throw(range_error); } guarded; ev(1); m_raise(SIGILL); ev(2); } catch_any { ev_str(err); } finally { ev(5); } end_try;
    try { m_raise(SIGHUP); ev(2); } catch_any { ev_str(err); } finally { ev(6); } end_try; m_mask(0);
}
/* nothing left over from an earlier error of the same section */
void wg_meta_handler(void) {
    try { try { raii_panic("old"); } catch_any { m_raise(SIGBUS); } finally { ev(1); } end_try; }
    catch_any { ev_str(err); ev_str(ex_err.panic); ev_str(err_file); ev_int(err_line); } finally { ev(5); } end_try;
}
/* the end of the program: an uncaught signal, nothing set up for the end */
static void d_throw(void *x) { ev(24); throw(logic_error); ev(1); }
static void d_raise(void *x) { ev(25); m_raise(SIGSEGV); ev(1); }
void wg_end_plain(void) { raii_init(); if (nd()) malloc_default(4); raii_defer(d1, 0); m_raise(choose(2) ? SIGINT : SIGSEGV); ev(1); }
void wg_end_cleanup_throw(void) { raii_init(); malloc_default(4); raii_defer(d1, 0); raii_defer(d_throw, 0); m_raise(choose(2) ? SIGINT : SIGTERM); ev(1); }
void wg_end_guard(void) { guard { _defer(d1, 0); m_raise(choose(2) ? SIGINT : SIGTERM); ev(1); } guarded; ev(2); }
void wg_end_rethrow(void) { raii_init(); raii_defer(d1, 0); try { m_raise(SIGINT); ev(1); } catch_any { ev(2); rethrow(); } finally { ev(3); } end_try; ev(4); }
void wg_end_later(void) { raii_init(); raii_defer(d1, 0); try { m_raise(SIGINT); ev(1); } catch_any { ev(2); } finally { ev(3); } end_try; throw(range_error); ev(4); }
