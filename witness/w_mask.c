/* the signal mask around a throw: ev(n) is called in handlers and client code, cleanups call m_clean(n) */
#include "raii.h"
void ev(int n); int nd(void); int choose(int n); void m_clean(int n); void m_mask(int k); void m_setmask(int k);
static void d1(void *x) { m_clean(21); }
static void d_panic(void *x) { m_clean(24); throw(logic_error); }
static void d_rec(void *x) { m_clean(25); if (_recover("range_error")) ev(26); }
static void d_try(void *x) { m_clean(27); try { throw(logic_error); } catch_any { ev(28); } finally { ev(29); } end_try; m_clean(22); }
static void rel(void *x) { m_clean(30); }
static void boom(int k) { if (k == 1) throw(range_error); if (k == 2) raii_panic("p"); }
void wm_try(void) { try { ev(1); boom(choose(3)); } catch (range_error) { m_mask(0); ev(2); } finally { m_mask(0); ev(3); } end_try; m_mask(0); ev(4); }
void wm_set(void) { m_setmask(7); try { ev(1); boom(choose(3)); } catch (range_error) { m_mask(7); ev(2); } finally { m_mask(7); ev(3); } end_try; m_mask(7); ev(4); }
void wm_nested(void) {
    try { try { ev(1); boom(choose(3)); } catch (range_error) { m_mask(0); ev(2); boom(choose(2)); } finally { m_mask(0); ev(3); } end_try; m_mask(0); ev(4); }
    catch_any { m_mask(0); ev(5); } finally { m_mask(0); ev(6); } end_try; m_mask(0);
}
void wm_rethrow(void) {
    void *p = &p;
    try { protected(p, rel); try { boom(1); } catch_any { m_mask(0); rethrow(); } finally { m_mask(0); } end_try; } catch_any { m_mask(0); ev(5); } finally { ev(6); } end_try;
    m_mask(0);
}
void wm_prot(void) {
    void *p = &p, *q = &q;
    try { protected(p, rel); protected(q, rel); boom(choose(3)); unprotected(p); unprotected(q); } catch_any { m_mask(0); ev(2); } finally { m_mask(0); } end_try;
    m_mask(0);
}
void wm_prot_thread(void) { void *p = &p; m_mask(0); protected(p, rel); m_mask(0); boom(choose(2)); unprotected(p); m_mask(0); ev(1); }
void wm_guard(void) {
    try { guard { m_mask(0); _defer(d1, 0); _malloc(4); m_mask(0); boom(choose(3)); ev(1); } guarded; m_mask(0); ev(2); } catch_any { m_mask(0); ev(3); } finally { m_mask(0); ev(4); } end_try;
    m_mask(0);
}
void wm_guard_deep(void) {
    try { guard { _defer(d1, 0); _malloc(4); guard { _malloc(4); _defer(d1, 0); boom(choose(3)); ev(1); } guarded; m_mask(0); ev(2); } guarded; } catch_any { m_mask(0); ev(3); } finally { m_mask(0); ev(4); } end_try;
    m_mask(0);
}
void wm_recover(void) { guard { m_mask(0); _malloc(4); _defer(d_rec, 0); _defer(d1, 0); boom(1); ev(1); } guarded; m_mask(0); ev(2); }
void wm_cleanup_try(void) { try { guard { _malloc(4); _defer(d_try, 0); _defer(d1, 0); boom(1); ev(1); } guarded; } catch_any { m_mask(0); ev(3); } finally { ev(4); } end_try; m_mask(0); }
void wm_scope(void) { m_mask(0); raii_init(); m_mask(0); malloc_default(4); raii_defer(d1, 0); m_mask(0); boom(choose(3)); ev(1); m_mask(0); }
void wm_twice(void) { raii_init(); malloc_default(4); raii_defer(d1, 0); raii_defer(d_panic, 0); boom(1); }
void wm_init(void) { m_mask(0); ex_init(); m_mask(0); ex_init(); m_mask(0); raii_init(); m_mask(0); }
void wm_init_set(void) { m_setmask(9); ex_init(); m_mask(9); raii_init(); m_mask(9); ex_signal_setup(); m_mask(9); ex_signal_default(); m_mask(9); }
void wm_many(void) { int i; for (i = 0; i < 3; i++) { m_mask(0); try { void *p = &p; protected(p, rel); guard { _malloc(4); _defer(d1, 0); boom(choose(2)); } guarded; unprotected(p); } catch_any { m_mask(0); } finally { m_mask(0); } end_try; } m_mask(0); }
/* thrown while another mask is in force, as from the handler of a signal */
void wm_changed(void) { void *p = &p; try { protected(p, rel); m_setmask(8); boom(choose(3)); m_setmask(0); unprotected(p); } catch_any { m_mask(0); ev(2); } finally { m_mask(0); ev(3); } end_try; m_mask(0); }
void wm_changed_guard(void) { try { guard { _defer(d1, 0); if (nd()) _malloc(4); m_setmask(8); boom(1 + choose(2)); } guarded; } catch_any { m_mask(0); ev(2); } finally { m_mask(0); ev(3); } end_try; m_mask(0); }
void wm_changed_recover(void) { guard { _malloc(4); _defer(d_rec, 0); m_setmask(8); boom(1); ev(1); } guarded; m_mask(0); ev(2); }
