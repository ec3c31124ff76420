/* handles that are not what is asked for, and threads without a scope */
#include "raii.h"
void ev(int n); int nd(void); int choose(int n); void ev_str(const char *s); void ev_int(int n); void m_assume(int c);
static void d1(void *x) { ev(21); }
static void *wk(args_t a) { return thrd_value(41); }
#define REFUSED(x) do { try { x; ev(1); } catch_any { ev_str(err); } end_try; ev(9); raii_destroy(); } while (0)
void wi_get_other(future f) { m_assume(f->type != RAII_FUTURE); REFUSED(thrd_get(f)); }
void wi_get_null(void) { REFUSED(thrd_get(0)); }
void wi_get_no_promise(future f) { m_assume(f->type == RAII_FUTURE); m_assume(f->value == 0); REFUSED(thrd_get(f)); }
void wi_get_other_promise(future f) { m_assume(f->type == RAII_FUTURE); m_assume(f->value != 0); m_assume(f->value->type != RAII_PROMISE); REFUSED(thrd_get(f)); }
void wi_get_group(void) { future_t g = thrd_scope(); REFUSED(thrd_get((future)g)); thrd_destroy(g); }
void wi_get_result(void) { future_t g = thrd_scope(); result_t r = thrd_spawn(wk, 0); try { thrd_get((future)r); ev(1); } catch_any { ev_str(err); } end_try; thrd_sync(g); ev_int(thrd_result(r).integer); thrd_destroy(g); raii_destroy(); }
void wi_get_guard(void) { guard { future f = thrd_async(wk, 0); ev_int(thrd_get(f).integer); _defer(d1, 0); thrd_get(f); ev(1); } guarded; }
void wi_sync_other(future_t g) { m_assume(g->type != RAII_SPAWN); REFUSED(thrd_sync(g)); }
void wi_sync_null(void) { REFUSED(thrd_sync(0)); }
void wi_sync_future(void) { future f = thrd_async(wk, 0); try { thrd_sync((future_t)f); ev(1); } catch_any { ev_str(err); } end_try; ev_int(thrd_get(f).integer); raii_destroy(); }
void wi_result_null(void) { REFUSED(thrd_result(0)); }
void wi_result_unready(result_t r) { m_assume(!r->is_ready); REFUSED(thrd_result(r)); }
void wi_result_early(void) { future_t g = thrd_scope(); result_t r = thrd_spawn(wk, 0); try { thrd_result(r); ev(1); } catch_any { ev_str(err); } end_try; thrd_sync(g); ev_int(thrd_result(r).integer); thrd_destroy(g); raii_destroy(); }
void wi_spawn_none(void) { REFUSED(thrd_spawn(wk, 0)); }
void wi_spawn_scope(void) { raii_init(); REFUSED(thrd_spawn(wk, 0)); }
void wi_spawn_guard(void) { try { guard { _defer(d1, 0); thrd_spawn(wk, 0); ev(1); } guarded; } catch_any { ev_str(err); } end_try; ev(9); raii_destroy(); }
void wi_spawn_ex_none(void) { REFUSED(thrd_spawn_ex(wk, "ii", 1, 2)); }
void wi_spawn_ex_scope(void) { raii_init(); REFUSED(thrd_spawn_ex(wk, "ii", 1, 2)); }
void wi_spawn_after(void) { future_t g = thrd_scope(); thrd_destroy(g); REFUSED(thrd_spawn(wk, 0)); }
void wi_spawn_ex_after(void) { future_t g = thrd_scope(); thrd_destroy(g); REFUSED(thrd_spawn_ex(wk, "i", 1)); }
void wi_spawn_arena(void) { raii_init()->arena = calloc(1, sizeof(struct future_pool)); void *p = raii_local()->arena; REFUSED(thrd_spawn(wk, 0)); free(p); }
/* nothing is set up in this thread yet */
void wu_defer(void) { raii_defer(d1, 0); ev(1); raii_destroy(); ev(2); }
void wu_recover(void) { raii_recover(d1, 0); ev(1); raii_destroy(); ev(2); }
void wu_defer_cancel(void) { raii_defer_cancel(raii_defer(d1, 0)); raii_destroy(); ev(2); }
void wu_defer_fire(void) { raii_defer_fire(raii_defer(d1, 0)); ev(1); raii_destroy(); ev(2); }
void wu_clean(void) { raii_deferred_clean(); ev(2); raii_destroy(); }
void wu_destroy(void) { raii_destroy(); ev(2); }
void wu_caught(void) { ev_int(raii_caught("x")); raii_destroy(); }
void wu_message(void) { ev_int(raii_message() == 0); raii_destroy(); }
void wu_malloc(void) { char *p = malloc_default(4); p[0] = 1; ev(1); raii_destroy(); }
void wu_calloc(void) { char *p = calloc_default(4, 4); p[0] = 1; ev(1); raii_destroy(); }
void wu_mid(void) { raii_mid(); ev(1); raii_destroy(); }
void wu_throw(void) { try { throw(range_error); ev(1); } catch (range_error) { ev(2); } end_try; raii_destroy(); }
void wu_panic(void) { try { raii_panic("x"); ev(1); } catch_any { ev_str(err); } end_try; raii_destroy(); }
void wu_throw_bare(void) { throw(range_error); }
void wu_guard(void) { guard { _defer(d1, 0); ev(1); } guarded; raii_destroy(); }
void wu_protect(void) { char *p = malloc(4); protected(p, free); ev(1); unprotected(p); free(p); raii_destroy(); }
void wu_scope(void) { future_t g = thrd_scope(); ev(1); thrd_destroy(g); raii_destroy(); }
void wu_async(void) { future f = thrd_async(wk, 0); ev_int(thrd_get(f).integer); raii_destroy(); }
void wu_args(void) { args_t a = args_for("i", 5); ev_int(get_args(a, 0).integer); raii_destroy(); }
void wu_memdup(void) { raii_memdup("abc", 4); ev(1); raii_destroy(); }
void wu_concat(void) { raii_concat(2, "a", "b"); ev(1); raii_destroy(); }
