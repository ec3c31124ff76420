/* what a throw does, seen from outside */
#include "raii.h"
void ev(int n); int nd(void); int choose(int n); void ev_int(long n); void ev_str(const char *s); void bad(int n);
static void d1(void *x) { ev(21); }
static void d2(void *x) { ev(22); }
static void d_throw(void *x) { ev(24); throw(logic_error); bad(4); }
static void rel(void *x) { ev(30); }
static void on_end(void) { ev(40); }
static const char mine[] = "mine";
#define META() do { ev_str(ex_err.ex); ev_str(ex_err.file); ev_int(ex_err.line); ev_str(ex_err.function); ev_str(ex_err.panic); } while (0)
void wt_meta(const char *n, const char *f, int l, const char *fn, const char *m) {
    try { ev(1); ex_throw(n, f, l, fn, m, 0); bad(1); } catch_any { ev(2); META(); ev_str(err); ev_str(err_file); ev_int(err_line); } finally { ev(3); } end_try;
    ev(4);
}
void wt_finally(const char *n, const char *f, int l, const char *fn, const char *m) {
    try { try { ex_throw(n, f, l, fn, m, 0); bad(1); } finally { ev(2); ev_str(err); ev_int(err_line); } end_try; bad(2); } catch_any { ev(3); META(); } finally { ev(4); } end_try;
}
void wt_rethrow(const char *n, const char *f, int l, const char *fn, const char *m) {
    try { try { ex_throw(n, f, l, fn, m, 0); bad(1); } catch_any { ev(2); rethrow(); bad(2); } finally { ev(3); } end_try; bad(3); }
    catch_any { ev(4); META(); } finally { ev(5); } end_try;
}
void wt_nomatch(const char *n, const char *f, int l, const char *fn, const char *m) {
    try { try { ex_throw(mine, f, l, fn, m, 0); bad(1); } catch (out_of_memory) { bad(2); } finally { ev(3); } end_try; bad(3); }
    catch_any { ev(4); META(); } finally { ev(5); } end_try;
}
void wt_guard(const char *n, const char *f, int l, const char *fn, const char *m) {
    try { guard { _defer(d1, 0); if (nd()) _malloc(8); ex_throw(n, f, l, fn, m, 0); bad(1); } guarded; bad(2); } catch_any { ev(4); META(); } finally { ev(5); } end_try;
}
void wt_guard_deep(const char *n, const char *f, int l, const char *fn, const char *m) {
    try { guard { _defer(d1, 0); guard { _malloc(4); try { ex_throw(mine, f, l, fn, m, 0); bad(1); } catch (out_of_memory) { bad(3); } finally { ev(6); } end_try; } guarded; bad(2); } guarded; }
    catch_any { ev(4); META(); } finally { ev(5); } end_try;
}
void wt_seen(const char *n, const char *f, int l, const char *fn, const char *m) {
    raii_init();
    try { ex_throw(n, f, l, fn, m, 0); } catch_any { ev(1); ev_str(raii_message()); } finally { ev(2); } end_try;
}
/* the macros */
void wt_macro(void) { volatile int l = 0; try { l = __LINE__; throw(range_error); bad(1); } catch_any { ev_str(ex_err.ex); ev_int(strcmp(ex_err.file, __FILE__)); ev_int(ex_err.line - l); ev_str(ex_err.function); ev_str(ex_err.panic); } finally { ev(3); } end_try; }
void wt_panic(const char *m) { try { raii_panic(m); bad(1); } catch_any { ev_str(ex_err.ex); ev_str(ex_err.function); ev_str(ex_err.panic); } finally { ev(3); } end_try; }
void wt_catch_panic(void) { try { _panic("boom"); bad(1); } catch (panic) { ev(2); ev_str(ex_err.panic); } finally { ev(3); } end_try; }
/* nobody catches */
void wt_bare(const char *n, const char *f, int l, const char *fn, const char *m) { ex_throw(n, f, l, fn, m, 0); bad(1); }
void wt_bare_scope(void) { raii_init(); raii_defer(d1, 0); if (nd()) malloc_default(4); raii_defer(d2, 0); throw(range_error); bad(1); }
void wt_bare_hook(void) { exception_terminate_func = on_end; raii_init(); raii_defer(d1, 0); throw(range_error); bad(1); }
/* the functions called at the end may throw themselves: it is still the end */
static void on_end_throw(void) { ev(41); throw(logic_error); bad(6); }
static void on_end_try(void) { ev(42); try { throw(logic_error); bad(1); } catch_any { ev(43); } finally { ev(44); } end_try; ev(45); }
void wt_bare_hook_throw(void) { exception_terminate_func = on_end_throw; raii_init(); raii_defer(d1, 0); throw(range_error); bad(1); }
void wt_bare_hook_try(void) { exception_terminate_func = on_end_try; raii_init(); raii_defer(d1, 0); throw(range_error); bad(1); }
void wt_bare_try(void) { raii_init(); raii_defer(d1, 0); try { throw(range_error); bad(1); } catch (logic_error) { bad(2); } finally { ev(3); } end_try; bad(3); }
void wt_bare_guard(void) { raii_init(); raii_defer(d1, 0); guard { _defer(d2, 0); if (nd()) _malloc(4); throw(range_error); bad(1); } guarded; bad(3); }
/* an error while cleaning up ends the program, the other cleanups still run once */
void wt_twice_scope(void) { raii_init(); raii_defer(d1, 0); malloc_default(4); raii_defer(d_throw, 0); raii_defer(d2, 0); throw(range_error); bad(1); }
void wt_twice_try(void) {
    raii_init(); raii_defer(d1, 0);
    void *p = &p;
    try { protected(p, d_throw); throw(range_error); bad(1); } catch_any { bad(2); } finally { bad(3); } end_try;
    bad(5);
}
static void d_catch(void *x) { ev(25); try { throw(logic_error); bad(1); } catch_any { ev(26); } finally { ev(27); } end_try; ev(28); }
/* a cleanup may use try itself */
void wt_try_in_cleanup(void) {
    try { guard { _defer(d1, 0); if (nd()) _malloc(4); _defer(d_catch, 0); throw(range_error); bad(1); } guarded; bad(2); } catch (range_error) { ev(4); } finally { ev(5); } end_try;
    ev(6);
}
void wt_uncaught(void) { ev_int(ex_uncaught_exception()); try { throw(range_error); } catch_any { ev_int(ex_uncaught_exception()); } finally { ev(5); } end_try; ev_int(ex_uncaught_exception()); }
/* thrown again in the handler of the same section: nothing is left of the first error */
void wt_again(const char *n, const char *f, int l, const char *fn, const char *m) {
    try { try { ex_throw(n, f, l, fn, m, 0); bad(1); } catch_any { ev(2); ex_throw(mine, 0, 0, 0, 0, 0); bad(2); } finally { ev(3); } end_try; bad(3); }
    catch_any { ev(4); META(); } finally { ev(5); } end_try;
}
void wt_again_finally(const char *n, const char *f, int l, const char *fn, const char *m) {
    try { try { ex_throw(mine, 0, 0, 0, 0, 0); bad(1); } catch_any { ev(2); } finally { ev(3); ex_throw(n, f, l, fn, m, 0); bad(2); } end_try; bad(3); }
    catch_any { ev(4); META(); } finally { ev(5); } end_try;
}
void wt_again_guard(const char *n, const char *f, int l, const char *fn, const char *m) {
    try { guard { _defer(d1, 0); try { ex_throw(n, f, l, fn, m, 0); bad(1); } catch_any { ev(2); ex_throw(mine, 0, -7, 0, 0, 0); bad(2); } finally { ev(3); } end_try; bad(3); } guarded; bad(4); }
    catch_any { ev(4); META(); } finally { ev(5); } end_try;
}
