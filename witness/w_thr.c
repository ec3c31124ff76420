/* futures and groups; ev(n) marks an event of the program, wv(n) checks made inside workers */
#include "raii.h"
void ev(int n); int nd(void); int choose(int n); void ev_str(const char *s); void ev_int(int n); void m_assume(int c);
static void d1(void *x) { ev(21); }
static void wfree(void *x) { free(x); }

static void *wk_value(args_t a) { return thrd_value(41); }
static void *wk_null(args_t a) { return 0; }
static void *wk_arg(args_t a) { return thrd_value((intptr_t)a); }
static void *wk_defer(args_t a) { raii_defer((func_t)wfree, malloc(8)); char *p = malloc_default(16); p[3] = 1; return thrd_value(42); }
static void *wk_scope(args_t a) { char *p = malloc_full(raii_init(), 16, free); p[3] = 1; raii_defer((func_t)wfree, malloc(8)); return thrd_value(43); }
static void *wk_throw(args_t a) { throw(range_error); return 0; }
static void *wk_throw_cleanup(args_t a) { raii_defer((func_t)wfree, malloc(8)); malloc_default(16); throw(range_error); return 0; }
static void *wk_maybe(args_t a) { if (nd()) throw(range_error); return thrd_value(44); }
static void *wk_panic(args_t a) { raii_panic("boom"); return 0; }
static void *wk_caught(args_t a) { volatile int r = 0; try { throw(range_error); } catch (range_error) { r = 45; } finally { r++; } end_try; return thrd_value(r); }
static void rec(void *x) { _recover("range_error"); }
static void rec2(void *x) { raii_caught("range_error"); }
static void *wk_recover(args_t a) { raii_recover_by((memory_t *)raii_local()->arena, rec, 0); throw(range_error); return 0; }
static void *wk_returning(args_t a) { get_args(a, 0); int *v = malloc(2 * sizeof(int)); v[0] = 7; v[1] = 8; return thrd_returning(a, v, 2 * sizeof(int)); }
static void *wk_returning_two(args_t a) { get_args(a, 0); thrd_returning(a, malloc(8), 8); int *v = malloc(2 * sizeof(int)); v[0] = 7; v[1] = 8; return thrd_returning(a, v, 2 * sizeof(int)); }
static void *wk_returning_not(args_t a) { get_args(a, 0); thrd_returning(a, malloc(8), 8); return thrd_value(46); }
static void *wk_returning_throw(args_t a) { get_args(a, 0); thrd_returning(a, malloc(8), 8); throw(range_error); return 0; }
static void *wk_args(args_t a) { return thrd_value(get_args(a, 0).integer + get_args(a, 1).integer); }
static void *wk_args_throw(args_t a) { int n = get_args(a, 0).integer; throw(range_error); return thrd_value(n); }
static void *wk_args_returning(args_t a) { int *v = malloc(2 * sizeof(int)); v[0] = get_args(a, 0).integer; v[1] = 8; return thrd_returning(a, v, 2 * sizeof(int)); }
static void *wk_nested(args_t a) { future f = thrd_async(wk_value, 0); return thrd_value(thrd_get(f).integer + 1); }

void wh_value(void) { future f = thrd_async(wk_value, 0); ev_int(thrd_get(f).integer); raii_destroy(); }
void wh_null(void) { future f = thrd_async(wk_null, 0); ev_int(thrd_get(f).object == 0); raii_destroy(); }
void wh_arg(void *x) { future f = thrd_async(wk_arg, x); ev_int(thrd_get(f).object == x); raii_destroy(); }
void wh_defer(void) { future f = thrd_async(wk_defer, 0); ev_int(thrd_get(f).integer); raii_destroy(); }
void wh_scope(void) { future f = thrd_async(wk_scope, 0); ev_int(thrd_get(f).integer); raii_destroy(); }
void wh_caught(void) { future f = thrd_async(wk_caught, 0); ev_int(thrd_get(f).integer); raii_destroy(); }
void wh_recover(void) { future f = thrd_async(wk_recover, 0); ev_int(thrd_get(f).object == 0); raii_destroy(); }
static void *wk_recover_late(args_t a) { raii_recover(rec2, 0); throw(range_error); return 0; }
void wh_recover_late(void) { future f = thrd_async(wk_recover_late, 0); try { thrd_get(f); ev(1); } catch (range_error) { ev(2); } end_try; raii_destroy(); }
void wh_nested(void) { future f = thrd_async(wk_nested, 0); ev_int(thrd_get(f).integer); raii_destroy(); }
void wh_throw(void) {
    future f = thrd_async(wk_throw, 0);
    try { thrd_get(f); ev(1); } catch_any { ev_str(err); ev_str(ex_err.panic); } finally { ev(2); } end_try;
    raii_destroy();
}
void wh_throw_cleanup(void) {
    future f = thrd_async(wk_throw_cleanup, 0);
    try { thrd_get(f); ev(1); } catch_any { ev_str(err); ev_str(ex_err.panic); } finally { ev(2); } end_try;
    raii_destroy();
}
void wh_panic(void) {
    future f = thrd_async(wk_panic, 0);
    try { thrd_get(f); ev(1); } catch_any { ev_str(err); ev_str(ex_err.panic); } finally { ev(2); } end_try;
    raii_destroy();
}
void wh_maybe(void) {
    future f = thrd_async(wk_maybe, 0);
    try { ev_int(thrd_get(f).integer); } catch (range_error) { ev(1); } end_try;
    raii_destroy();
}
void wh_guard(void) {
    try {
        guard { _defer(d1, 0); future f = thrd_async(wk_maybe, 0); ev_int(thrd_get(f).integer); } guarded;
    } catch (range_error) { ev(1); } end_try;
    raii_destroy();
}
void wh_uncaught(void) { raii_defer((func_t)d1, 0); future f = thrd_async(wk_throw, 0); thrd_get(f); ev(1); }
void wh_args(void) { future f = thrd_async(wk_args, args_for("ii", 3, 4)); ev_int(thrd_get(f).integer); raii_destroy(); }
void wh_args_throw(void) {
    future f = thrd_async(wk_args_throw, args_for("ii", 3, 4));
    try { thrd_get(f); ev(1); } catch (range_error) { ev(2); } end_try;
    raii_destroy();
}
static void show2(values_type v) { int *p = (int *)v.object; ev_int(p[0]); ev_int(p[1]); }
void wh_returning(void) { future f = thrd_async(wk_returning, args_for("i", 3)); show2(thrd_get(f)); raii_destroy(); }
void wh_returning_two(void) { future f = thrd_async(wk_returning_two, args_for("i", 3)); show2(thrd_get(f)); raii_destroy(); }
void wh_returning_not(void) { future f = thrd_async(wk_returning_not, args_for("i", 3)); ev_int(thrd_get(f).integer); raii_destroy(); }
void wh_returning_throw(void) {
    future f = thrd_async(wk_returning_throw, args_for("i", 3));
    try { thrd_get(f); ev(1); } catch (range_error) { ev(2); } end_try;
    raii_destroy();
}
void wh_two(void) {
    future f = thrd_async(wk_value, 0), g = thrd_async(wk_defer, 0);
    if (nd()) { ev_int(thrd_get(g).integer); ev_int(thrd_get(f).integer); } else { ev_int(thrd_get(f).integer); ev_int(thrd_get(g).integer); }
    raii_destroy();
}
void wh_two_throw(void) {
    future f = thrd_async(wk_throw, 0), g = thrd_async(wk_value, 0);
    try { thrd_get(f); ev(1); } catch (range_error) { ev(2); } end_try;
    ev_int(thrd_get(g).integer);
    raii_destroy();
}
void wh_wait(void) { future f = thrd_async(wk_value, 0); thrd_wait(f, thrd_yield); ev_int(thrd_is_done(f)); ev_int(thrd_get(f).integer); raii_destroy(); }
void wh_done(void) { future f = thrd_async(wk_value, 0); if (thrd_is_done(f)) ev(1); else ev(2); ev_int(thrd_get(f).integer); raii_destroy(); }
void wh_rounds(void) { int i; for (i = 0; i < 3; i++) { future f = thrd_async(wk_maybe, 0); try { ev_int(thrd_get(f).integer); } catch (range_error) { ev(1); } end_try; } raii_destroy(); }
void wh_start_fails(void) {
    raii_defer((func_t)d1, 0);
    try { future f = thrd_async(wk_value, 0); ev_int(thrd_get(f).integer); } catch_any { ev_str(err); } end_try;
    raii_destroy();
}
/* the creator's own scope and handlers go on as before */
void wh_own(void) {
    char *p = malloc_default(4); raii_defer((func_t)d1, 0); p[1] = 5;
    try { future f = thrd_async(wk_maybe, 0); ev_int(thrd_get(f).integer); throw(logic_error); } catch (logic_error) { ev(1); } catch (range_error) { ev(2); } end_try;
    ev_int(p[1]);
    raii_destroy();
}
/* work between start and get in the creator */
void wh_meanwhile(void) {
    future f = thrd_async(wk_defer, 0);
    char *p = malloc_default(4); raii_defer((func_t)d1, 0); p[1] = 5;
    try { throw(logic_error); } catch (logic_error) { ev(1); } end_try;
    guard { _malloc(8); ev(2); } guarded;
    ev_int(thrd_get(f).integer);
    ev_int(p[1]);
    raii_destroy();
}

/* never asked for: joined when the scope ends */
void wh_abandon(void) { thrd_async(wk_defer, 0); thrd_async(wk_throw_cleanup, 0); raii_destroy(); ev(1); }
void wh_abandon_args(void) { thrd_async(wk_args, args_for("ii", 3, 4)); thrd_async(wk_returning, args_for("i", 3)); raii_destroy(); ev(1); }
void wh_abandon_error(void) { future f = thrd_async(wk_throw, 0), g = thrd_async(wk_defer, 0); thrd_get(f); ev(1); thrd_get(g); }
void wh_get_twice(void) { future f = thrd_async(wk_value, 0); ev_int(thrd_get(f).integer); try { thrd_get(f); ev(1); } catch (logic_error) { ev(2); } end_try; raii_destroy(); }
void wh_get_failed_twice(void) {
    future f = thrd_async(wk_throw, 0); int i;
    for (i = 0; i < 2; i++) try { thrd_get(f); ev(1); } catch (logic_error) { ev(2); } catch (range_error) { ev(3); } end_try;
    raii_destroy();
}
static void *wk_nested_abandon(args_t a) { thrd_async(wk_defer, 0); return thrd_value(48); }
void wh_nested_abandon(void) { future f = thrd_async(wk_nested_abandon, 0); ev_int(thrd_get(f).integer); raii_destroy(); }

/* groups */
void wj_one(void) { future_t g = thrd_scope(); result_t r = thrd_spawn(wk_value, 0); thrd_sync(g); ev_int(thrd_result(r).integer); thrd_destroy(g); raii_destroy(); }
void wj_arg(void *x) { future_t g = thrd_scope(); result_t r = thrd_spawn(wk_arg, x); thrd_sync(g); ev_int(thrd_result(r).object == x); thrd_destroy(g); raii_destroy(); }
void wj_three(void) {
    future_t g = thrd_scope(); result_t r = thrd_spawn(wk_value, 0), s = thrd_spawn(wk_defer, 0), t = thrd_spawn(wk_scope, 0);
    thrd_sync(g); ev_int(thrd_result(r).integer); ev_int(thrd_result(s).integer); ev_int(thrd_result(t).integer); thrd_destroy(g); raii_destroy();
}
void wj_none(void) { future_t g = thrd_scope(); thrd_sync(g); thrd_destroy(g); ev(1); raii_destroy(); }
void wj_args(void) { future_t g = thrd_scope(); result_t r = thrd_spawn_ex(wk_args, "ii", 3, 4), s = thrd_spawn_ex(wk_args, "ii", 5, 6); thrd_sync(g); ev_int(thrd_result(r).integer); ev_int(thrd_result(s).integer); thrd_destroy(g); raii_destroy(); }
void wj_args_unread(void) { future_t g = thrd_scope(); result_t r = thrd_spawn_ex(wk_value, "ii", 3, 4); thrd_sync(g); ev_int(thrd_result(r).integer); thrd_destroy(g); raii_destroy(); }
void wj_returning(void) { future_t g = thrd_scope(); result_t r = thrd_spawn_ex(wk_args_returning, "i", 7); thrd_sync(g); show2(thrd_result(r)); thrd_destroy(g); raii_destroy(); }
void wj_returning_other(void) { future_t g = thrd_scope(); result_t r = thrd_spawn_ex(wk_returning_not, "i", 7), s = thrd_spawn_ex(wk_returning_two, "i", 7); thrd_sync(g); ev_int(thrd_result(r).integer); show2(thrd_result(s)); thrd_destroy(g); raii_destroy(); }
void wj_throw(void) {
    future_t g = thrd_scope(); result_t r = thrd_spawn(wk_value, 0), s = thrd_spawn(wk_throw, 0), t = thrd_spawn(wk_defer, 0);
    try { thrd_sync(g); ev(1); } catch_any { ev_str(err); ev_str(ex_err.panic); } end_try;
    ev_int(thrd_result(r).integer); ev_int(thrd_result(t).integer);
    try { thrd_result(s); ev(3); } catch (logic_error) { ev(4); } end_try;
    thrd_destroy(g); raii_destroy();
}
void wj_throw_two(void) {
    future_t g = thrd_scope(); result_t r = thrd_spawn(wk_throw, 0), s = thrd_spawn(wk_panic, 0), t = thrd_spawn(wk_defer, 0);
    try { thrd_sync(g); ev(1); } catch_any { ev_str(err); ev_str(ex_err.panic); } end_try;
    ev_int(thrd_result(t).integer);
    thrd_destroy(g); raii_destroy();
}
void wj_throw_guard(void) {
    volatile future_t g = 0;
    try {
        guard { _defer(d1, 0); _malloc(8); g = thrd_scope(); thrd_spawn(wk_throw_cleanup, 0); thrd_sync(g); ev(1); } guarded;
    } catch (range_error) { ev(2); } end_try;
    thrd_destroy(g); raii_destroy();
}
void wj_twice(void) { future_t g = thrd_scope(); result_t r = thrd_spawn(wk_value, 0); thrd_sync(g); thrd_sync(g); ev_int(thrd_result(r).integer); thrd_destroy(g); raii_destroy(); }
void wj_again(void) {
    future_t g = thrd_scope(); result_t r = thrd_spawn(wk_value, 0); thrd_sync(g);
    result_t s = thrd_spawn(wk_defer, 0); thrd_sync(g); ev_int(thrd_result(r).integer); ev_int(thrd_result(s).integer); thrd_destroy(g); raii_destroy();
}
void wj_twice_throw(void) {
    future_t g = thrd_scope(); result_t r = thrd_spawn(wk_throw, 0);
    try { thrd_sync(g); ev(1); } catch (range_error) { ev(2); } end_try;
    result_t s = thrd_spawn(wk_value, 0);
    try { thrd_sync(g); ev(3); } catch (range_error) { ev(4); } end_try;
    ev_int(thrd_result(s).integer);
    thrd_destroy(g); raii_destroy();
}
void wj_finish(void) {
    future_t g = thrd_scope(); thrd_spawn(wk_value, 0); thrd_spawn(wk_defer, 0);
    while (!thrd_is_finish(g)) thrd_yield();
    thrd_sync(g); ev_int(thrd_is_finish(g)); thrd_destroy(g); raii_destroy();
}
void wj_unsynced(void) { future_t g = thrd_scope(); thrd_spawn(wk_value, 0); thrd_spawn(wk_throw_cleanup, 0); thrd_destroy(g); ev(1); raii_destroy(); }
void wj_unsynced_args(void) { future_t g = thrd_scope(); thrd_spawn_ex(wk_args_returning, "ii", 3, 4); thrd_spawn_ex(wk_value, "ii", 3, 4); thrd_destroy(g); ev(1); raii_destroy(); }
static void *add1(void *r, size_t id, values_type v) { ev_int((int)id); ev_int(v.integer); return r; }
void wj_then(void) { future_t g = thrd_scope(); thrd_spawn(wk_value, 0); thrd_spawn(wk_defer, 0); thrd_then(add1, thrd_sync(g), 0); thrd_destroy(g); raii_destroy(); }
void wj_then_failed(void) {
    future_t g = thrd_scope(); thrd_spawn(wk_value, 0); thrd_spawn(wk_throw, 0); thrd_spawn(wk_defer, 0);
    try { thrd_sync(g); ev(1); } catch (range_error) { ev(2); } end_try;
    thrd_then(add1, g, 0); thrd_destroy(g); raii_destroy();
}
void wj_then_first(void) {
    future_t g = thrd_scope(); thrd_spawn(wk_throw, 0); thrd_spawn(wk_defer, 0);
    try { thrd_sync(g); ev(1); } catch (range_error) { ev(2); } end_try;
    thrd_then(add1, g, 0); thrd_destroy(g); raii_destroy();
}
void wj_then_last(void) {
    future_t g = thrd_scope(); thrd_spawn(wk_value, 0); thrd_spawn(wk_throw, 0);
    try { thrd_sync(g); ev(1); } catch (range_error) { ev(2); } end_try;
    thrd_then(add1, g, 0); thrd_destroy(g); raii_destroy();
}
void wj_then_before(void) { future_t g = thrd_scope(); thrd_spawn(wk_value, 0); thrd_then(add1, g, 0); thrd_sync(g); ev(1); thrd_destroy(g); raii_destroy(); }
void wj_start_fails(void) {
    raii_defer((func_t)d1, 0);
    future_t g = thrd_scope(); result_t r = 0, s = 0;
    try { r = thrd_spawn(wk_value, 0); s = thrd_spawn(wk_defer, 0); ev(1); } catch_any { ev_str(err); } end_try;
    thrd_sync(g); if (r) ev_int(thrd_result(r).integer); if (s) ev_int(thrd_result(s).integer);
    thrd_destroy(g); raii_destroy();
}
void wj_start_fails_ex(void) {
    future_t g = thrd_scope(); result_t r = 0;
    try { r = thrd_spawn_ex(wk_args, "ii", 3, 4); ev(1); } catch_any { ev_str(err); } end_try;
    thrd_sync(g); if (r) ev_int(thrd_result(r).integer);
    thrd_destroy(g); raii_destroy();
}
void wj_own(void) {
    char *p = malloc_default(4); raii_defer((func_t)d1, 0); p[1] = 5;
    future_t g = thrd_scope(); result_t r = thrd_spawn(wk_value, 0); thrd_sync(g); ev_int(thrd_result(r).integer); ev_int(p[1]); thrd_destroy(g); ev_int(p[1]);
    raii_destroy(); ev(9);
}
void wj_two_groups(void) {
    future_t g = thrd_scope(); result_t r = thrd_spawn(wk_value, 0); thrd_sync(g); thrd_destroy(g);
    g = thrd_scope(); r = thrd_spawn(wk_defer, 0); thrd_sync(g); ev_int(thrd_result(r).integer); thrd_destroy(g);
    raii_destroy();
}
void wj_group_then_future(void) {
    future_t g = thrd_scope(); thrd_spawn(wk_value, 0); future f = thrd_async(wk_defer, 0); thrd_sync(g); ev_int(thrd_get(f).integer); thrd_destroy(g); raii_destroy();
}
/* results larger than a machine word, the same block handed over twice */
static void *wk_big(args_t a) { get_args(a, 0); int *v = malloc(200 * sizeof(int)); v[0] = 60; v[5] = 61; v[64] = 62; v[199] = 63; return thrd_returning(a, v, 200 * sizeof(int)); }
static void *wk_same(args_t a) { get_args(a, 0); int *v = malloc(2 * sizeof(int)); v[0] = 7; thrd_returning(a, v, 2 * sizeof(int)); v[1] = 8; return thrd_returning(a, v, 2 * sizeof(int)); }
static void show6(values_type v) { int *p = (int *)v.object; ev_int(p[0]); ev_int(p[5]); ev_int(p[64]); ev_int(p[199]); }
void wh_big(void) { future f = thrd_async(wk_big, args_for("i", 3)); show6(thrd_get(f)); raii_destroy(); }
void wh_same(void) { future f = thrd_async(wk_same, args_for("i", 3)); show2(thrd_get(f)); raii_destroy(); }
void wj_big(void) { future_t g = thrd_scope(); result_t r = thrd_spawn_ex(wk_big, "i", 7), s = thrd_spawn_ex(wk_same, "i", 7); thrd_sync(g); show6(thrd_result(r)); show2(thrd_result(s)); thrd_destroy(g); raii_destroy(); }
void wj_big_again(void) { future_t g = thrd_scope(); result_t r = thrd_spawn_ex(wk_big, "i", 7); thrd_sync(g); thrd_spawn(wk_value, 0); thrd_sync(g); show6(thrd_result(r)); thrd_destroy(g); raii_destroy(); }
