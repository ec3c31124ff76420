/* threads beside each other: scopes, error contexts, guards, per-thread variables */
#include "raii.h"
void ev(int n); int nd(void); int choose(int n); void ev_str(const char *s); void ev_int(int n); void m_assume(int c);

typedef struct { int a; void *p; } pair_t;
thrd_static(int, count, NULL)
thrd_local(pair_t, couple, NULL)
thrd_static(int, other, NULL)
static int seen_, more_;
static const char *name_;
static void *got_;

#define BESIDE(f) thrd_t t; raii_init(); if (thrd_create(&t, f, 0) != thrd_success) return
#define JOINED thrd_join(t, 0)

/* per-thread variables */
static int vt_count(void *x) { int e = is_count_empty(); int *p = count(); int z = *p; *p = 9; seen_ = e * 100 + (z == 0) * 10 + (count() == p && *count() == 9 && !is_count_empty()); return 0; }
void wv_var(void) { BESIDE(vt_count); ev_int(is_count_empty()); *count() = 7; ev_int(*count()); JOINED; ev_int(*count()); ev_int(seen_); }
void wv_var_before(void) { *count() = 7; int *p = count(); BESIDE(vt_count); JOINED; ev_int(count() == p); ev_int(*count()); ev_int(seen_); }
static int vt_other(void *x) { *other() = 4; *count() = 5; seen_ = (*other() == 4) + (*count() == 5); return 0; }
void wv_var_two(void) { *other() = 1; BESIDE(vt_other); *count() = 2; JOINED; ev_int(*other()); ev_int(*count()); ev_int(seen_); }
static int vt_couple(void *x) {
    int e = is_couple_empty();
    pair_t *p = couple();
    e = e * 10 + (p->a == 0 && p->p == 0);
    p->a = 3; p->p = &seen_;
    seen_ = e * 10 + (couple()->a == 3 && couple()->p == (void *)&seen_ && couple() == p);
    return 0;
}
void wv_couple(void) { couple()->a = 6; BESIDE(vt_couple); couple()->p = 0; JOINED; ev_int(couple()->a); ev_int(couple()->p == 0); ev_int(seen_); }
static pair_t mine_, its_;
static int vt_update(void *x) { int e = is_couple_empty(); couple_update(&its_); seen_ = e * 10 + (couple() == &its_); couple()->a = 8; return 0; }
void wv_update(void) { BESIDE(vt_update); couple_update(&mine_); couple()->a = 2; JOINED; ev_int(couple() == &mine_); ev_int(couple()->a); ev_int(seen_); ev_int(its_.a); }
void wv_update_before(void) { couple_update(&mine_); BESIDE(vt_update); JOINED; ev_int(couple() == &mine_); ev_int(mine_.a); ev_int(seen_); }
static int vt_add(void *x) { ++*count(); ++*count(); *(int *)x = *count(); return 0; }
void wv_var_threads(void) {
    thrd_t t, u; int a = 0, b = 0;
    if (thrd_create(&t, vt_add, &a) != thrd_success) return;
    if (thrd_create(&u, vt_add, &b) != thrd_success) return;
    ++*count();
    thrd_join(t, 0); thrd_join(u, 0);
    ev_int(a); ev_int(b); ev_int(*count());
}

/* scopes */
static void d(void *x) { *(int *)x += 1; }
static int vt_start(void *x) { seen_ = is_empty(raii_local()) * 100 + is_empty(ex_local()) * 10 + (is_raii_empty() && is_except_empty()); return 0; }
void wv_start(void) { BESIDE(vt_start); JOINED; ev_int(seen_); ev_int(raii_local() == raii_init() && ex_local() == ex_init()); }
static int vt_scope(void *x) {
    memory_t *s = raii_init();
    seen_ = s != x && s == raii_local() && s == raii_init();
    raii_defer((func_t)d, &more_);
    raii_destroy();
    return 0;
}
void wv_scope(void) {
    int n = 0; thrd_t t; memory_t *s = raii_init();
    raii_defer((func_t)d, &n);
    if (thrd_create(&t, vt_scope, s) != thrd_success) return;
    raii_defer((func_t)d, &n);
    JOINED;
    ev_int(seen_); ev_int(more_); ev_int(n); ev_int(raii_local() == s);
    raii_destroy(); ev_int(n);
}
static int vt_fire(void *x) { size_t h = raii_defer((func_t)d, &seen_); raii_defer((func_t)d, &more_); raii_defer_cancel(h); raii_destroy(); return 0; }
void wv_handles(void) {
    int n = 0, k = 0; raii_init();
    size_t h = raii_defer((func_t)d, &n);
    BESIDE(vt_fire);
    raii_defer((func_t)d, &k);
    raii_defer_fire(h); ev_int(n);
    JOINED; ev_int(seen_); ev_int(more_);
    raii_destroy(); ev_int(n); ev_int(k);
}
static int vt_mem(void *x) { char *p = malloc_default(8); p[0] = 3; char *q = calloc_default(1, 8); q[1] = 4; seen_ = p[0] + q[1]; raii_destroy(); return 0; }
void wv_mem(void) { BESIDE(vt_mem); char *p = malloc_default(8); p[0] = 5; JOINED; ev_int(p[0]); ev_int(seen_); raii_destroy(); }
static int vt_mid(void *x) { memory_t *s = raii_init(); seen_ = (int)raii_mid(); malloc_default(8); seen_ = seen_ * 10 + (raii_mid() == raii_last_mid(s)); raii_destroy(); return 0; }
void wv_mid(void) { BESIDE(vt_mid); malloc_default(4); malloc_default(4); int h = raii_mid(); JOINED; ev_int(h == (int)raii_mid() && h == 1); ev_int(seen_); raii_destroy(); }

/* errors */
static int vt_throw(void *x) { try { throw(range_error); } catch_any { name_ = err; seen_ = 3; } end_try; raii_destroy(); return 0; }
static int vt_quiet(void *x) { try { seen_ = 4; } catch_any { seen_ = 5; } end_try; raii_destroy(); return 0; }
static int vt_cleanup(void *x) { try { raii_defer((func_t)d, &seen_); throw(range_error); } catch (range_error) { name_ = err; more_ = seen_; } end_try; raii_destroy(); return 0; }
static int vt_panic(void *x) { try { raii_panic("theirs"); } catch_any { name_ = ex_err.panic; seen_ = 6; } end_try; raii_destroy(); return 0; }
static int vt_plain(void *x) { throw(range_error); return 0; }
static int vt_init(void *x) { raii_init(); raii_destroy(); seen_ = 2; return 0; }
void wv_try(void) {
    raii_init();
    try { BESIDE(vt_throw); JOINED; ev_str(name_); ev_int(seen_); throw(logic_error); } catch_any { ev_str(err); } finally { ev(1); } end_try;
    raii_destroy();
}
void wv_try_quiet(void) {
    raii_init();
    try { BESIDE(vt_quiet); JOINED; ev_int(seen_); throw(logic_error); } catch_any { ev_str(err); } end_try;
    raii_destroy();
}
void wv_throw_beside(void) {
    thrd_t t; raii_init();
    if (thrd_create(&t, vt_throw, 0) != thrd_success) return;
    try { throw(logic_error); } catch_any { ev_str(err); ev_str(ex_err.panic); } end_try;
    JOINED; ev_str(name_); ev_int(is_except_empty() ? 1 : ex_local()->type == ex_context_st);
    raii_destroy();
}
void wv_cleanup_beside(void) {
    volatile int n = 0; thrd_t t; raii_init();
    if (thrd_create(&t, vt_cleanup, 0) != thrd_success) return;
    try { raii_defer((func_t)d, (void *)&n); throw(logic_error); } catch (logic_error) { ev_int(n); } end_try;
    JOINED; ev_str(name_); ev_int(seen_); ev_int(more_); ev_int(n);
    raii_destroy(); ev_int(n);
}
void wv_in_catch(void) {
    raii_init();
    try {
        try { throw(logic_error); } catch_any { BESIDE(vt_throw); JOINED; ev_str(err); ev_str(ex_err.panic); rethrow(); } end_try;
    } catch (logic_error) { ev_str(err); } end_try;
    raii_destroy();
}
void wv_panic_beside(void) {
    thrd_t t; raii_init();
    try { raii_panic("mine"); } catch_any {
        if (thrd_create(&t, vt_panic, 0) != thrd_success) return;
        ev_str(ex_err.panic); JOINED; ev_str(ex_err.panic); ev_str(name_);
    } end_try;
    raii_destroy();
}
void wv_not_mine(void) {
    raii_init();
    try { BESIDE(vt_plain); JOINED; ev(1); } catch_any { ev(2); } end_try;
    raii_destroy();
}
void wv_init_in_try(void) {
    volatile int n = 0; raii_init();
    try { raii_defer((func_t)d, (void *)&n); BESIDE(vt_init); JOINED; ev_int(n); throw(logic_error); } catch (logic_error) { ev_int(n); } end_try;
    ev_int(seen_);
    raii_destroy();
}

/* guards and their hooks */
static int vt_guard(void *x) {
    volatile int n = 0;
    try { guard { _defer((func_t)d, (void *)&n); char *p = _malloc(4); p[1] = 1; if (x) throw(range_error); } guarded; } catch (range_error) { more_ = 1; } end_try;
    seen_ = n; raii_destroy(); return 0;
}
static int vt_guard_bare(void *x) { volatile int n = 0; guard { _defer((func_t)d, (void *)&n); char *p = _malloc(4); p[1] = 1; } guarded; seen_ = n; raii_destroy(); return 0; }
static int vt_hooks(void *x) { seen_ = exception_setup_func == 0 && exception_unwind_func == 0; return 0; }
void wv_guard_quiet(void) {
    volatile int n = 0; raii_init();
    guard { _defer((func_t)d, (void *)&n); BESIDE(vt_guard_bare); _defer((func_t)d, (void *)&n); JOINED; ev_int(n); ev_int(seen_); } guarded;
    ev_int(n);
    raii_destroy();
}
void wv_guard_beside(void) {
    volatile int n = 0; thrd_t t; raii_init();
    if (thrd_create(&t, vt_guard, &t) != thrd_success) return;
    try { guard { _defer((func_t)d, (void *)&n); _malloc(4); throw(logic_error); } guarded; } catch (logic_error) { ev_int(n); } end_try;
    JOINED; ev_int(seen_); ev_int(more_);
    raii_destroy();
}
void wv_guard_throws(void) {
    volatile int n = 0; raii_init();
    try { guard { _defer((func_t)d, (void *)&n); BESIDE(vt_throw); JOINED; ev_int(n); ev_str(name_); throw(logic_error); } guarded; } catch (logic_error) { ev_int(n); } end_try;
    raii_destroy();
}
void wv_hooks(void) {
    raii_init();
    guard { BESIDE(vt_hooks); ev_int(exception_unwind_func != 0); JOINED; ev_int(seen_); } guarded;
    raii_destroy();
}
static void unwound(void *x) { ev(31); }
static int vt_unwind(void *x) { try { throw(range_error); } catch (range_error) { seen_ = 3; } end_try; raii_destroy(); return 0; }
void wv_hook_own(void) {
    thrd_t t; raii_init();
    exception_unwind_func = (ex_unwind_func)unwound;
    if (thrd_create(&t, vt_unwind, 0) != thrd_success) return;
    try { ev(1); } end_try;
    JOINED; ev_int(seen_); ev_int(exception_unwind_func == (ex_unwind_func)unwound);
    exception_unwind_func = 0;
    raii_destroy();
}

/* protected pointers */
static void pfree(void *x) { ev(41); }
static int vt_protect(void *x) {
    try { char *q = malloc(4); protected(q, free); throw(range_error); } catch (range_error) { seen_ = 3; } end_try;
    raii_destroy(); return 0;
}
void wv_protect(void) {
    int a; raii_init();
    try { void *p = &a; protected(p, pfree); BESIDE(vt_throw); JOINED; ev(1); throw(logic_error); } catch (logic_error) { ev(2); } end_try;
    raii_destroy();
}
void wv_protect_beside(void) {
    int a; thrd_t t; raii_init();
    if (thrd_create(&t, vt_protect, 0) != thrd_success) return;
    try { void *p = &a; protected(p, pfree); throw(logic_error); } catch (logic_error) { ev(2); } end_try;
    JOINED; ev_int(seen_);
    raii_destroy();
}
void wv_protect_kept(void) {
    int a; thrd_t t; raii_init();
    try { void *p = &a; protected(p, pfree); if (thrd_create(&t, vt_protect, 0) != thrd_success) return; unprotected(p); JOINED; ev_int(seen_); throw(logic_error); } catch (logic_error) { ev(2); } end_try;
    raii_destroy();
}

static string cat(int n, ...) { va_list ap; va_start(ap, n); string r = str_concat_ex(raii_init(), n, ap); va_end(ap); return r; }
/* what the text functions, argument sets and arenas keep must be their thread's own */
static int vt_text(void *x) {
    char *p = cat(2, "a", "b"); p[0] = 'x';
    seen_ = p[0] == 'x';
    raii_destroy(); return 0;
}
void wv_text(void) {
    BESIDE(vt_text);
    char *p = cat(2, "a", "b"); p[0] = 'z';
    JOINED; ev_int(p[0] == 'z'); ev_int(seen_);
    raii_destroy();
}
static int vt_code(void *x) { u_string p = str_encode64_ex(raii_init(), (u_string_t)"abc"); p[0] = 'x'; u_string q = str_decode64_ex(raii_init(), (u_string_t)"YWJj"); seen_ = p[0] == 'x'; raii_destroy(); return 0; }
void wv_code(void) { BESIDE(vt_code); u_string p = str_encode64_ex(raii_init(), (u_string_t)"abc"); p[0] = 'z'; u_string q = str_decode64_ex(raii_init(), (u_string_t)"YWJj"); JOINED; ev_int(p[0] == 'z'); ev_int(seen_); raii_destroy(); }
static int vt_arena(void *x) {
    arena_t a = arena_init(4); int i;
    char *p = arena_alloc(a, 16); p[0] = 1;
    arena_clear(a);
    char *q = arena_calloc(a, 1, 16); q[0] = 2;
    char *r = arena_alloc(a, 8192); r[0] = 3;
    seen_ = q[0] + r[0];
    arena_clear(a);
    arena_free(a);
    return 0;
}
void wv_arena(void) {
    BESIDE(vt_arena);
    arena_t a = arena_init(4);
    char *p = arena_alloc(a, 16); p[0] = 1;
    arena_clear(a);
    char *q = arena_calloc(a, 1, 16); q[0] = 4;
    char *r = arena_alloc(a, 8192); r[0] = 3;
    JOINED;
    ev_int(q[0] + r[0]); ev_int(seen_);
    arena_clear(a);
    arena_free(a);
    raii_destroy();
}
static void *fk_returning(args_t a) { get_args(a, 0); int *v = malloc(8); v[0] = 7; return thrd_returning(a, v, 8); }
static void *fk_value(args_t a) { return thrd_value(41); }
void wv_returning(void) {
    future f = thrd_async(fk_returning, args_for("i", 3)), g = thrd_async(fk_value, 0), h = thrd_async(fk_returning, args_for("i", 3));
    ev_int(thrd_get(g).integer); ev_int(((int *)thrd_get(f).object)[0]); ev_int(((int *)thrd_get(h).object)[0]);
    raii_destroy();
}
