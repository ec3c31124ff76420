/* packed argument sets: who releases them, when */
#include "raii.h"
void ev(int n); int nd(void); int choose(int n); void ev_int(long n); void m_live(void *p); void m_dead(void *p); void m_assume(long c); void bad(int n); void run_exit(void);
static void d1(void *x) { ev(21); }
static void boom(int k) { if (k == 1) throw(range_error); }
/* never read: the caller releases it */
void wq_unread(memory_t *s, void *a, void *b) {
    args_t p = choose(2) ? raii_args_for(s, "pp", a, b) : args_for("pp", a, b);
    m_live(p); m_live(p->args); void *q = p->args; args_free(p); m_dead(p); m_dead(q);
}
void wq_peek(memory_t *s, void *a) { args_t p = raii_args_for(s, "p", a); ev_int((long)args_in(p, 0).object); ev_int((long)args_in(p, 0).object); args_free(p); m_dead(p); }
void wq_empty(memory_t *s) { args_t p = raii_args_for(s, ""); if (nd()) { raii_get_args(s, p, 0); raii_deferred_free(s); } else args_free(p); m_dead(p); }
/* read in a scope */
void wq_own(memory_t *s, void *a, void *b) {
    args_t p = raii_args_for(s, "pp", a, b);
    raii_get_args(s, p, 0); m_live(p);
    ev_int(raii_deferred_count(s) - (choose(2) ? (raii_get_args(s, p, 1), raii_deferred_count(s)) : (get_args(p, 7), raii_deferred_count(s))));
    ev_int((long)args_in(p, 1).object);
    raii_deferred_free(s); m_dead(p);
}
/* the scope it was packed for is the one that releases it */
void wq_context(memory_t *s, void *a) {
    unique_t *u = unique_init(); if (nd()) malloc_full(u, 4, free); args_t p = raii_args_for(u, "p", a); size_t n = raii_deferred_count(s);
    get_args(p, 0); get_args(p, 0); ev_int(raii_deferred_count(s) - n); raii_deferred_free(s); m_live(p); get_args(p, 0); raii_delete(u); m_dead(p);
}
void wq_context_arena(memory_t *s, void *a) {
    unique_t *u = unique_init_arena(); if (nd()) { malloc_by(u, 4); malloc_full(u, 4, free); } args_t p = raii_args_for(u, "p", a); size_t n = raii_deferred_count(s);
    get_args(p, 0); get_args(p, 0); ev_int(raii_deferred_count(s) - n); raii_deferred_free(s); m_live(p); get_args(p, 0); free_arena(u); m_dead(p);
}
void wq_context_late(memory_t *s, void *a) {
    unique_t *u = unique_init(); args_t p = raii_args_for(u, "p", a); size_t n = raii_deferred_count(s); malloc_full(u, 4, free); malloc_full(s, 4, free); raii_deferred_free(s);
    get_args(p, 0); get_args(p, 0); ev_int(raii_deferred_count(s)); raii_deferred_free(u); m_dead(p); raii_delete(u);
}
/* bound where it was first read */
void wq_first(memory_t *s, void *a) {
    unique_t *u = unique_init(); if (nd()) malloc_full(u, 4, free); args_t p = raii_args_for(s, "p", a); size_t n = raii_deferred_count(s);
    raii_get_args(u, p, 0); raii_get_args(s, p, 0); get_args(p, 0); ev_int(raii_deferred_count(s) - n); raii_deferred_free(s); m_live(p); raii_get_args(s, p, 0); raii_delete(u); m_dead(p);
}
void wq_default(memory_t *s, void *a) { args_t p = args_for("p", a); size_t n = raii_deferred_count(s); get_args(p, 0); get_args(p, 1); raii_get_args(0, p, 0); ev_int(raii_deferred_count(s) - n); m_live(p); raii_deferred_free(s); m_dead(p); }
void wq_loop(memory_t *s, void *a) {
    args_t p = raii_args_for(s, "p", a); size_t n = raii_deferred_count(s);
    raii_get_args(s, p, 0);
    while (nd()) get_args(p, 0);
    ev_int(raii_deferred_count(s) - n); m_live(p); raii_deferred_free(s); m_dead(p);
}
void wq_many(memory_t *s, void *a) {
    int i; args_t p[3];
    for (i = 0; i < 3; i++) p[i] = raii_args_for(s, "pp", a, a);
    for (i = 2; i >= 0; i--) get_args(p[i], 0);
    for (i = 0; i < 3; i++) { get_args(p[i], 1); m_live(p[i]); }
    raii_deferred_free(s);
    for (i = 0; i < 3; i++) m_dead(p[i]);
}
/* something else is never released by it */
void wq_other(memory_t *s, void *a) { struct { raii_type type; int x[20]; } o; o.type = choose(2) ? RAII_PROMISE : -1; args_free((args_t)&o); ev(1); }
/* sections, errors, end of the program */
void wq_guard(void *a) {
    try { guard { unique_t *u; _assign_ptr(v); u = v; args_t p = raii_args_for(u, "p", a); _defer(d1, 0); if (choose(2)) raii_get_args(u, p, 0); get_args(p, 0); m_live(p); boom(choose(2)); ev(1); } guarded; ev(2); } catch (range_error) { ev(3); } finally { ev(4); } end_try;
}
void wq_try(void *a) {
    args_t volatile p = args_for("p", a);
    try { get_args(p, 0); boom(choose(2)); ev(1); } catch (range_error) { ev(3); } finally { ev(4); } end_try;
    get_args(p, 0); m_live(p); raii_destroy(); m_dead(p);
}
void wq_program(void *a) { args_t p = args_for("p", a); get_args(p, 0); if (choose(2)) malloc_default(4); if (choose(2)) boom(1); m_live(p); run_exit(); m_dead(p); ev(5); }
void wq_rounds(void *a) { int i; for (i = 0; i < 3; i++) { args_t p = args_for("pp", a, a); get_args(p, 1); get_args(p, 0); raii_deferred_clean(); m_dead(p); } }
