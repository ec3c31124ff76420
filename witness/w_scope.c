/* scopes ending: the scope itself, its arena, the thread's scope */
#include "raii.h"
void ev(int n); int nd(void); int choose(int n); void ev_int(int n); void run_exit(void); void m_live(void *p); void m_dead(void *p); void m_assume(int c);
static void d1(void *x) { ev(21); }
static void d2(void *x) { ev(22); }
static void d3(void *x) { ev(23); }
static void drop(void *p) { ev(25); free(p); }
/* arbitrary scope */
void ws_delete(memory_t *s) { m_assume(s != raii_init()); raii_delete(s); }
void ws_delete_arena(memory_t *s) { m_assume(s != raii_init()); s->arena = 0; free_arena(s); }
/* scopes of the library */
void ws_heap(void) {
    unique_t *u = unique_init();
    if (nd()) { raii_deferred(u, d1, 0); malloc_full(u, 8, drop); raii_deferred(u, d2, 0); }
    if (nd()) calloc_full(u, 2, 8, free);
    m_live(u); raii_delete(u); m_dead(u); ev(3);
}
void ws_null(void) { raii_delete(0); free_arena(0); ev(3); }
void ws_two(void) {
    unique_t *u = unique_init(), *v = unique_init();
    raii_deferred(u, d1, 0); malloc_full(v, 8, drop); raii_deferred(v, d2, 0); malloc_full(u, 8, drop);
    raii_delete(v); m_dead(v); m_live(u); ev(3); ev_int((int)raii_deferred_count(u)); raii_deferred(u, d3, 0); raii_delete(u); ev(4);
}
void ws_inner(void) {
    unique_t *u = unique_init();
    unique_t *v = unique_init(); raii_deferred(v, d1, 0); malloc_full(v, 4, free);
    raii_deferred(u, (func_t)raii_delete, v); raii_deferred(u, d2, 0);
    raii_delete(u); ev(3);
}
void ws_arena(void) {
    unique_t *u = unique_init_arena();
    if (nd()) { char *p = malloc_by(u, 8); *p = 1; p = calloc_by(u, 2, 8); *p = 1; }
    if (nd()) { raii_deferred(u, d1, 0); malloc_full(u, 8, drop); }
    free_arena(u); m_dead(u); ev(3);
}
void ws_arena_big(void) {
    unique_t *u = unique_init_arena();
    char *p = malloc_by(u, 8); *p = 1; p = malloc_by(u, 100000); *p = 1; p = malloc_by(u, 200000); *p = 1;
    free_arena(u); ev(3);
}
/* an arena scope does not disturb the thread's scope */
void ws_arena_other(void) {
    raii_init(); raii_defer(d1, 0); malloc_default(4);
    unique_t *u = unique_init_arena(); malloc_by(u, 8); free_arena(u); ev(3);
    ev_int((int)raii_deferred_count(raii_local())); raii_destroy(); ev(4);
}
void ws_thread(void) {
    raii_init(); raii_defer(d1, 0); malloc_default(4); raii_defer(d2, 0);
    raii_destroy(); ev(3); m_live(raii_local());
    raii_defer(d3, 0); calloc_default(1, 4); raii_destroy(); ev(4);
    raii_destroy(); ev(5);
}
void ws_thread_clean(void) {
    raii_init(); raii_defer(d1, 0); malloc_default(4);
    raii_deferred_clean(); ev(3); raii_defer(d2, 0); malloc_default(4); raii_destroy(); ev(4);
}
/* the end of the program ends the thread's scope */
void ws_exit(void) {
    raii_init(); raii_init(); raii_defer(d1, 0); malloc_default(4); raii_init(); raii_defer(d2, 0); ev(3); run_exit(); ev(4);
}
void ws_exit_empty(void) { raii_init(); ev(3); run_exit(); ev(4); }
void ws_exit_after(void) { raii_init(); raii_defer(d1, 0); raii_destroy(); ev(3); run_exit(); ev(4); }
/* deferred functions of an arena scope still see its memory */
static void use(void *p) { ev(26); ev_int(*(char *)p); }
void ws_arena_used(void) {
    unique_t *u = unique_init_arena();
    char *p = malloc_by(u, 8); *p = 1; raii_deferred(u, use, p);
    char *q = calloc_by(u, 2, 8); *q = 2; raii_deferred(u, use, q);
    if (nd()) { malloc_full(u, 8, drop); raii_recover_by(u, d1, 0); }
    free_arena(u); m_dead(u); ev(3);
}
/* deferred functions of a scope still see its memory, allotted earlier */
void ws_used(void) {
    unique_t *u = unique_init();
    char *p = malloc_full(u, 8, drop); *p = 1; raii_deferred(u, use, p);
    char *q = calloc_full(u, 2, 8, free); *q = 2; raii_deferred(u, use, q);
    raii_delete(u); m_dead(u); ev(3);
}
void ws_thread_used(void) {
    raii_init();
    char *p = malloc_default(8); *p = 1; raii_defer(use, p);
    if (nd()) raii_deferred_clean(); else raii_destroy();
    ev(3);
}
