/* clients of every allocating entry point; analysed with allocations that may fail */
#include "raii.h"
void ev(int n); int nd(void); int choose(int n); void ev_str(const char *s); void ev_int(int n); void m_ptr(void *p); void m_assume(int c);
/* an arena in use: what is left of its newest block, and sizes a machine can hold */
static void some(arena_t a) {
    m_assume(a->type == RAII_ARENA + RAII_STRUCT); m_assume(a->limit - a->avail >= 0); m_assume(a->limit - a->avail < (1l << 40));
    m_assume(a->total < (1ul << 40)); m_assume(a->threshold < (1ul << 20)); m_assume(!a->is_global);
}
static void d1(void *x) { ev(21); }
static void d2(void *x) { ev(22); }
/* one request, checked in isolation */
void w_unique(void) { m_ptr(unique_init()); }
void w_unique_arena(void) { m_ptr(unique_init_arena()); }
void w_arena_init(size_t n) { m_ptr(arena_init(n)); }
void w_arena_alloc(arena_t a, long n) { some(a); m_ptr(arena_alloc(a, n)); }
void w_arena_calloc(arena_t a, long c, long n) { some(a); m_ptr(arena_calloc(a, c, n)); }
void w_malloc_arena(memory_t *s, arena_t a, size_t n) { some(a); s->arena = a; m_ptr(malloc_arena(s, n)); }
void w_calloc_arena(memory_t *s, arena_t a, int c, size_t n) { some(a); s->arena = a; m_ptr(calloc_arena(s, c, n)); }
void w_malloc_by_arena(memory_t *s, arena_t a, size_t n) { some(a); s->is_arena = 1; s->arena = a; m_ptr(malloc_by(s, n)); }
void w_calloc_by_arena(memory_t *s, arena_t a, int c, size_t n) { some(a); s->is_arena = 1; s->arena = a; m_ptr(calloc_by(s, c, n)); }
void w_try_malloc(size_t n) { m_ptr(try_malloc(n)); }
void w_try_calloc(int c, size_t n) { m_ptr(try_calloc(c, n)); }
void w_try_realloc(void *p, size_t n) { m_ptr(try_realloc(p, n)); }
void w_args(int a, int b) { m_ptr(args_for("ii", a, b)); }
void w_args_scope(memory_t *s, int a, int b) { m_ptr(raii_args_for(s, "ii", a, b)); }
void w_scope(void) { m_ptr(thrd_scope()); }
/* a request inside a try: the handler runs, what was registered stays, the scope ends as usual */
void w_in_try(void) {
    raii_init(); if (raii_defer(d1, 0) == (size_t)-1) return;
    try { ev(1); char *p = malloc_default(8); *p = 1; p = calloc_default(2, 8); *p = 2; ev(2); } catch_any { ev(4); ev_str(err); } finally { ev(5); } end_try;
    if (raii_defer(d2, 0) == (size_t)-1) { ev(7); raii_deferred_clean(); return; } raii_deferred_clean(); ev(6);
}
static void *arena0; static ex_setup_func setup0; static ex_unwind_func unwind0; static ex_context_t *ctx0; static void *data0;
static void save(void) { raii_init(); arena0 = raii_local()->arena; setup0 = exception_setup_func; unwind0 = exception_unwind_func; ctx0 = ex_local(); data0 = ctx0->data; }
static void same(void) {
    ev_int(raii_local()->arena == arena0 && exception_setup_func == setup0 && exception_unwind_func == unwind0 && ex_local() == ctx0
           && ex_local()->data == data0 && !ex_local()->is_guarded);
}
void w_in_guard(void) {
    save();
    try { guard { ev(1); _defer(d1, 0); char *p = _malloc(8); *p = 1; _defer(d2, 0); p = _calloc(2, 8); *p = 2; ev(2); } guarded; ev(3); }
    catch_any { ev(4); } finally { ev(5); } end_try;
    ev(6); same();
}
/* the array of entries cannot grow: seventeen requests */
void w_in_guard_many(void) {
    int i;
    save();
    try { guard { ev(1); for (i = 0; i < 17; i++) { char *p = _malloc(8); *p = 1; } ev(2); } guarded; ev(3); }
    catch_any { ev(4); } finally { ev(5); } end_try;
    ev(6); same();
}
