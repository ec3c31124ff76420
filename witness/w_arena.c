/* arenas: one request from any arena state, clearing, freeing, and whole histories */
#include "raii.h"
void ev(int n); int nd(void); int choose(int n); void ev_str(const char *s); void ev_int(int n); void m_assume(int c);
void m_got(void *p, long n);        /* a block was handed out */
void m_gone(arena_t a);             /* blocks of this arena may be handed out again */
void m_reset(arena_t a);

long wa_size(void) { return sizeof(struct arena_s); }
long wa_off(int f) {
    switch (f) {
        case 0: return offsetof(struct arena_s, type);
        case 1: return offsetof(struct arena_s, next);
        case 2: return offsetof(struct arena_s, avail);
        case 3: return offsetof(struct arena_s, limit);
        case 4: return offsetof(struct arena_s, base);
        case 5: return offsetof(struct arena_s, is_global);
        case 6: return offsetof(struct arena_s, threshold);
        case 7: return offsetof(struct arena_s, bytes);
        case 8: return offsetof(struct arena_s, total);
        case 9: return RAII_ARENA;
        default: return RAII_ARENA + RAII_STRUCT;
    }
}

/* any state */
void wa_alloc(arena_t a, long n) { m_got(arena_alloc(a, n), n); }
void wa_alloc_two(arena_t a, long n, long m) { m_got(arena_alloc(a, n), n); m_got(arena_alloc(a, m), m); }
void wa_calloc(arena_t a, long c, long n) { m_got(arena_calloc(a, c, n), c * n); }
void wa_zeroed(arena_t a, long c, long n, long i) { char *p = arena_calloc(a, c, n); m_got(p, c * n); m_assume(i >= 0 && i < c * n); ev_int(p[i]); }
void wa_recycled(arena_t o, arena_t a, long n) { arena_clear(o); m_gone(o); m_got(arena_alloc(a, n), n); }
void wa_recycled_calloc(arena_t o, arena_t a, long c, long n) { arena_clear(o); m_gone(o); m_got(arena_calloc(a, c, n), c * n); }
void wa_both(arena_t o, arena_t a, long n, long m) { arena_clear(o); m_gone(o); m_got(arena_alloc(a, n), n); m_got(arena_alloc(o, m), m); }
void wa_clear(arena_t a) { arena_clear(a); m_gone(a); }
void wa_clear_twice(arena_t a) { arena_clear(a); arena_clear(a); m_gone(a); }
void wa_clear_alloc(arena_t a, long n) { arena_clear(a); m_gone(a); m_got(arena_alloc(a, n), n); }
void wa_clear_free(arena_t a) { arena_clear(a); m_gone(a); arena_free(a); }
void wa_capacity_cleared(arena_t a) { arena_clear(a); m_gone(a); ev_int(arena_capacity(a)); }
void wa_clear_many(arena_t a, long n, long m) { m_got(arena_alloc(a, n), n); arena_clear(a); m_gone(a); m_got(arena_alloc(a, m), m); m_got(arena_alloc(a, n), n); arena_clear(a); m_gone(a); }
void wa_clear_both(arena_t o, arena_t a) { arena_clear(o); m_gone(o); arena_clear(a); m_gone(a); }
void wa_free_after(arena_t o, arena_t a, long n) { arena_clear(o); m_gone(o); m_got(arena_alloc(a, n), n); arena_free(a); m_gone(a); }
void wa_free(arena_t a) { arena_free(a); m_gone(a); }
void wa_alloc_free(arena_t a, long n) { m_got(arena_alloc(a, n), n); arena_free(a); m_gone(a); }
void wa_capacity(arena_t a) { ev_int(arena_capacity(a)); }

/* from the start */
void wa_init(long n) { arena_t a = arena_init(0); ev_int(arena_capacity(a)); ev_int(arena_total(a)); m_got(arena_alloc(a, n), n); arena_free(a); m_gone(a); }
void wa_init_free(void) { arena_free(arena_init(0)); }
void wa_init_clear(void) { arena_t a = arena_init(0); arena_clear(a); ev_int(arena_capacity(a)); arena_free(a); }
void wa_null(void) { arena_free(0); arena_clear(0); try { arena_alloc(0, 1); ev(1); } catch_any { ev_str(err); } end_try; raii_destroy(); }
void wa_reuse(long n) {
    arena_t a = arena_init(0);
    char *p = arena_alloc(a, n); arena_clear(a); m_reset(a);
    char *q = arena_alloc(a, n); ev_int(p == q);
    arena_free(a);
}
void wa_failing(arena_t a, long n) { try { m_got(arena_alloc(a, n), n); ev(1); } catch_any { ev_str(ex_err.panic); } end_try; raii_destroy(); }
void wa_failing_calloc(arena_t a, long c, long n) { try { m_got(arena_calloc(a, c, n), c * n); ev(1); } catch_any { ev_str(ex_err.panic); } end_try; raii_destroy(); }
void wa_failing_init(void) { try { arena_t a = arena_init(0); ev(1); arena_free(a); } catch_any { ev_str(err); } end_try; raii_destroy(); }

static void some(arena_t a, long n, long m) {
    switch (choose(4)) {
        case 0: m_got(arena_alloc(a, n), n); break;
        case 1: m_got(arena_alloc(a, m), m); break;
        case 2: m_got(arena_calloc(a, 2, n), 2 * n); break;
        default: arena_clear(a); m_gone(a);
    }
}
void wa_history(long n, long m) { arena_t a = arena_init(1); some(a, n, m); some(a, n, m); some(a, n, m); arena_free(a); m_gone(a); }
void wa_history_long(long n, long m) { arena_t a = arena_init(1); some(a, n, m); some(a, n, m); some(a, n, m); some(a, n, m); some(a, n, m); arena_free(a); m_gone(a); }
void wa_history_two(long n, long m) {
    arena_t a = arena_init(1), b = arena_init(2);
    some(a, n, m); some(b, n, m); some(a, n, m); some(b, n, m);
    arena_free(a); m_gone(a); arena_free(b); m_gone(b);
}
