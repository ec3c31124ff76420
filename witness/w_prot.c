/* protected pointer variables */
#include "raii.h"
void ev(int n); int nd(void); int choose(int n); void ev_int(long n); void ev_str(const char *s); void ev_reset(void);
static void rel(void *x) { ev(30); ev_int((long)x); }
static void rel2(void *x) { ev(31); ev_int((long)x); }
static void relf(void *x) { ev(32); free(x); }
static void d1(void *x) { ev(21); }
static void boom(int k) { if (k == 1) throw(range_error); if (k == 2) throw(logic_error); }
void wp_one(void *a) {
    void *p = a;
    try { protected(p, rel); ev(1); boom(choose(2)); ev(2); unprotected(p); boom(choose(2)); ev(3); }
    catch (range_error) { ev(4); } finally { ev(5); } end_try;
    ev_int((long)p); boom(choose(2)); ev(6);
}
void wp_null(void) {
    void *p = 0;
    try { protected(p, rel); ev(1); boom(1); unprotected(p); } catch (range_error) { ev(4); } finally { ev(5); } end_try;
    ev(6);
}
void wp_changed(void *a, void *b) {
    void *p = a;
    try { protected(p, rel); ev(1); p = b; boom(choose(2)); p = 0; boom(choose(2)); unprotected(p); } catch (range_error) { ev(4); } finally { ev(5); } end_try;
    ev_int((long)p);
}
void wp_two(void *a, void *b) {
    void *p = a, *q = b;
    try {
        protected(p, rel); protected(q, rel2); ev(1); boom(choose(2));
        if (nd()) { unprotected(p); ev(7); boom(choose(2)); unprotected(q); } else { unprotected(q); ev(8); boom(choose(2)); unprotected(p); }
        ev(9); boom(choose(2)); ev(2);
    } catch (range_error) { ev(4); } finally { ev(5); } end_try;
    ev(6);
}
void wp_three(void *a, void *b, void *c) {
    void *p = a, *q = b, *r = c;
    try { protected(p, rel); protected(q, rel2); protected(r, rel); ev(1); int k = choose(4);
        if (k == 0) unprotected(p); if (k == 1) unprotected(q); if (k == 2) unprotected(r);
        boom(1);
    } catch (range_error) { ev(4); } finally { ev(5); } end_try;
    ev(6);
}
void wp_nested(void *a, void *b) {
    void *p = a, *q = b;
    try {
        protected(p, rel); ev(1);
        try { protected(q, rel2); ev(2); boom(choose(3)); unprotected(q); ev(3); } catch (range_error) { ev(4); } finally { ev(5); } end_try;
        ev(6); boom(choose(2)); unprotected(p); ev(7);
    } catch_any { ev(8); ev_str(err); } finally { ev(9); } end_try;
    ev(10);
}
/* outer protection survives an inner error */
void wp_outer(void *a) {
    void *p = a;
    try {
        protected(p, rel); ev(1);
        try { ev(2); boom(1); } catch (range_error) { ev(3); } finally { ev(4); } end_try;
        ev(5); boom(2); unprotected(p);
    } catch (logic_error) { ev(6); } finally { ev(7); } end_try;
    ev(8);
}
static void callee(void *a) { void *p = a; protected(p, rel); ev(2); boom(choose(2)); unprotected(p); ev(3); }
void wp_call(void *a) {
    try { ev(1); callee(a); boom(choose(2)); } catch (range_error) { ev(4); } finally { ev(5); } end_try;
    ev(6);
}
void wp_uncaught(void *a) { void *p = a; ev(1); protected(p, rel); boom(choose(2)); unprotected(p); ev(2); }
void wp_heap(void) {
    char *p = malloc(8), *q = malloc(8);
    try { protected(p, relf); protected(q, relf); ev(1); boom(choose(2)); unprotected(p); unprotected(q); ev(2); free(p); free(q); }
    catch (range_error) { ev(4); } finally { ev(5); } end_try;
    ev(6);
}
void wp_heap_realloc(void) {
    char *p = malloc(8);
    try { protected(p, relf); ev(1); boom(choose(2)); p = realloc(p, 16); boom(choose(2)); unprotected(p); ev(2); free(p); }
    catch (range_error) { ev(4); } finally { ev(5); } end_try;
    ev(6);
}
void wp_guard(void *a) {
    void *p = a;
    try { guard { ev(1); _defer(d1, 0); if (nd()) _malloc(8); protected(p, rel); boom(choose(2)); unprotected(p); } guarded; ev(3); }
    catch_any { ev(4); } finally { ev(5); } end_try;
    ev(6);
}
void wp_thread(void *a) { void *p = a; raii_init(); raii_defer(d1, 0); malloc_default(4); protected(p, rel); ev(1); boom(choose(2)); unprotected(p); ev(2); raii_destroy(); }
/* protected again each round */
void wp_loop(void *a) {
    int i;
    try {
        for (i = 0; i < 3; i++) { void *p = a; protected(p, rel); ev(1); boom(choose(2)); unprotected(p); ev(2); }
        ev(3);
    } catch (range_error) { ev(4); } finally { ev(5); } end_try;
    ev(6);
}
void wp_again(void *a) {
    void *p = a;
    try { protected(p, rel); ev(1); unprotected(p); ex_protect_ptr(&ex_protected_p, &p, rel2); ev(2); boom(choose(2)); unprotected(p); boom(choose(2)); ev(3); }
    catch (range_error) { ev(4); } finally { ev(5); } end_try;
    ev(6);
}
void wp_rounds(void *a) {
    int i;
    for (i = 0; i < 3; i++) {
        ev_reset(); void *p = a;
        try { protected(p, rel); ev(1); boom(choose(2)); unprotected(p); ev(2); } catch (range_error) { ev(4); } finally { ev(5); } end_try;
    }
    ev_reset();
}
/* protection removed inside an inner try */
void wp_inner_remove(void *a, void *b) {
    void *p = a, *q = b;
    try {
        protected(p, rel); protected(q, rel2); ev(1);
        try { unprotected(q); ev(2); boom(choose(2)); } catch (range_error) { ev(3); } finally { ev(4); } end_try;
        boom(choose(2)); unprotected(p); ev(5);
    } catch (range_error) { ev(6); } finally { ev(7); } end_try;
    ev(8);
}
/* empty when protected, set later; set when protected, emptied, set again */
void wp_late(void *a) {
    void *p = 0;
    try { protected(p, rel); ev(1); boom(choose(2)); p = a; boom(choose(2)); unprotected(p); boom(choose(2)); ev(2); } catch (range_error) { ev(4); } finally { ev(5); } end_try;
    ev_int((long)p);
}
void wp_late_two(void *a, void *b) {
    void *p = 0, *q = 0;
    try { protected(p, rel); protected(q, rel2); p = a; ev(1); boom(choose(2)); p = 0; q = b; boom(choose(2)); p = a; boom(1); } catch (range_error) { ev(4); } finally { ev(5); } end_try;
    ev_int((long)p); ev_int((long)q);
}
/* no try block at all */
void wp_bare(void *a) { void *p = a; protected(p, rel); ev(1); if (nd()) { unprotected(p); ev(2); } boom(choose(2)); unprotected(p); ev(3); }
void wp_bare_two(void *a, void *b) { void *p = a, *q = b; protected(p, rel); protected(q, rel2); ev(1); if (nd()) { unprotected(p); ev(2); } else { unprotected(q); ev(3); } boom(1); }
/* removed inside a try block that is left before the error */
void wp_bare_inner(void *a) {
    void *p = a; protected(p, rel); ev(1);
    try { ev(2); if (nd()) { unprotected(p); ev(3); } } catch_any { ev(4); } finally { ev(5); } end_try;
    boom(1);
}
/* the usual release function itself */
void wp_free(void) {
    void *p = malloc(8), *q = 0;
    try { protected(p, RAII_FREE); protected(q, RAII_FREE); ev(1); q = malloc(4); boom(choose(2)); RAII_FREE(p); p = 0; boom(choose(2)); unprotected(p); unprotected(q); RAII_FREE(q); q = 0; } catch_any { ev(4); } finally { ev(5); } end_try;
    if (p || q) ev(6);
}
