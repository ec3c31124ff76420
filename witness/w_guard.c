/* guard sections; ev(n) marks an event, nd()/choose() are arbitrary choices */
#include "raii.h"
void ev(int n); int nd(void); int choose(int n); void ev_str(const char *s); void ev_int(int n); void ev_reset(void); void m_base(void);
static void d1(void *x) { ev(21); }
static void d2(void *x) { ev(22); }
static void d3(void *x) { ev(23); }
static void thrower(int k) { if (k == 1) throw(range_error); if (k == 2) throw(logic_error); if (k == 3) raii_panic("boom"); }
/* same thread state after a section as before it */
static void *arena0; static ex_setup_func setup0; static ex_unwind_func unwind0; static ex_context_t *ctx0; static void *data0;
static void save(void) { raii_init(); arena0 = raii_local()->arena; setup0 = exception_setup_func; unwind0 = exception_unwind_func; ctx0 = ex_local(); data0 = ctx0->data; }
static void same(void) {
    ev_int(raii_local()->arena == arena0 && exception_setup_func == setup0 && exception_unwind_func == unwind0 && ex_local() == ctx0
           && ex_local()->data == data0 && !ex_local()->is_guarded);
}
void w_plain(void) {
    save();
    guard { ev(1); _defer(d1, 0); _malloc(8); _defer(d2, 0); _calloc(2, 8); ev(2); } guarded;
    ev(3); same();
}
void w_break(void) {
    save();
    guard { ev(1); _defer(d1, 0); if (nd()) break; _malloc(8); _defer(d2, 0); ev(2); } guarded;
    ev(3); same();
}
static int ret_inner(void) {
    guard { ev(1); _defer(d1, 0); _malloc(8); if (nd()) { ev(4); _return(7); } _defer(d2, 0); ev(2); } unguarded(9);
}
void w_return(void) { save(); ev_int(ret_inner()); ev(3); same(); }
void w_throw(void) {
    save();
    try {
        guard { ev(1); _defer(d1, 0); _malloc(8); _defer(d2, 0); thrower(choose(4)); ev(2); } guarded;
        ev(3);
    } catch_any { ev(4); ev_str(err); } finally { ev(5); } end_try;
    ev(6); same();
}
/* nothing requested from the guard's scope, so it is not protected */
void w_throw_bare(void) {
    save();
    try {
        guard { ev(1); _defer(d1, 0); _defer(d2, 0); thrower(choose(2)); ev(2); } guarded;
        ev(3);
    } catch_any { ev(4); ev_str(err); } finally { ev(5); } end_try;
    ev(6); same();
}
static int ret_throw(void) {
    guard { ev(1); _defer(d1, 0); _malloc(8); thrower(choose(2)); ev(2); } unguarded(9);
}
void w_return_throw(void) {
    save();
    try { ev_int(ret_throw()); ev(3); } catch (range_error) { ev(4); } finally { ev(5); } end_try;
    ev(6); same();
}
void w_nested(void) {
    save();
    try {
        guard { ev(1); _defer(d1, 0); _malloc(8);
            guard { ev(2); _defer(d2, 0); _malloc(8); thrower(choose(2)); ev(3); } guarded;
            ev(4); _defer(d3, 0); thrower(choose(2)); ev(5);
        } guarded;
        ev(6);
    } catch_any { ev(7); ev_str(err); } finally { ev(8); } end_try;
    ev(9); same();
}
void w_try_inside(void) {
    save();
    guard { ev(1); _defer(d1, 0); _malloc(8);
        try { ev(2); thrower(choose(2)); ev(3); } catch (range_error) { ev(4); } finally { ev(5); } end_try;
        ev(6); _defer(d2, 0);
    } guarded;
    ev(7); same();
}
void w_uncaught(void) { raii_init(); guard { ev(1); _defer(d1, 0); _malloc(8); thrower(choose(2)); ev(2); } guarded; ev(3); }
void w_rounds(void) {
    unsigned i;
    save();
    for (i = 0; i < 3; i++) {
        ev_reset();
        try { guard { ev(1); _defer(d1, 0); _malloc(8); thrower(choose(2)); ev(2); } guarded; ev(3); } catch_any { ev(4); } finally { ev(5); } end_try;
        same();
    }
    ev_reset();
}
/* entries of the enclosing scope stay until that scope ends */
void w_outer_kept(void) {
    save();
    raii_defer(d3, 0);
    guard { ev(1); _defer(d1, 0); _malloc(8); } guarded;
    ev(2); raii_deferred_clean(); ev(3);
}
void w_outer_kept_throw(void) {
    save();
    raii_defer(d3, 0); malloc_default(4);
    try { guard { ev(1); _defer(d1, 0); _malloc(8); thrower(1); } guarded; } catch_any { ev(4); } finally { ev(5); } end_try;
    ev(2); raii_deferred_clean(); ev(3);
}
/* recovery */
static void r_match(void *x) { ev(31); ev_int(_recover("range_error")); }
static void r_other(void *x) { ev(32); ev_int(_recover("out_of_memory")); }
static void r_panic(void *x) { ev(33); ev_int(_recover("boom")); }
static void r_msg(void *x) { ev(34); ev_str(_get_message()); }
void w_recover(void) {
    save();
    try {
        guard { ev(1); _defer(d1, 0); _malloc(8); _defer(r_match, 0); _defer(d2, 0); thrower(choose(3)); ev(2); } guarded;
        ev(3);
    } catch_any { ev(4); ev_str(err); } finally { ev(5); } end_try;
    ev(6); same();
}
void w_recover_bare(void) {
    save();
    try {
        guard { ev(1); _defer(r_match, 0); thrower(choose(3)); ev(2); } guarded;
        ev(3);
    } catch_any { ev(4); ev_str(err); } finally { ev(5); } end_try;
    ev(6); same();
}
void w_recover_chain(void) {
    save();
    try {
        guard { ev(1); _malloc(8); _defer(r_match, 0); _defer(r_other, 0); thrower(choose(3)); ev(2); } guarded;
        ev(3);
    } catch_any { ev(4); ev_str(err); } finally { ev(5); } end_try;
    ev(6); same();
}
void w_recover_panic(void) {
    save();
    try {
        guard { ev(1); _malloc(8); _defer(r_panic, 0); _defer(r_msg, 0); thrower(1 + choose(3)); ev(2); } guarded;
        ev(3);
    } catch_any { ev(4); ev_str(err); } finally { ev(5); } end_try;
    ev(6); same();
}
void w_recover_outer(void) {
    save();
    guard { ev(1); _malloc(8); _defer(r_match, 0);
        guard { ev(2); _malloc(8); _defer(d1, 0); thrower(1); ev(3); } guarded;
        ev(4);
    } guarded;
    ev(6); same();
}
static int rec_ret(void) { guard { ev(1); _malloc(8); _defer(r_match, 0); thrower(choose(2)); ev(2); } unguarded(5); }
void w_recover_return(void) {
    save();
    try { ev_int(rec_ret()); ev(3); } catch_any { ev(4); } finally { ev(5); } end_try;
    ev(6); same();
}
/* the next error after a recovered one is an error again */
void w_recover_then(void) {
    save();
    try {
        guard { ev(1); _malloc(8); _defer(r_match, 0); thrower(1); } guarded;
        ev(2);
        guard { ev(3); _malloc(8); _defer(d1, 0); thrower(2); ev(4); } guarded;
        ev(5);
    } catch (logic_error) { ev(6); } finally { ev(7); } end_try;
    ev(8); same();
}
/* thread scope: cleanups run once before the process ends */
void w_thread(void) { raii_init(); ev(1); raii_defer(d1, 0); if (nd()) malloc_default(4); raii_recover(d2, 0); thrower(1 + choose(3)); ev(2); }
static void t_msg(void *x) { ev(35); ev_str(raii_message()); ev_int(caught(range_error)); }
void w_thread_caught(void) { raii_init(); ev(1); malloc_default(4); raii_recover(t_msg, 0); thrower(1 + choose(2)); ev(2); }
/* a cleanup that throws */
static void d_throw(void *x) { ev(24); throw(logic_error); }
void w_throw_normal(void) {
    save();
    try { guard { ev(1); _defer(d1, 0); _malloc(8); _defer(d_throw, 0); _defer(d2, 0); } guarded; ev(2); }
    catch (logic_error) { ev(4); } finally { ev(5); } end_try;
    ev(6); same();
}
