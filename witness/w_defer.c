/* Client code whose behaviour is decided by analysis, never run. */
#include "raii.h"
#include <setjmp.h>
void cb_a(void *d); void cb_b(void *d); void cb_c(void *d);   /* unknown callbacks */
void m_failed(int k);                                          /* marks a refused registration */
static jmp_buf buf;
size_t w_count(memory_t *s) { return raii_deferred_count(s); }
size_t w_reg(memory_t *s, func_t f, void *d) { return raii_deferred(s, f, d); }
void w_run(memory_t *s) { raii_deferred_free(s); }
void w_reg_run(memory_t *s, func_t f, void *d) { raii_deferred(s, f, d); raii_deferred_free(s); }
void w_rec_run(memory_t *s, func_t f, void *d) { raii_recover_by(s, f, d); raii_deferred_free(s); }
void w_reg_run_twice(memory_t *s, func_t f, void *d) { raii_deferred(s, f, d); raii_deferred_free(s); raii_deferred_free(s); }
void w_again(memory_t *s, func_t f, void *d, func_t g, void *e) {
    raii_deferred(s, f, d); raii_deferred_free(s); raii_deferred(s, g, e); raii_deferred_free(s);
}
void w_three(memory_t *s, func_t f, void *d, func_t g, void *e, func_t h, void *k) {
    raii_deferred(s, f, d); raii_recover_by(s, g, e); raii_deferred(s, h, k); raii_deferred_free(s);
}
void w_thread(memory_t *s, func_t f, void *d, func_t g, void *e) {
    raii_defer(f, d); raii_recover(g, e); raii_deferred_clean();
}
static void cb_register(void *d) { raii_deferred((memory_t *)d, cb_b, d); }
void w_reenter_reg(memory_t *s, func_t f, void *d) {
    raii_deferred(s, f, d); raii_deferred(s, cb_register, s); raii_deferred_free(s);
}
static void cb_run(void *d) { cb_a(d); raii_deferred_free((memory_t *)d); }
void w_reenter_run(memory_t *s, func_t f, void *d) {
    raii_deferred(s, f, d); raii_deferred(s, cb_run, s); raii_deferred_free(s);
}
static void cb_jump(void *d) { cb_a(d); longjmp(buf, 1); }
void w_jump_run(memory_t *s, func_t f, void *d) {
    raii_deferred(s, f, d); raii_deferred(s, cb_jump, s);
    if (!setjmp(buf)) raii_deferred_free(s); else raii_deferred_free(s);
}
void w_oom(memory_t *s, func_t f, void *d, func_t g, void *e) {
    if (raii_deferred(s, f, d) == (size_t)-1) m_failed(0);
    if (raii_deferred(s, g, e) == (size_t)-1) m_failed(1);
    raii_deferred_free(s);
}
size_t w_cancel(memory_t *s, size_t i) { raii_deferred_cancel(s, i); return 0; }
size_t w_fire(memory_t *s, size_t i) { raii_deferred_fire(s, i); return 0; }
void w_reg_cancel_run(memory_t *s, func_t f, void *d) { size_t i = raii_deferred(s, f, d); raii_deferred_cancel(s, i); raii_deferred_free(s); }
void w_reg_fire_run(memory_t *s, func_t f, void *d) { size_t i = raii_deferred(s, f, d); raii_deferred_fire(s, i); raii_deferred_free(s); }
void w_cancel_old_run(memory_t *s, func_t f, void *d, func_t g, void *e) {
    size_t i = raii_deferred(s, f, d); raii_deferred(s, g, e); raii_deferred_cancel(s, i); raii_deferred_free(s);
}
void w_fire_old_run(memory_t *s, func_t f, void *d, func_t g, void *e) {
    size_t i = raii_deferred(s, f, d); raii_deferred(s, g, e); raii_deferred_fire(s, i); raii_deferred_free(s);
}
void w_cancel_mid_run(memory_t *s, func_t f, void *d, func_t g, void *e, func_t h, void *k) {
    size_t i; raii_deferred(s, f, d); i = raii_deferred(s, g, e); raii_deferred(s, h, k); raii_deferred_cancel(s, i); raii_deferred_free(s);
}
void w_fire_mid_run(memory_t *s, func_t f, void *d, func_t g, void *e, func_t h, void *k) {
    size_t i; raii_deferred(s, f, d); i = raii_deferred(s, g, e); raii_deferred(s, h, k); raii_deferred_fire(s, i); raii_deferred_free(s);
}
void w_cancel_thread(memory_t *s, func_t f, void *d, func_t g, void *e) {
    size_t i = raii_defer(f, d); raii_defer(g, e); raii_defer_cancel(i); raii_deferred_clean();
}
void w_fire_thread(memory_t *s, func_t f, void *d, func_t g, void *e) {
    size_t i = raii_defer(f, d); raii_defer(g, e); raii_defer_fire(i); raii_deferred_clean();
}
/* the last of an arbitrary history cancelled, fired; then a registration takes its place */
void w_cancel_last_reg(memory_t *s, func_t f, void *d, func_t g, void *e) {
    size_t i = raii_deferred(s, f, d); raii_deferred_cancel(s, i); raii_deferred(s, g, e); raii_deferred_free(s);
}
void w_fire_last_reg(memory_t *s, func_t f, void *d, func_t g, void *e) {
    size_t i = raii_deferred(s, f, d); raii_deferred_fire(s, i); raii_deferred(s, g, e); raii_deferred_free(s);
}
/* the fired function registers another entry, runs the scope, or leaves by a jump */
void w_fire_registers(memory_t *s, func_t f, void *d) {
    size_t i; raii_deferred(s, f, d); i = raii_deferred(s, cb_register, s); raii_deferred_fire(s, i); raii_deferred_free(s);
}
void w_fire_runs(memory_t *s, func_t f, void *d) {
    size_t i; raii_deferred(s, f, d); i = raii_deferred(s, cb_run, s); raii_deferred_fire(s, i); raii_deferred_free(s);
}
void w_fire_jumps(memory_t *s, func_t f, void *d) {
    size_t i; i = raii_deferred(s, cb_jump, s); raii_deferred(s, f, d);
    if (!setjmp(buf)) raii_deferred_fire(s, i);
    raii_deferred_free(s);
}
/* a cancelled entry cancelled again, fired after cancellation, and the whole run twice */
void w_cancel_twice(memory_t *s, func_t f, void *d, func_t g, void *e) {
    size_t i = raii_deferred(s, f, d); raii_deferred(s, g, e); raii_deferred_cancel(s, i); raii_deferred_cancel(s, i); raii_deferred_free(s);
}
void w_cancel_then_fire(memory_t *s, func_t f, void *d, func_t g, void *e) {
    size_t i = raii_deferred(s, f, d); raii_deferred(s, g, e); raii_deferred_cancel(s, i); raii_deferred_fire(s, i); raii_deferred_free(s);
}
void w_fire_twice(memory_t *s, func_t f, void *d, func_t g, void *e) {
    size_t i = raii_deferred(s, f, d); raii_deferred(s, g, e); raii_deferred_fire(s, i); raii_deferred_fire(s, i); raii_deferred_free(s);
}
