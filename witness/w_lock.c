/* spin locks and ready marks */
#include "raii.h"
void ev(int n); int nd(void); void ev_int(int n);
void wl_lock(atomic_spinlock *m) { atomic_lock(m); }
void wl_unlock(atomic_spinlock *m) { atomic_unlock(m); }

static atomic_spinlock guard_;
static atomic_flag ready_;
static int shared_, other_;
static struct { atomic_spinlock a, b; int x, y; } two_;

static int add1(void *p) { atomic_lock(&guard_); shared_++; atomic_unlock(&guard_); return 0; }
void wl_count(void) {
    thrd_t t;
    if (thrd_create(&t, add1, 0) != thrd_success) return;
    atomic_lock(&guard_); shared_++; atomic_unlock(&guard_);
    thrd_join(t, 0);
    ev_int(shared_);
}
void wl_count_three(void) {
    thrd_t t, u;
    if (thrd_create(&t, add1, 0) != thrd_success) return;
    if (thrd_create(&u, add1, 0) != thrd_success) return;
    atomic_lock(&guard_); shared_++; atomic_unlock(&guard_);
    atomic_lock(&guard_); shared_++; atomic_unlock(&guard_);
    thrd_join(t, 0);
    atomic_lock(&guard_); shared_++; atomic_unlock(&guard_);
    thrd_join(u, 0);
    ev_int(shared_);
}
static int addy(void *p) {
    atomic_lock(&two_.a); two_.x++; atomic_unlock(&two_.a);
    atomic_lock(&two_.b); two_.y++; atomic_unlock(&two_.b);
    return 0;
}
void wl_two(void) {
    thrd_t t;
    if (thrd_create(&t, addy, 0) != thrd_success) return;
    atomic_lock(&two_.b); two_.y += 2; atomic_unlock(&two_.b);
    atomic_lock(&two_.a); two_.x += 2; atomic_unlock(&two_.a);
    thrd_join(t, 0);
    ev_int(two_.x); ev_int(two_.y);
}
static int publish(void *p) { shared_ = 5; atomic_flag_test_and_set(&ready_); return 0; }
static int publish_rel(void *p) { shared_ = 5; atomic_flag_test_and_set_explicit(&ready_, memory_order_release); return 0; }
static int publish_clear(void *p) { shared_ = 5; atomic_flag_clear(&ready_); return 0; }
void wl_ready(void) {
    thrd_t t;
    if (thrd_create(&t, publish, 0) != thrd_success) return;
    while (!atomic_flag_load(&ready_)) thrd_yield();
    ev_int(shared_);
    thrd_join(t, 0);
}
void wl_ready_explicit(void) {
    thrd_t t;
    if (thrd_create(&t, publish_rel, 0) != thrd_success) return;
    while (!atomic_flag_load_explicit(&ready_, memory_order_acquire)) thrd_yield();
    ev_int(shared_);
    thrd_join(t, 0);
}
void wl_ready_clear(void) {
    thrd_t t;
    atomic_flag_test_and_set(&ready_);
    if (thrd_create(&t, publish_clear, 0) != thrd_success) return;
    while (atomic_flag_test_and_set(&ready_)) thrd_yield();
    ev_int(shared_);
    thrd_join(t, 0);
}
static atomic_int word_;
static int store_word(void *p) { shared_ = 6; atomic_store(&word_, 1); return 0; }
static int store_word_rel(void *p) { shared_ = 6; atomic_store_explicit(&word_, 1, memory_order_release); return 0; }
static int count_word(void *p) { shared_ = 6; atomic_fetch_add(&word_, 1); return 0; }
void wl_word(void) {
    thrd_t t;
    if (thrd_create(&t, store_word, 0) != thrd_success) return;
    while (!atomic_load(&word_)) thrd_yield();
    ev_int(shared_);
    thrd_join(t, 0);
}
void wl_word_explicit(void) {
    thrd_t t;
    if (thrd_create(&t, store_word_rel, 0) != thrd_success) return;
    while (!atomic_load_explicit(&word_, memory_order_acquire)) thrd_yield();
    ev_int(shared_);
    thrd_join(t, 0);
}
void wl_word_count(void) {
    thrd_t t;
    if (thrd_create(&t, count_word, 0) != thrd_success) return;
    while (atomic_fetch_add(&word_, 0) != 1) thrd_yield();
    ev_int(shared_);
    thrd_join(t, 0);
}
