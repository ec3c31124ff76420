#include "raii.h"
void m_ptr(void *p);
void m_rel(void *p);
void w_malloc_full(memory_t *s, size_t n, func_t f) { m_ptr(malloc_full(s, n, f)); raii_deferred_free(s); }
void w_calloc_full(memory_t *s, int c, size_t n, func_t f) { m_ptr(calloc_full(s, c, n, f)); raii_deferred_free(s); }
void w_malloc_default(memory_t *s, size_t n) { m_ptr(malloc_default(n)); m_rel(0); raii_deferred_clean(); }
void w_calloc_default(memory_t *s, int c, size_t n) { m_ptr(calloc_default(c, n)); m_rel(0); raii_deferred_clean(); }
void w_malloc_by(memory_t *s, size_t n) { s->is_arena = 0; m_ptr(malloc_by(s, n)); m_rel(0); raii_deferred_free(s); }
void w_calloc_by(memory_t *s, int c, size_t n) { s->is_arena = 0; m_ptr(calloc_by(s, c, n)); m_rel(0); raii_deferred_free(s); }
void w_memdup(memory_t *s, void *src, size_t n) { m_ptr(raii_memdup(src, n)); m_rel(0); raii_deferred_clean(); }
void w_memdup_ex(memory_t *s, void *src, size_t n) { m_ptr(str_memdup_ex(s, src, n)); m_rel(0); raii_deferred_free(s); }
void w_split(memory_t *s, const char *t, const char *d, int *c) { m_ptr(str_split_ex(s, t, d, c)); }
void w_split_thread(memory_t *s, const char *t, const char *d, int *c) { m_ptr(raii_split(t, d, c)); }
void w_concat(memory_t *s, char *a, char *b) { m_ptr(raii_concat(2, a, b)); }
void w_replace(memory_t *s, const char *h, const char *n, const char *r) { m_ptr(str_replace_ex(s, h, n, r)); }
void w_replace_thread(memory_t *s, const char *h, const char *n, const char *r) { m_ptr(raii_replace(h, n, r)); }
void w_encode(memory_t *s, const unsigned char *t) { m_ptr(str_encode64_ex(s, t)); }
void w_encode_thread(memory_t *s, const unsigned char *t) { m_ptr(raii_encode64(t)); }
void w_decode(memory_t *s, const unsigned char *t) { m_ptr(str_decode64_ex(s, t)); }
void w_decode_thread(memory_t *s, const unsigned char *t) { m_ptr(raii_decode64(t)); }
void w_two(memory_t *s, size_t n, size_t m, func_t f, func_t g) {
    void *p = malloc_full(s, n, f); m_ptr(p); m_ptr(calloc_full(s, 1, m, g)); raii_deferred_free(s);
}
void w_mixed(memory_t *s, size_t n, func_t f, func_t g, void *e) {
    m_ptr(malloc_full(s, n, f)); raii_deferred(s, g, e); raii_deferred_free(s); 
}
void w_twice(memory_t *s, size_t n) {
    m_ptr(malloc_full(s, n, free)); raii_deferred_free(s); m_ptr(malloc_full(s, n, free)); raii_deferred_free(s);
}
void w_two_scopes(memory_t *s, memory_t *t, size_t n, func_t f, func_t g) {
    m_ptr(malloc_full(s, n, f)); raii_deferred_free(t); m_rel(0);
}
/* the scope itself ends */
void w_ended(memory_t *s, size_t n, func_t f) { m_ptr(malloc_full(s, n, f)); raii_delete(s); }
void w_ended_two(memory_t *s, size_t n, size_t m, func_t f, func_t g) { m_ptr(malloc_full(s, n, f)); m_ptr(calloc_full(s, 1, m, g)); raii_delete(s); }
void w_ended_arena(memory_t *s, size_t n, func_t f) { s->arena = 0; m_ptr(malloc_full(s, n, f)); free_arena(s); }
void w_ended_thread(memory_t *s, size_t n) { m_ptr(malloc_default(n)); m_rel(0); raii_destroy(); }
