/* text functions: any scope, any arguments */
#include "raii.h"
void m_text(void *p);               /* must be text that ends inside its block */
void m_block(void *p, size_t n);    /* must be n bytes at least */
void m_list(void *p, int n);        /* must be a list of n texts, then NULL */
void m_value(int v);

void wb_split(memory_t *s, const char *t, const char *d) { int n = -1; m_list(str_split_ex(s, t, d, &n), n); }
void wb_split_only(memory_t *s, const char *t, const char *d) { int n = -1; char **l = str_split_ex(0, t, d, &n); m_list(l, n); free(l); }
void wb_split_nocount(memory_t *s, const char *t, const char *d) { m_text(str_split_ex(s, t, d, 0) ? "" : ""); }
void wb_split_default(memory_t *s, const char *t) { int n = -1; m_list(str_split_ex(s, t, 0, &n), n); }
void wb_split_empty(memory_t *s, const char *t) { int n = -1; m_list(str_split_ex(s, t, "", &n), n); }
void wb_split_thread(memory_t *s, const char *t, const char *d) { int n = -1; m_list(raii_split(t, d, &n), n); }
void wb_replace(memory_t *s, const char *t, const char *d, const char *r) { m_text(str_replace_ex(s, t, d, r)); }
void wb_replace_only(memory_t *s, const char *t, const char *d, const char *r) { char *p = str_replace_ex(0, t, d, r); m_text(p); free(p); }
void wb_replace_thread(memory_t *s, const char *t, const char *d, const char *r) { m_text(raii_replace(t, d, r)); }
void wb_replace_same(memory_t *s, const char *t, const char *d) { m_text(str_replace_ex(s, t, d, d)); }
void wb_replace_self(memory_t *s, const char *t) { m_text(str_replace_ex(s, t, t, t)); }
void wb_replace_null(memory_t *s, const char *t) { m_text(str_replace_ex(s, 0, t, t)); m_text(str_replace_ex(s, t, 0, t)); m_text(str_replace_ex(s, t, t, 0)); }
void wb_concat0(memory_t *s) { m_text(raii_concat(0)); }
void wb_concat1(memory_t *s, char *a) { m_text(raii_concat(1, a)); }
void wb_concat2(memory_t *s, char *a, char *b) { m_text(raii_concat(2, a, b)); }
void wb_concat3(memory_t *s, char *a, char *b, char *c) { m_text(raii_concat(3, a, b, c)); }
void wb_concat4(memory_t *s, char *a, char *b, char *c) { m_text(raii_concat(4, a, b, c, a)); }
void wb_concat6(memory_t *s, char *a, char *b, char *c) { m_text(raii_concat(6, c, a, b, c, a, "")); }
void wb_memdup(memory_t *s, void *p, size_t n) { char *q = str_memdup_ex(s, p, n); m_block(q, n + 1); m_text(q); }
void wb_copy(memory_t *s, char *to, const char *t, size_t n) { str_copy(to, t, n); }
void wb_copy_all(memory_t *s, char *to, const char *t) { str_copy(to, t, 0); }
void wb_pos(memory_t *s, const char *t, char *d) { m_value(strpos(t, d)); }
void wb_in(memory_t *s, const char *t, char *d) { m_value(is_str_in(t, d)); }
void wb_empty(memory_t *s, const char *t) { m_value(is_str_empty(t)); }
void wb_encode(memory_t *s, const unsigned char *t) { m_text(str_encode64_ex(s, t)); }
void wb_encode_thread(memory_t *s, const unsigned char *t) { m_text(raii_encode64(t)); }
void wb_decode(memory_t *s, const unsigned char *t) { m_text(str_decode64_ex(s, t)); }
void wb_decode_thread(memory_t *s, const unsigned char *t) { m_text(raii_decode64(t)); }
void wb_is64(memory_t *s, const unsigned char *t) { m_value(is_base64(t)); }
