/* packed arguments: ev_* record what is read back */
#include "raii.h"
void ev(int n); int nd(void); int choose(int n); void ev_int(long n); void ev_str(const char *s); void ev_dbl(double d); void m_assume(long c);
typedef int (*fn_t)(int);
void wr_l(long v) { args_t p = args_for("l", v); ev_int(get_args(p, 0).s_long); }
void wr_z(size_t v) { args_t p = args_for("z", v); ev_int(get_args(p, 0).max_size); }
void wr_u(unsigned v) { args_t p = args_for("u", v); ev_int(get_args(p, 0).u_int); }
void wr_i(int v) { args_t p = args_for("i", v); ev_int(get_args(p, 0).integer); }
void wr_d(int64_t v) { args_t p = args_for("d", v); ev_int(get_args(p, 0).long_long); }
void wr_c(void) { static const char t[5] = {-128, -1, 0, 'x', 127}; int k = choose(5); args_t p = args_for("c", t[k]); ev_int(get_args(p, 0).schar == t[k]); }
void wr_s(char *v) { args_t p = args_for("s", v); ev_int((long)get_args(p, 0).char_ptr); }
void wr_a(void *v) { args_t p = args_for("a", v); ev_int((long)get_args(p, 0).array); }
void wr_x(void *v) { args_t p = args_for("x", v); ev_int((long)get_args(p, 0).func); }
void wr_f(double v) { args_t p = args_for("f", v); ev_dbl(get_args(p, 0).precision); }
void wr_p(void *v) { args_t p = args_for("p", v); ev_int((long)get_args(p, 0).object); }
void wr_other(void *v) { args_t p = args_for("?", v); ev_int((long)get_args(p, 0).object); }
/* every way to pack and to read, any index */
void wr_beyond(memory_t *s, void *a, void *b, int i) {
    args_t p = choose(2) ? raii_args_for(s, "pp", a, b) : args_for("pp", a, b);
    void *v;
    switch (choose(3)) {
        case 0: v = get_args(p, i).object; break;
        case 1: v = args_in(p, (size_t)i).object; break;
        case 2: v = raii_get_args(s, p, i).object; break;
    }
    ev_int((long)v);
}
void wr_none(int i) { args_t p = args_for(""); ev_int((long)get_args(p, i).object); ev_int(get_args(p, i + 1).s_long); }
void wr_all(long l, size_t z, unsigned u, int i, int64_t d, char *s, void *a, void *x, double f, void *q) {
    args_t p = args_for("lzuidcsaxfp", l, z, u, i, d, 'k', s, a, x, f, q);
    ev_int(get_args(p, 0).s_long); ev_int(get_args(p, 1).max_size); ev_int(get_args(p, 2).u_int); ev_int(get_args(p, 3).integer); ev_int(get_args(p, 4).long_long);
    ev_int(get_args(p, 5).schar); ev_int((long)get_args(p, 6).char_ptr); ev_int((long)get_args(p, 7).array); ev_int((long)get_args(p, 8).func); ev_dbl(get_args(p, 9).precision);
    ev_int((long)get_args(p, 10).object); ev_int(get_args(p, 11).s_long); ev_int(get_args(p, -1).s_long);
}
/* a set does not disturb another one, reading in any order and again */
void wr_two(void *a, void *b, void *c) {
    args_t p = args_for("pp", a, b), q = args_for("p", c);
    ev_int((long)get_args(p, 1).object); ev_int((long)get_args(q, 0).object); ev_int((long)get_args(p, 0).object); ev_int((long)get_args(p, 1).object); ev_int((long)get_args(q, 1).object);
}
void wr_arg(raii_values_t *r) { ev_int((long)get_arg(r).object); ev_int((long)raii_value(r).object); }
void wr_arg_none(void) { ev_int((long)get_arg(NULL).object); ev_int(raii_value(NULL).s_long); }
void wr_worker(args_t p, int i) { ev_int((long)get_args(p, i).object); }
/* any format of any length */
void wr_any(memory_t *s, const char *desc, ...) {
    va_list ap; va_start(ap, desc);
    args_t p = raii_args_ex(s, desc, ap);
    va_end(ap);
    ev_int(p->n_args);
}
void wr_inside(memory_t *s, void *a, void *b) {
    args_t p = raii_args_for(s, "pp", a, b);
    int k = choose(2), how = choose(3);
    void *v = how == 0 ? get_args(p, k).object : how == 1 ? args_in(p, (size_t)k).object : raii_get_args(s, p, k).object;
    ev_int((long)v);
    ev_int((long)(how == 0 ? args_in(p, 1 - k).object : get_args(p, 1 - k).object));
}
