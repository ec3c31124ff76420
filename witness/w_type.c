/* type queries: every type code, every kind of object */
#include "raii.h"
void ev(int n); int nd(void); int choose(int n); void ev_int(long n); void m_bool(int what, long r);
static void *fn(args_t a) { return thrd_value(41); }
void w_fn(void *p); int m_true(void);

/* any object */
void wk_type(void *p, int t) { m_bool(1, is_type(p, t)); }
void wk_of(void *p) { m_bool(2, type_of(p)); }
void wk_same(void *p, void *q) { m_bool(3, is_instance_of(p, q)); }
void wk_value(void *p) { m_bool(4, is_value(p)); }
void wk_instance(void *p) { m_bool(5, is_instance(p)); }
void wk_valid(void *p) { m_bool(6, is_valid(p)); }
void wk_guard(void *p) { m_bool(7, is_guard(p)); }
void wk_empty(void *p) { m_bool(8, is_empty(p)); }
void wk_zero(size_t n) { m_bool(9, is_zero(n)); }
void wk_true(bool b) { m_bool(10, is_true(b)); }
void wk_false(bool b) { m_bool(11, is_false(b)); }
void wk_data(void *p) { m_bool(12, (long)raii_value(p).object); }
void wk_bounds(void) { m_bool(0, RAII_NULL); m_bool(0, RAII_NAN); m_bool(0, RAII_NO_INSTANCE); m_bool(0, RAII_GUARDED_STATUS); m_bool(0, offsetof(unique_t, status)); }

/* each code by name: 1 a value, 2 an instance, 0 neither */
#define CODE(n) do { var_t v; v.type = n; v.value = NULL; ev_int(is_value(&v) + 2 * is_instance(&v) + 4 * (is_valid(&v) != (is_value(&v) || is_instance(&v))) + 8 * !is_type(&v, n)); } while (0)
void wk_values(void) {
    CODE(RAII_INT); CODE(RAII_ENUM); CODE(RAII_INTEGER); CODE(RAII_UINT); CODE(RAII_SLONG); CODE(RAII_ULONG); CODE(RAII_LLONG); CODE(RAII_MAXSIZE);
    CODE(RAII_FLOAT); CODE(RAII_DOUBLE); CODE(RAII_BOOL); CODE(RAII_SHORT); CODE(RAII_USHORT); CODE(RAII_CHAR); CODE(RAII_UCHAR); CODE(RAII_UCHAR_P);
    CODE(RAII_CHAR_P); CODE(RAII_CONST_CHAR); CODE(RAII_STRING); CODE(RAII_ARRAY); CODE(RAII_HASH); CODE(RAII_OBJ); CODE(RAII_PTR); CODE(RAII_FUNC);
}
void wk_instances(void) {
    CODE(RAII_DEF_ARR); CODE(RAII_DEF_FUNC); CODE(RAII_ROUTINE); CODE(RAII_OA_HASH); CODE(RAII_REFLECT_TYPE); CODE(RAII_REFLECT_INFO); CODE(RAII_REFLECT_VALUE);
    CODE(RAII_MAP_VALUE); CODE(RAII_MAP_STRUCT); CODE(RAII_MAP_ITER); CODE(RAII_MAP_ARR); CODE(RAII_ERR_PTR); CODE(RAII_ERR_CONTEXT); CODE(RAII_PROMISE);
    CODE(RAII_FUTURE); CODE(RAII_FUTURE_ARG); CODE(RAII_EVENT_ARG); CODE(RAII_ARGS); CODE(RAII_PROCESS); CODE(RAII_SCHED); CODE(RAII_CHANNEL);
    CODE(RAII_STRUCT); CODE(RAII_UNION); CODE(RAII_VALUE);
}
void wk_neither(void) {
    CODE(RAII_NULL); CODE(RAII_NAN); CODE(RAII_NO_INSTANCE); CODE(RAII_ARENA); CODE(RAII_THREAD); CODE(RAII_GUARDED_STATUS); CODE(RAII_QUEUE);
    CODE(RAII_SPAWN); CODE(RAII_POOL); CODE(RAII_SYNC); CODE(RAII_COUNT);
}
/* codes are told apart from each other */
void wk_distinct(void) {
    static const raii_type t[] = {RAII_DEF_ARR, RAII_PROMISE, RAII_FUTURE, RAII_FUTURE_ARG, RAII_ARGS, RAII_VALUE, RAII_ARENA, RAII_SPAWN, RAII_POOL, RAII_GUARDED_STATUS,
                                  RAII_ERR_PTR, RAII_ERR_CONTEXT, RAII_ARENA + RAII_STRUCT};
    int i, j, n = 0;
    for (i = 0; i < 13; i++)
        for (j = 0; j < 13; j++)
            n += t[i] == t[j];
    ev_int(n);
}

/* objects the library makes */
#define KIND(o) (is_value(o) + 2 * is_instance(o))
void wk_args(memory_t *s, void *a) {
    args_t p;
    switch (choose(3)) {
        case 0: p = raii_args_for(s, "p", a); break;
        case 1: p = args_for("pl", a, 1L); break;
        case 2: p = args_for(""); break;
    }
    ev_int(is_type(p, RAII_ARGS)); ev_int(KIND(p));
}
void wk_args_gone(void *a) {
    args_t p = args_for("p", a);
    raii_destroy();
    ev_int(1);
}
void wk_defer(memory_t *s, func_t f, void *d) { raii_deferred(s, f, d); ev_int(is_type(&s->defer, RAII_DEF_ARR)); ev_int(KIND(&s->defer)); }
void wk_array(void) { raii_array_t a; raii_array_init(&a); ev_int(is_type(&a, RAII_DEF_ARR)); raii_array_reset(&a); ev_int(type_of(&a) == RAII_NULL); }
void wk_arena(void) {
    arena_t a = arena_init(0);
    ev_int(is_type(a, RAII_ARENA + RAII_STRUCT)); ev_int(KIND(a));
    ev_int(is_type(a, RAII_ARENA + RAII_STRUCT));
    arena_free(a);
}
void wk_future(void) {
    future f = thrd_async(fn, 0);
    ev_int(is_type(f, RAII_FUTURE)); ev_int(KIND(f)); ev_int(is_type(f, RAII_PROMISE)); ev_int(is_type(f, RAII_ARGS));
    ev_int(thrd_get(f).integer);
    raii_destroy();
}
void wk_group(void) {
    future_t g = thrd_scope();
    ev_int(is_type(g, RAII_SPAWN)); ev_int(KIND(g)); ev_int(is_type(g, RAII_FUTURE));
    result_t r = thrd_spawn(fn, 0);
    thrd_sync(g);
    ev_int(is_type(g, RAII_SPAWN)); ev_int(is_type(r, RAII_VALUE)); ev_int(KIND(r)); ev_int(is_instance_of(r, r)); ev_int(is_instance_of(r, g));
    ev_int(thrd_result(r).integer);
    thrd_destroy(g);
    raii_destroy();
}
void wk_unique(void) { unique_t *u = unique_init(); ev_int(is_guard(u)); raii_delete(u); }
void wk_guarded(void) { guard { ev_int(is_guard(_$__FUNCTION__)); } unguarded(0); ev_int(2); }

/* text */
void wk_eq_null(char *t) { ev_int(is_str_eq(NULL, t)); ev_int(is_str_eq(t, NULL)); ev_int(is_str_eq(NULL, NULL)); ev_int(is_str_empty(NULL)); }
void wk_eq_same(char *t) { ev_int(is_str_eq(t, t)); }
void wk_eq_const(void) { ev_int(is_str_eq("ab", "ab")); ev_int(is_str_eq("ab", "abc")); ev_int(is_str_eq("abc", "ab")); ev_int(is_str_eq("", "")); ev_int(is_str_eq("", "a")); ev_int(is_str_empty("")); ev_int(is_str_empty("a")); }
void wk_value_null(void) { ev_int((long)raii_value(NULL).object); ev_int(raii_value(NULL).integer); }
