/* Analysis-only prelude: GCC accepts _Atomic-qualified operands in its __atomic_* builtins, clang does not.
 * Each builtin is re-spelled with the atomic qualifier stripped from the pointed-to type; nothing else changes. */
#ifndef VP_CLANG_ATOMICS_H
#define VP_CLANG_ATOMICS_H
#ifdef __clang__
#define VP_NA(p) volatile __typeof__(((void)0, *(p))) *
#define __atomic_load_n(p, o) __atomic_load_n((VP_NA(p))(p), o)
#define __atomic_store_n(p, v, o) __atomic_store_n((VP_NA(p))(p), v, o)
#define __atomic_exchange_n(p, v, o) __atomic_exchange_n((VP_NA(p))(p), v, o)
#define __atomic_compare_exchange_n(p, e, d, w, s, f) __atomic_compare_exchange_n((VP_NA(p))(p), (__typeof__(((void)0, *(p))) *)(e), d, w, s, f)
#define __atomic_fetch_add(p, v, o) __atomic_fetch_add((VP_NA(p))(p), v, o)
#define __atomic_fetch_sub(p, v, o) __atomic_fetch_sub((VP_NA(p))(p), v, o)
#define __atomic_fetch_or(p, v, o) __atomic_fetch_or((VP_NA(p))(p), v, o)
#define __atomic_fetch_and(p, v, o) __atomic_fetch_and((VP_NA(p))(p), v, o)
#define __atomic_fetch_xor(p, v, o) __atomic_fetch_xor((VP_NA(p))(p), v, o)
#endif
#endif
