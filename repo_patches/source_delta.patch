From c308797ba057f5d96010f8557a15cda2726f874b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:52 +0000
Subject: [PATCH 01/47] fix: index deferred entries with their own element size

---
 src/raii.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 9130d51..dd7a00e 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -342,14 +342,14 @@ static RAII_INLINE void raii_deferred_array_free(defer_t *array) {
     raii_array_free((raii_array_t *)array);
 }
 
-static RAII_INLINE size_t raii_deferred_array_get_index(const defer_t *array, raii_array_t *elem) {
-    RAII_ASSERT(elem >= (raii_array_t *)array->base.base);
-    return (size_t)(elem - (raii_array_t *)array->base.base);
+static RAII_INLINE size_t raii_deferred_array_get_index(const defer_t *array, defer_func_t *elem) {
+    RAII_ASSERT(elem >= (defer_func_t *)array->base.base);
+    return (size_t)(elem - (defer_func_t *)array->base.base);
 }
 
-static RAII_INLINE raii_array_t *raii_deferred_array_get_element(const defer_t *array, size_t index) {
-    RAII_ASSERT(index <= array->base.elements);
-    return &((raii_array_t *)array->base.base)[index];
+static RAII_INLINE defer_func_t *raii_deferred_array_get_element(const defer_t *array, size_t index) {
+    RAII_ASSERT(index < array->base.elements);
+    return &((defer_func_t *)array->base.base)[index];
 }
 
 static RAII_INLINE size_t raii_deferred_array_len(const defer_t *array) {
@@ -363,7 +363,7 @@ static void raii_deferred_internal(memory_t *scope, defer_func_t *deferred) {
 
     RAII_ASSERT(num_defers != 0 && deferred != NULL);
 
-    if (deferred == (defer_func_t *)raii_deferred_array_get_element(&scope->defer, num_defers - 1)) {
+    if (deferred == raii_deferred_array_get_element(&scope->defer, num_defers - 1)) {
         /* If we're cancelling the last defer we armed, there's no need to waste
          * space of a deferred callback to an empty function like
          * disarmed_defer(). */
@@ -378,13 +378,13 @@ static void raii_deferred_internal(memory_t *scope, defer_func_t *deferred) {
 void raii_deferred_cancel(memory_t *scope, size_t index) {
     RAII_ASSERT(index >= 0);
 
-    raii_deferred_internal(scope, (defer_func_t *)raii_deferred_array_get_element(&scope->defer, index));
+    raii_deferred_internal(scope, raii_deferred_array_get_element(&scope->defer, index));
 }
 
 void raii_deferred_fire(memory_t *scope, size_t index) {
     RAII_ASSERT(index >= 0);
 
-    defer_func_t *deferred = (defer_func_t *)raii_deferred_array_get_element(&scope->defer, index);
+    defer_func_t *deferred = raii_deferred_array_get_element(&scope->defer, index);
     RAII_ASSERT(scope);
 
     deferred->func(deferred->data);
@@ -460,7 +460,7 @@ static size_t raii_deferred_any(memory_t *scope, func_t func, void *data, void *
         deferred->data = data;
         deferred->check = check;
 
-        return raii_deferred_array_get_index(&scope->defer, (raii_array_t *)deferred);
+        return raii_deferred_array_get_index(&scope->defer, deferred);
     }
 }
 
-- 
2.43.0


From d5344ca4afcbcc6f61b75f236af4c8634a049b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 02/47] fix: detach deferred entries before running them

---
 src/raii.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index dd7a00e..3b78cb3 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -387,28 +387,30 @@ void raii_deferred_fire(memory_t *scope, size_t index) {
     defer_func_t *deferred = raii_deferred_array_get_element(&scope->defer, index);
     RAII_ASSERT(scope);
 
-    deferred->func(deferred->data);
+    func_t func = deferred->func;
+    void *data = deferred->data;
 
+    /* Disarm first, `func` can register, fire, cancel, or throw. */
     raii_deferred_internal(scope, deferred);
+
+    func(data);
 }
 
 static void raii_deferred_run(memory_t *scope, size_t generation) {
     raii_array_t *array = (raii_array_t *)&scope->defer;
-    defer_func_t *defers = array->base;
     bool defer_ran = false;
-    size_t i;
 
     scope->is_recovered = is_empty(scope->err);
 
-    for (i = array->elements; i != generation; i--) {
-        defer_func_t *defer = &defers[i - 1];
+    /* Detach each entry before its call, `func` can register, fire, cancel, or throw. */
+    while (array->elements > generation) {
+        defer_func_t defer = ((defer_func_t *)array->base)[--array->elements];
         defer_ran = true;
 
-        if (!is_empty(scope->err) && !is_empty(defer->check))
+        if (!is_empty(scope->err) && !is_empty(defer.check))
             scope->is_recovered = false;
 
-        defer->func(defer->data);
-        defer->data = NULL;
+        defer.func(defer.data);
     }
 
     if (scope->is_protected && !is_empty(scope->protector) && !is_empty(scope->err)) {
@@ -419,7 +421,6 @@ static void raii_deferred_run(memory_t *scope, size_t generation) {
         }
     }
 
-    array->elements = generation;
     if (!is_empty(scope->protector)) {
         ex_unprotected_ptr(scope->protector);
         RAII_FREE(scope->protector);
-- 
2.43.0


From 727457e51879fe6396d889b4d1e37756bca77bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 03/47] fix: read deferred entries from the array they are
 stored in

---
 src/raii.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 3b78cb3..4cff3c6 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -343,17 +343,17 @@ static RAII_INLINE void raii_deferred_array_free(defer_t *array) {
 }
 
 static RAII_INLINE size_t raii_deferred_array_get_index(const defer_t *array, defer_func_t *elem) {
-    RAII_ASSERT(elem >= (defer_func_t *)array->base.base);
-    return (size_t)(elem - (defer_func_t *)array->base.base);
+    RAII_ASSERT(elem >= (defer_func_t *)((const raii_array_t *)array)->base);
+    return (size_t)(elem - (defer_func_t *)((const raii_array_t *)array)->base);
 }
 
 static RAII_INLINE defer_func_t *raii_deferred_array_get_element(const defer_t *array, size_t index) {
-    RAII_ASSERT(index < array->base.elements);
-    return &((defer_func_t *)array->base.base)[index];
+    RAII_ASSERT(index < ((const raii_array_t *)array)->elements);
+    return &((defer_func_t *)((const raii_array_t *)array)->base)[index];
 }
 
 static RAII_INLINE size_t raii_deferred_array_len(const defer_t *array) {
-    return array->base.elements;
+    return ((const raii_array_t *)array)->elements;
 }
 
 static void deferred_canceled(void *data) {}
-- 
2.43.0


From 57b9a8f0b768d20a4de029e43e65591e21482daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 04/47] fix: keep a scope usable after its deferred entries ran

---
 src/raii.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/raii.c b/src/raii.c
index 4cff3c6..bcc415a 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -457,6 +457,8 @@ static size_t raii_deferred_any(memory_t *scope, func_t func, void *data, void *
         RAII_LOG("Could not add new deferred function.");
         return -1;
     } else {
+        /* A scope stays usable after `raii_deferred_free`, which resets the array. */
+        scope->defer.type = RAII_DEF_ARR;
         deferred->func = func;
         deferred->data = data;
         deferred->check = check;
-- 
2.43.0


From d7d4e05e4f6673a4b787923ef28f2954dcc1ba90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 05/47] fix: never treat scope-bound memory as a protected
 pointer variable

---
 src/raii.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index bcc415a..764ef1b 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -218,14 +218,18 @@ unique_t *unique_init_arena(void) {
 }
 
 void *malloc_full(memory_t *scope, size_t size, func_t func) {
-    void *arena = try_malloc(size);
     if (is_empty(scope->protector))
-        scope->protector = try_malloc(sizeof(ex_ptr_t));
+        scope->protector = try_calloc(1, sizeof(ex_ptr_t));
 
+    void *arena = try_malloc(size);
     scope->protector->is_emulated = scope->is_emulated;
-    ex_protect_ptr(scope->protector, arena, func);
     scope->is_protected = true;
     scope->mid = raii_deferred(scope, func, arena);
+    if (UNLIKELY(scope->mid == (size_t)-1)) {
+        RAII_FREE(arena);
+        errno = ENOMEM;
+        raii_panic("Deferred registration failed!");
+    }
 
     return arena;
 }
@@ -246,14 +250,18 @@ RAII_INLINE void *malloc_arena(memory_t *scope, size_t size) {
 }
 
 void *calloc_full(memory_t *scope, int count, size_t size, func_t func) {
-    void *arena = try_calloc(count, size);
     if (is_empty(scope->protector))
         scope->protector = try_calloc(1, sizeof(ex_ptr_t));
 
+    void *arena = try_calloc(count, size);
     scope->protector->is_emulated = scope->is_emulated;
-    ex_protect_ptr(scope->protector, arena, func);
     scope->is_protected = true;
     scope->mid = raii_deferred(scope, func, arena);
+    if (UNLIKELY(scope->mid == (size_t)-1)) {
+        RAII_FREE(arena);
+        errno = ENOMEM;
+        raii_panic("Deferred registration failed!");
+    }
 
     return arena;
 }
@@ -398,14 +406,12 @@ void raii_deferred_fire(memory_t *scope, size_t index) {
 
 static void raii_deferred_run(memory_t *scope, size_t generation) {
     raii_array_t *array = (raii_array_t *)&scope->defer;
-    bool defer_ran = false;
 
     scope->is_recovered = is_empty(scope->err);
 
     /* Detach each entry before its call, `func` can register, fire, cancel, or throw. */
     while (array->elements > generation) {
         defer_func_t defer = ((defer_func_t *)array->base)[--array->elements];
-        defer_ran = true;
 
         if (!is_empty(scope->err) && !is_empty(defer.check))
             scope->is_recovered = false;
@@ -413,13 +419,8 @@ static void raii_deferred_run(memory_t *scope, size_t generation) {
         defer.func(defer.data);
     }
 
-    if (scope->is_protected && !is_empty(scope->protector) && !is_empty(scope->err)) {
+    if (scope->is_protected && !is_empty(scope->protector) && !is_empty(scope->err))
         scope->is_protected = false;
-        if (!defer_ran) {
-            scope->protector->func(*scope->protector->ptr);
-            *scope->protector->ptr = NULL;
-        }
-    }
 
     if (!is_empty(scope->protector)) {
         ex_unprotected_ptr(scope->protector);
-- 
2.43.0


From 5133dbc2dec2d1087db9e9567016347c928a6d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 06/47] fix: pack every argument into its own slot

---
 src/raii.c | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 764ef1b..81e368b 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -595,10 +595,8 @@ RAII_INLINE values_type args_in(args_t params, size_t index) {
 }
 
 args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
-    size_t i, len, count = simd_strlen(desc);
+    size_t i, count = simd_strlen(desc);
     args_t params = try_calloc(1, sizeof(struct args_s));
-    void_t p;
-    string s;
     params->args_size = sizeof(raii_values_t);
     params->args = try_calloc(count, params->args_size);
     params->args_size = params->args_size * count;
@@ -631,15 +629,7 @@ args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
                 break;
             case 's':
                 // string argument
-                s = (char *)va_arg(argp, char *);
-                len = simd_strlen(s);
-                if (len > sizeof(raii_values_t)) {
-                    params->args_size += len + 1;
-                    params->args = try_realloc(params->args, params->args_size);
-                    strncpy(params->args[i].value.char_ptr, s, len);
-                } else {
-                    params->args[i].value.char_ptr = s;
-                }
+                params->args[i].value.char_ptr = (char *)va_arg(argp, char *);
                 break;
             case 'a':
                 // array argument
@@ -655,13 +645,8 @@ args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
                 break;
             case 'p':
                 // void pointer (any arbitrary pointer) argument
-                params->args[i].value.object = va_arg(argp, void *);
             default:
-                p = va_arg(argp, void *);
-                len = sizeof(p);
-                params->args_size += len;
-                params->args = try_realloc(params->args, params->args_size);
-                memcpy(params->args[i].value.object, p, sizeof(p));
+                params->args[i].value.object = va_arg(argp, void *);
                 break;
         }
     }
-- 
2.43.0


From 1095ec1bcf98ae913eb7d17142674d21104d2830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 07/47] fix: return an empty value for a missing argument

---
 src/raii.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 81e368b..6aaea89 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -555,7 +555,7 @@ RAII_INLINE values_type raii_value(void *data) {
         return ((raii_values_t *)data)->value;
 
     RAII_LOG("attempt to get value on null");
-    return;
+    return (values_type) {0};
 }
 
 void args_free(args_t params) {
@@ -589,9 +589,9 @@ RAII_INLINE values_type get_args(args_t params, int item) {
 }
 
 RAII_INLINE values_type args_in(args_t params, size_t index) {
-    return (index >= 0 && index < params->n_args)
+    return index < params->n_args
         ? params->args[index].value
-        : ((raii_values_t *)0)->value;
+        : (values_type) {0};
 }
 
 args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
-- 
2.43.0


From 45462a14800cd49a43b196fb8d8cd1d9194a5022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 08/47] fix: bind decoded text to an initialized thread scope

---
 src/raii.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raii.c b/src/raii.c
index 6aaea89..98da028 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -194,7 +194,7 @@ RAII_INLINE u_string raii_encode64(u_string_t src) {
 }
 
 RAII_INLINE u_string raii_decode64(u_string_t src) {
-    return str_decode64_ex(raii_local(), src);
+    return str_decode64_ex(raii_init(), src);
 }
 
 unique_t *unique_init(void) {
-- 
2.43.0


From 675bf683b391b9c0919ef581aea88f079dd31986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 09/47] fix: query errors without requiring an initialized
 thread scope

---
 src/raii.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 98da028..7f61fb0 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -485,7 +485,7 @@ RAII_INLINE void raii_recover_by(memory_t *scope, func_t func, void *data) {
 }
 
 bool raii_caught(const char *err) {
-    memory_t *scope = raii_local();
+    memory_t *scope = raii_init();
     const char *exception = (const char *)(!is_empty((void *)scope->panic) ? scope->panic : scope->err);
 
     if (exception == NULL && is_str_eq(err, ex_local()->ex)) {
@@ -508,7 +508,7 @@ bool raii_is_caught(memory_t *scope, const char *err) {
 }
 
 const char *raii_message(void) {
-    memory_t *scope = raii_local();
+    memory_t *scope = raii_init();
     const char *exception = (const char *)(!is_empty((void *)scope->panic) ? scope->panic : scope->err);
     return exception == NULL ? ex_local()->ex : exception;
 }
-- 
2.43.0


From 977000a33017efdea3f509eb693f794bc311c230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 10/47] fix: keep an error recovered once a cleanup handled it

---
 src/raii.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 7f61fb0..738e7c4 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -413,9 +413,6 @@ static void raii_deferred_run(memory_t *scope, size_t generation) {
     while (array->elements > generation) {
         defer_func_t defer = ((defer_func_t *)array->base)[--array->elements];
 
-        if (!is_empty(scope->err) && !is_empty(defer.check))
-            scope->is_recovered = false;
-
         defer.func(defer.data);
     }
 
@@ -493,18 +490,24 @@ bool raii_caught(const char *err) {
         return true;
     }
 
-    if ((scope->is_recovered = is_str_eq(err, exception)))
-        ex_local()->state = ex_catch_st;
+    if (!is_str_eq(err, exception))
+        return false;
+
+    scope->is_recovered = true;
+    ex_local()->state = ex_catch_st;
 
-    return scope->is_recovered;
+    return true;
 }
 
 bool raii_is_caught(memory_t *scope, const char *err) {
     const char *exception = (const char *)(!is_empty((void *)scope->panic) ? scope->panic : scope->err);
-    if ((scope->is_recovered = is_str_eq(err, exception)))
-        ex_local()->state = ex_catch_st;
+    if (!is_str_eq(err, exception))
+        return false;
+
+    scope->is_recovered = true;
+    ex_local()->state = ex_catch_st;
 
-    return scope->is_recovered;
+    return true;
 }
 
 const char *raii_message(void) {
-- 
2.43.0


From b8159ce7c0662bc7514f6f2d2acf78f75544215a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 11/47] fix: do not rethrow an error a cleanup recovered while
 unwinding

---
 src/except.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/except.c b/src/except.c
index 088d247..0aaecdb 100644
--- a/src/except.c
+++ b/src/except.c
@@ -378,6 +378,7 @@ void ex_terminate(void) {
 
 void ex_throw(string_t exception, string_t file, int line, string_t function, string_t message, ex_backtrace_t *dump) {
     ex_context_t *ctx = ex_init();
+    int state = ctx->state;
 
     if (ctx->unstack)
         ex_terminate();
@@ -411,6 +412,10 @@ void ex_throw(string_t exception, string_t file, int line, string_t function, st
 #ifdef _WIN32
     RaiseException(EXCEPTION_PANIC, 0, 0, NULL);
 #endif
+    /* Handled by a deferred function while unwinding, nothing left to catch. */
+    if (state == ex_try_st && ctx->state == ex_catch_st)
+        ex_longjmp(ctx->buf, ex_catch_st);
+
     ex_longjmp(ctx->buf, ctx->state | ex_throw_st);
 }
 
-- 
2.43.0


From 8f51b54cf0e619d84013e23d7ab26acbdbdc696b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 12/47] fix: initialize every field of a try context

---
 include/exception.h | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/include/exception.h b/include/exception.h
index 7ced475..ded732b 100644
--- a/include/exception.h
+++ b/include/exception.h
@@ -223,11 +223,24 @@ throws an exception of given message. */
         ex_signal_setup();                  \
     /* local context */                     \
     ex_context_t ex_err;                    \
-    ex_err.next = ex_init();               \
+    ex_err.type = ex_context_st;            \
+    ex_err.is_unwind = false;               \
+    ex_err.is_rethrown = false;             \
+    ex_err.is_guarded = false;              \
+    ex_err.is_raii = false;                 \
+    ex_err.is_emulated = false;             \
+    ex_err.unstack = 0;                     \
+    ex_err.caught = -1;                     \
+    ex_err.line = 0;                        \
+    ex_err.state = ex_try_st;               \
+    ex_err.data = 0;                        \
+    ex_err.prev = 0;                        \
+    ex_err.next = ex_init();                \
     ex_err.stack = 0;                       \
+    ex_err.panic = 0;                       \
+    ex_err.function = 0;                    \
     ex_err.ex = 0;                          \
-    ex_err.unstack = 0;                     \
-    ex_err.is_rethrown = false;             \
+    ex_err.file = 0;                        \
     /* global context updated */            \
     ex_update(&ex_err);                     \
     /* save jump location */                \
@@ -300,10 +313,24 @@ throws an exception of given message. */
         ex_signal_setup();                  \
     /* local context */                     \
     ex_context_t ex_err;                    \
+    ex_err.type = ex_context_st;            \
+    ex_err.is_unwind = false;               \
+    ex_err.is_rethrown = false;             \
+    ex_err.is_guarded = false;              \
+    ex_err.is_raii = false;                 \
+    ex_err.is_emulated = false;             \
+    ex_err.unstack = 0;                     \
+    ex_err.caught = -1;                     \
+    ex_err.line = 0;                        \
+    ex_err.state = ex_try_st;               \
+    ex_err.data = 0;                        \
+    ex_err.prev = 0;                        \
     ex_err.next = ex_init();                \
     ex_err.stack = 0;                       \
+    ex_err.panic = 0;                       \
+    ex_err.function = 0;                    \
     ex_err.ex = 0;                          \
-    ex_err.unstack = 0;                     \
+    ex_err.file = 0;                        \
     /* global context updated */            \
     ex_update(&ex_err);                     \
     /* save jump location */                \
-- 
2.43.0


From e2d78496fd5394b0e2ae801105eca0934210064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 13/47] fix: release every protected pointer on unwinding

---
 include/exception.h |  2 +-
 src/except.c        | 41 +++++++++++++++++++++++------------------
 2 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/include/exception.h b/include/exception.h
index ded732b..f5a6506 100644
--- a/include/exception.h
+++ b/include/exception.h
@@ -474,7 +474,7 @@ If `ptr` is not null, `func(ptr)` will be invoked during stack unwinding. */
 #define protected(ptr, func) ex_ptr_t EX_PNAME(ptr) = ex_protect_ptr(&EX_PNAME(ptr), &ptr, func)
 
 /* Remove memory pointer protection, does not free the memory. */
-#define unprotected(p) (ex_local()->stack = EX_PNAME(p).next)
+#define unprotected(p) ex_unprotected_ptr(&EX_PNAME(p))
 
 #ifdef __cplusplus
 }
diff --git a/src/except.c b/src/except.c
index 0aaecdb..530f6e2 100644
--- a/src/except.c
+++ b/src/except.c
@@ -59,7 +59,6 @@ EX_EXCEPTION(bad_alloc);
 thrd_local(ex_context_t, except, NULL)
 
 static volatile sig_atomic_t got_signal = false;
-static volatile sig_atomic_t got_uncaught_exception = false;
 static volatile sig_atomic_t got_ctrl_c = false;
 static volatile sig_atomic_t can_terminate = true;
 
@@ -88,24 +87,34 @@ static struct {
 
 ex_ptr_t ex_protect_ptr(ex_ptr_t *const_ptr, void *ptr, void (*func)(void *)) {
     ex_context_t *ctx = ex_init();
-    const_ptr->next = ctx->stack;
+    /* Protecting again replaces, a second link would point at itself. */
+    if (ctx->stack != const_ptr) {
+        const_ptr->next = ctx->stack;
+        ctx->stack = const_ptr;
+    }
+
     const_ptr->func = func;
     const_ptr->ptr = ptr;
-    ctx->stack = const_ptr;
     const_ptr->type = ex_protected_st;
     return *const_ptr;
 }
 
 void ex_unprotected_ptr(ex_ptr_t *const_ptr) {
     if (is_type(const_ptr, ex_protected_st) && !is_except_empty()) {
+        ex_ptr_t **p = &ex_local()->stack;
+
+        while (*p && *p != const_ptr)
+            p = &(*p)->next;
+
+        if (*p)
+            *p = const_ptr->next;
+
         const_ptr->type = -1;
-        ex_local()->stack = const_ptr->next;
     }
 }
 
 static void ex_unwind_stack(ex_context_t *ctx) {
-    ex_ptr_t *p = ctx->stack;
-    void *temp = NULL;
+    ex_ptr_t *p;
 
     ctx->unstack = 1;
 
@@ -113,18 +122,14 @@ static void ex_unwind_stack(ex_context_t *ctx) {
         exception_unwind_func(ctx->data);
     } else if (ctx->is_unwind && ctx->is_raii && ctx->data == (void *)raii_local()) {
         raii_deferred_clean();
-    } else {
-        while (p && p->type == ex_protected_st) {
-            if ((got_uncaught_exception = (temp == *p->ptr)))
-                break;
-
-            if (*p->ptr) {
-                p->type = -1;
-                p->func(*p->ptr);
-            }
+    }
 
-            temp = *p->ptr;
-            p = p->next;
+    while ((p = ctx->stack) && p->type == ex_protected_st) {
+        ctx->stack = p->next;
+        p->type = -1;
+        if (*p->ptr) {
+            p->func(*p->ptr);
+            *p->ptr = NULL;
         }
     }
 
@@ -355,7 +360,7 @@ void ex_terminate(void) {
     if (ex_local()->is_raii)
         raii_destroy();
 
-    if (ex_uncaught_exception() || got_uncaught_exception)
+    if (ex_uncaught_exception())
         ex_print(ex_local(), "\nException during stack unwinding leading to an undefined behavior");
     else
         ex_print(ex_local(), "\nExiting with uncaught exception");
-- 
2.43.0


From 32ce8eb737d78ce55af090da1b0b6aa5c30de05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 14/47] fix: leave a guard's scope alone when a nested try
 handles the error

---
 include/raii.h | 1 +
 src/raii.c     | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/raii.h b/include/raii.h
index 2bb3d15..0879768 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -541,6 +541,7 @@ are only valid between these sections.
     (_$##__FUNCTION__)->status = RAII_GUARDED_STATUS;   \
     raii_local()->arena = (void *)_$##__FUNCTION__;     \
     ex_try {                                            \
+        ex_err.prev = ex_err.data = (void *)_$##__FUNCTION__;   \
         do {
 
     /* This ends an scoped guard section, it replaces `}`.
diff --git a/src/raii.c b/src/raii.c
index 738e7c4..0212ad6 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -529,7 +529,11 @@ RAII_INLINE void raii_defer_fire(size_t index) {
 }
 
 void guard_set(ex_context_t *ctx, const char *ex, const char *message) {
-    memory_t *scope = raii_local()->arena;
+    memory_t *scope = ctx->data;
+    /* Thrown inside a plain `try` nested in the guard, not the guard's to unwind. */
+    if (!is_guard(scope))
+        return;
+
     scope->err = (void *)ex;
     scope->panic = message;
     ctx->is_guarded = true;
-- 
2.43.0


From 984169450577a1b50268d1fb0740b1983146ae85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 15/47] fix: keep the guard hooks of each thread apart

---
 include/exception.h | 2 --
 include/raii.h      | 4 ++++
 src/except.c        | 4 ++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/exception.h b/include/exception.h
index f5a6506..f358e64 100644
--- a/include/exception.h
+++ b/include/exception.h
@@ -455,8 +455,6 @@ struct ex_ptr_s {
 /* extern declaration
 */
 
-C_API ex_setup_func exception_setup_func;
-C_API ex_unwind_func exception_unwind_func;
 C_API ex_terminate_func exception_terminate_func;
 C_API ex_terminate_func exception_ctrl_c_func;
 C_API bool exception_signal_set;
diff --git a/include/raii.h b/include/raii.h
index 0879768..ddd3d08 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -625,6 +625,10 @@ are only valid between these sections.
 thrd_local_extern(memory_t, raii)
 thrd_local_extern(ex_context_t, except)
 
+/* Set by `guard` for the current `thread` only. */
+C_API thread_local ex_setup_func exception_setup_func;
+C_API thread_local ex_unwind_func exception_unwind_func;
+
 typedef struct arena_s *arena_t;
 struct arena_s {
     raii_type type;
diff --git a/src/except.c b/src/except.c
index 530f6e2..c6b58d5 100644
--- a/src/except.c
+++ b/src/except.c
@@ -62,8 +62,8 @@ static volatile sig_atomic_t got_signal = false;
 static volatile sig_atomic_t got_ctrl_c = false;
 static volatile sig_atomic_t can_terminate = true;
 
-ex_setup_func exception_setup_func = NULL;
-ex_unwind_func exception_unwind_func = NULL;
+thread_local ex_setup_func exception_setup_func = NULL;
+thread_local ex_unwind_func exception_unwind_func = NULL;
 ex_terminate_func exception_ctrl_c_func = NULL;
 ex_terminate_func exception_terminate_func = NULL;
 bool exception_signal_set = false;
-- 
2.43.0


From af2df42954383fd10869447adbc23dc23d60dfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 16/47] fix: panic when an arena allocation fails

---
 src/arena.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/arena.c b/src/arena.c
index 1459b31..931e2dd 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -66,8 +66,9 @@ void *arena_alloc(arena_t arena, long nbytes) {
                 ptr = RAII_MALLOC(arena->total);
 
             if (ptr == NULL) {
+                arena->total -= m;
                 errno = ENOMEM;
-                return NULL;
+                raii_panic("Arena allocation failed!");
             }
 
             if (arena->is_global) {
@@ -99,6 +100,11 @@ void *arena_alloc(arena_t arena, long nbytes) {
 
 void *arena_calloc(arena_t arena, long count, long nbytes) {
     RAII_ASSERT(count > 0);
+    if (UNLIKELY(nbytes > 0 && count > LONG_MAX / nbytes)) {
+        errno = ENOMEM;
+        raii_panic("Arena allocation failed!");
+    }
+
     void *ptr = arena_alloc(arena, count * nbytes);
     memset(ptr, 0, count * nbytes);
     return ptr;
-- 
2.43.0


From 2f757ade12a7dc1a5317e4350d43617e6fe2aef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 17/47] fix: clear and free an arena without touching released
 blocks

---
 src/arena.c | 50 ++++++++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/arena.c b/src/arena.c
index 931e2dd..fbf0cb9 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -27,16 +27,37 @@ arena_t arena_init(size_t threshold) {
     return arena;
 }
 
+/* Put `arena` back to the state saved in its newest block, and give that block up. */
+static void arena_release(arena_t arena, bool reusable) {
+    arena_t block = arena->next;
+    struct arena_s saved = *block;
+
+    if (reusable) {
+        block->next = free_list;
+        block->limit = arena->limit;
+        free_list = block;
+        num_free++;
+    } else {
+        block->type = -1;
+        RAII_FREE(block);
+    }
+
+    arena->next = saved.next;
+    arena->avail = saved.avail;
+    arena->limit = saved.limit;
+    arena->bytes = saved.bytes;
+}
+
 void arena_free(arena_t arena) {
     if (is_empty(arena))
         return;
 
     if (is_type(arena, RAII_ARENA + RAII_STRUCT)) {
-        num_free += (int)arena->threshold + 1;
         if (arena->is_global)
             RAII_FREE(arena->base);
-        else
-            arena_clear(arena);
+
+        while (!arena->is_global && arena->next && is_type(arena->next, RAII_ARENA))
+            arena_release(arena, false);
 
         memset(arena, -1, sizeof(arena_t));
         RAII_FREE(arena);
@@ -111,28 +132,13 @@ void *arena_calloc(arena_t arena, long count, long nbytes) {
 }
 
 void arena_clear(arena_t arena) {
-    if (is_empty(arena))
+    if (is_empty(arena) || arena->is_global)
         return;
 
-    while (!arena->is_global && arena->next && is_type(arena->next, RAII_ARENA)) {
-        arena_t tmp = arena->next;
-        if (num_free < (int)arena->threshold) {
-            arena->next->next = free_list;
-            free_list = arena->next;
-            num_free++;
-            free_list->limit = arena->limit;
-            if (is_zero(free_list->bytes))
-                arena->avail -= arena->bytes;
-            else
-                arena->avail -= free_list->bytes;
-        } else {
-            memset(arena->next, -1, sizeof(arena_t));
-            RAII_FREE(arena->next);
-            arena->next = NULL;
-        }
+    while (arena->next && is_type(arena->next, RAII_ARENA))
+        arena_release(arena, num_free < (int)arena->threshold);
 
-        arena = tmp;
-    }
+    arena->base = NULL;
 }
 
 void arena_print(const arena_t arena) {
-- 
2.43.0


From d39b0e50b2ed3a320a744004d1c120420225e4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 18/47] fix: give every promise a scope of its own

---
 src/future.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/future.c b/src/future.c
index 53d67a6..eef1a77 100644
--- a/src/future.c
+++ b/src/future.c
@@ -12,7 +12,9 @@ Modified from https://gist.github.com/Geal/8f85e02561d101decf9a
 
 static promise *promise_create(void) {
     promise *p = calloc_default(1, sizeof(promise));
-    p->scope = raii_local();
+    /* Only the worker writes here until `done`, never the creator's own scope. */
+    p->scope = unique_init();
+    raii_deferred(raii_local(), (func_t)raii_delete, p->scope);
     atomic_flag_clear(&p->mutex);
     atomic_flag_clear(&p->done);
     p->type = RAII_PROMISE;
-- 
2.43.0


From c1013fde4b5db164d7b0082f7bdda356f7ef404b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 19/47] fix: join every worker before using its promise's
 outcome

---
 src/future.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/future.c b/src/future.c
index eef1a77..b4a96a3 100644
--- a/src/future.c
+++ b/src/future.c
@@ -112,11 +112,12 @@ future thrd_async(thrd_func_t fn, void_t args) {
 
 values_type thrd_get(future f) {
     if (is_type(f, RAII_FUTURE) && !is_empty(f->value) && is_type(f->value, RAII_PROMISE)) {
-        raii_values_t *r = promise_get(f->value);
+        promise *p = f->value;
+        raii_values_t *r = promise_get(p);
         future_close(f);
-        promise_close(f->value);
+        promise_close(p);
         if (is_empty(r))
-            return thrd_value(0)->value;
+            return (values_type) {0};
 
         return r->value;
     }
@@ -264,25 +265,33 @@ future_t thrd_sync(future_t v) {
     if (!is_type(v, RAII_SPAWN))
         throw(logic_error);
 
-    int i, x;
+    int i;
     memory_t *scope = v->scope;
+    promise *failed = NULL;
     for (i = 0; i < v->thread_count; i++) {
-        raii_values_t *result = promise_get(v->futures[i]->value);
-        size_t size = result->size;
+        promise *p = v->futures[i]->value;
+        raii_values_t *result = promise_get(p);
+        size_t size = is_empty(result) ? 0 : result->size;
         v->results[i]->result = (raii_values_t *)calloc_full(scope, 1, sizeof(raii_values_t), RAII_FREE);
         if (size > 0) {
             v->results[i]->result->extended = calloc_full(scope, 1, size, RAII_FREE);
             memcpy(v->results[i]->result->extended, result->extended, size);
             v->results[i]->result->value.object = v->results[i]->result->extended;
-        } else {
+        } else if (!is_empty(result)) {
             v->results[i]->result->value.array = result->value.array;
         }
 
-        v->results[i]->is_ready = true;
+        v->results[i]->is_ready = is_empty(p->scope->err);
         future_close(v->futures[i]);
-        promise_close(v->futures[i]->value);
+        if (v->results[i]->is_ready)
+            promise_close(p);
+        else if (is_empty(failed))
+            failed = p;
     }
 
+    if (!is_empty(failed))
+        promise_close(failed);
+
     raii_deferred_clean();
     return v;
 }
-- 
2.43.0


From 04d786e62fc786e42bf62bb9b27603d9faa8aa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 20/47] fix: release a future whose thread could not start

---
 src/future.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/future.c b/src/future.c
index b4a96a3..0498077 100644
--- a/src/future.c
+++ b/src/future.c
@@ -98,8 +98,11 @@ static void thrd_start(future f, promise *value, void_t arg) {
     f_arg->arg = arg;
     f_arg->value = value;
     f_arg->type = RAII_FUTURE_ARG;
-    if (thrd_create(&f->thread, thrd_raii_wrapper, f_arg) != thrd_success)
+    if (thrd_create(&f->thread, thrd_raii_wrapper, f_arg) != thrd_success) {
+        RAII_FREE(f_arg);
+        RAII_FREE(f);
         throw(future_error);
+    }
 }
 
 future thrd_async(thrd_func_t fn, void_t args) {
@@ -232,15 +235,17 @@ result_t thrd_spawn(thrd_func_t fn, void_t args) {
 
     promise *p = promise_create();
     future f = future_create(fn);
-    ex_protect_ptr(raii_local()->protector, &f, RAII_FREE);
     future_arg *f_arg = try_calloc(1, sizeof(future_arg));
     f_arg->func = f->func;
     f_arg->arg = args;
     f_arg->value = p;
     f_arg->type = RAII_FUTURE_ARG;
     f->value = p;
-    if (thrd_create(&f->thread, thrd_raii_wrapper, f_arg) != thrd_success)
+    if (thrd_create(&f->thread, thrd_raii_wrapper, f_arg) != thrd_success) {
+        RAII_FREE(f_arg);
+        RAII_FREE(f);
         throw(future_error);
+    }
 
     pool->futures[pool->thread_count] = f;
     pool->results[pool->thread_count] = (result_t)calloc_full(pool->scope, 1, sizeof(struct result_data), RAII_FREE);
-- 
2.43.0


From 4e06a11513615ef1f4bca928cdef3b5d0a250c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 21/47] fix: never use a missing thread scope or argument

---
 src/future.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/future.c b/src/future.c
index 0498077..8306921 100644
--- a/src/future.c
+++ b/src/future.c
@@ -80,7 +80,7 @@ static int thrd_raii_wrapper(void_t arg) {
         res = f->func((args_t)f->arg);
     } guarded_exception(f->value->scope);
 
-    promise_set(f->value, res, (is_type(f->arg, RAII_ARGS) && ((args_t)f->arg)->is_returning));
+    promise_set(f->value, res, (!is_empty(f->arg) && is_type(f->arg, RAII_ARGS) && ((args_t)f->arg)->is_returning));
     if (is_type(f, RAII_FUTURE_ARG)) {
         memset(f, 0, sizeof(f));
         RAII_FREE(f);
@@ -224,7 +224,7 @@ future_t thrd_scope(void) {
 }
 
 result_t thrd_spawn(thrd_func_t fn, void_t args) {
-    if (is_raii_empty() || !is_type(raii_local()->arena, RAII_SPAWN))
+    if (is_raii_empty() || is_empty(raii_local()->arena) || !is_type(raii_local()->arena, RAII_SPAWN))
         raii_panic("No initialization, No `thrd_scope`!");
 
     future_t pool = (future_t)raii_local()->arena;
@@ -312,6 +312,9 @@ void thrd_destroy(future_t f) {
     if (is_type(f, RAII_SPAWN)) {
         memory_t *scope = f->scope;
         ex_ptr_t *err = scope->protector;
+        if (!is_raii_empty() && raii_local()->arena == (void *)f)
+            raii_local()->arena = NULL;
+
         f->type = -1;
         RAII_FREE(f->futures);
         RAII_FREE(f->results);
-- 
2.43.0


From ed2880b6d40cda5a3aac91a7d1908d71eb9eb21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 22/47] fix: do not search forever for an empty string

---
 src/swar.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 89beccd..1323a73 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -628,7 +628,7 @@ string *str_split_ex(memory_t *defer, string_t s, string_t delim, int *count) {
     if (is_str_eq(s, ""))
         return NULL;
 
-    if (is_empty((void_t)delim))
+    if (is_empty((void_t)delim) || is_str_empty(delim))
         delim = " ";
 
     void *data;
@@ -692,7 +692,7 @@ string str_concat_ex(memory_t *defer, int num_args, va_list ap_copy) {
 }
 
 string str_replace_ex(memory_t *defer, string_t haystack, string_t needle, string_t replace) {
-    if (!haystack || !needle || !replace)
+    if (!haystack || !needle || !replace || is_str_empty(needle))
         return NULL;
 
     string result;
-- 
2.43.0


From 9d08e446064cf33aaa72de4bab475770a4695921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 23/47] fix: bind joined text to its scope like any other
 allocation

---
 src/swar.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 1323a73..3cd9a13 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -673,8 +673,9 @@ string str_concat_ex(memory_t *defer, int num_args, va_list ap_copy) {
     va_copy(ap, ap_copy);
     for (i = 0; i < num_args; i++)
         strsize += simd_strlen(va_arg(ap, string));
+    va_end(ap);
 
-    string res = try_calloc(1, strsize + 1);
+    string res = defer ? calloc_full(defer, 1, strsize + 1, RAII_FREE) : try_calloc(1, strsize + 1);
     strsize = 0;
 
     va_copy(ap, ap_copy);
@@ -685,9 +686,6 @@ string str_concat_ex(memory_t *defer, int num_args, va_list ap_copy) {
     }
     va_end(ap);
 
-    if (defer)
-        raii_deferred(defer, RAII_FREE, res);
-
     return res;
 }
 
-- 
2.43.0


From 52a6e5f9de918d6c828548f5d4964dc3abb20c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 24/47] fix: install a guard's hooks only once its scope exists

A guard whose scope could not be allocated threw with its hooks already
installed, so every later error in the thread skipped the thread's own
unwinding.
---
 include/raii.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/raii.h b/include/raii.h
index ddd3d08..352d5e6 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -535,9 +535,9 @@ are only valid between these sections.
     void *s##__FUNCTION__ = raii_init()->arena;         \
     ex_setup_func sf##__FUNCTION__ = exception_setup_func;      \
     ex_unwind_func uf##__FUNCTION__ = exception_unwind_func;    \
+    unique_t *_$##__FUNCTION__ = unique_init();         \
     exception_unwind_func = (ex_unwind_func)raii_deferred_free; \
     exception_setup_func = guard_set;                   \
-    unique_t *_$##__FUNCTION__ = unique_init();         \
     (_$##__FUNCTION__)->status = RAII_GUARDED_STATUS;   \
     raii_local()->arena = (void *)_$##__FUNCTION__;     \
     ex_try {                                            \
-- 
2.43.0


From a88622a6541e1468c4c6115b5b7eec3cb6f53784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 25/47] fix: report a recovery function that could not be
 registered

raii_recover and raii_recover_by have no result, so when the entry array
could not grow the function was dropped and never ran.
---
 src/raii.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 0212ad6..94652be 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -474,11 +474,15 @@ RAII_INLINE size_t raii_defer(func_t func, void *data) {
 }
 
 RAII_INLINE void raii_recover(func_t func, void *data) {
-    raii_deferred_any(raii_local(), func, data, (void *)"err");
+    raii_recover_by(raii_local(), func, data);
 }
 
-RAII_INLINE void raii_recover_by(memory_t *scope, func_t func, void *data) {
-    raii_deferred_any(scope, func, data, (void *)"err");
+void raii_recover_by(memory_t *scope, func_t func, void *data) {
+    /* There is no result to tell the caller that `func` will never run. */
+    if (UNLIKELY(raii_deferred_any(scope, func, data, (void *)"err") == (size_t)-1)) {
+        errno = ENOMEM;
+        raii_panic("Deferred registration failed!");
+    }
 }
 
 bool raii_caught(const char *err) {
-- 
2.43.0


From bc8c4a5b96948c37bf49bb360e386a35b3ee7a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 26/47] fix: remove pointer protection in whichever try it was
 made

Removing it inside a nested try left the entry linked in the outer one,
which then stopped there and released no older protected pointer.
---
 src/except.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/except.c b/src/except.c
index c6b58d5..8cea97b 100644
--- a/src/except.c
+++ b/src/except.c
@@ -101,13 +101,18 @@ ex_ptr_t ex_protect_ptr(ex_ptr_t *const_ptr, void *ptr, void (*func)(void *)) {
 
 void ex_unprotected_ptr(ex_ptr_t *const_ptr) {
     if (is_type(const_ptr, ex_protected_st) && !is_except_empty()) {
-        ex_ptr_t **p = &ex_local()->stack;
+        ex_context_t *ctx;
+        ex_ptr_t **p;
 
-        while (*p && *p != const_ptr)
-            p = &(*p)->next;
+        /* It can have been protected before the current `try` was entered. */
+        for (ctx = ex_local(); ctx != NULL; ctx = ctx->next) {
+            for (p = &ctx->stack; *p && *p != const_ptr; p = &(*p)->next);
 
-        if (*p)
-            *p = const_ptr->next;
+            if (*p) {
+                *p = const_ptr->next;
+                break;
+            }
+        }
 
         const_ptr->type = -1;
     }
-- 
2.43.0


From df5f429b8ec537b3d2750c8788cae59490edb8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 27/47] fix: thrd_returning keeps its value with the promise,
 not with the creator's scope or an argument taken for args_t

---
 src/future.c | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/future.c b/src/future.c
index 8306921..3b2b861 100644
--- a/src/future.c
+++ b/src/future.c
@@ -10,11 +10,15 @@ Modified from https://gist.github.com/Geal/8f85e02561d101decf9a
 
 #include "raii.h"
 
+/* What the function of this worker thread handed to `thrd_returning`. */
+static thread_local raii_values_t *thrd_returned = NULL;
+
 static promise *promise_create(void) {
     promise *p = calloc_default(1, sizeof(promise));
     /* Only the worker writes here until `done`, never the creator's own scope. */
     p->scope = unique_init();
     raii_deferred(raii_local(), (func_t)raii_delete, p->scope);
+    p->result = (raii_values_t *)calloc_full(p->scope, 1, sizeof(raii_values_t), RAII_FREE);
     atomic_flag_clear(&p->mutex);
     atomic_flag_clear(&p->done);
     p->type = RAII_PROMISE;
@@ -22,17 +26,20 @@ static promise *promise_create(void) {
     return p;
 }
 
-static void promise_set(promise *p, void_t res, bool is_args) {
+static void promise_set(promise *p, void_t res) {
+    raii_values_t *returned = thrd_returned;
+    thrd_returned = NULL;
     atomic_lock(&p->mutex);
-    if (!is_empty(res)) {
-        if (is_args) {
-            p->result = (raii_values_t *)res;
-        } else {
-            p->result = (raii_values_t *)calloc_full(p->scope, 1, sizeof(raii_values_t), RAII_FREE);
-            p->result->value.object = res;
-        }
+    if (!is_empty(returned)) {
+        raii_deferred(p->scope, RAII_FREE, returned->extended);
+        raii_deferred(p->scope, RAII_FREE, returned);
     }
 
+    if (!is_empty(returned) && res == (void_t)returned)
+        p->result = returned;
+    else
+        p->result->value.object = res;
+
     atomic_unlock(&p->mutex);
     atomic_flag_test_and_set(&p->done);
 }
@@ -80,7 +87,7 @@ static int thrd_raii_wrapper(void_t arg) {
         res = f->func((args_t)f->arg);
     } guarded_exception(f->value->scope);
 
-    promise_set(f->value, res, (!is_empty(f->arg) && is_type(f->arg, RAII_ARGS) && ((args_t)f->arg)->is_returning));
+    promise_set(f->value, res);
     if (is_type(f, RAII_FUTURE_ARG)) {
         memset(f, 0, sizeof(f));
         RAII_FREE(f);
@@ -138,8 +145,12 @@ RAII_INLINE void thrd_wait(future f, wait_func yield) {
 }
 
 RAII_INLINE raii_values_t *thrd_returning(args_t args, void_t value, size_t size) {
-    raii_deferred(args->context, RAII_FREE, value);
-    raii_values_t *result = (raii_values_t *)calloc_full(args->context, 1, sizeof(raii_values_t), RAII_FREE);
+    raii_values_t *result = thrd_returned;
+    if (is_empty(result))
+        result = thrd_returned = (raii_values_t *)try_calloc(1, sizeof(raii_values_t));
+    else if (result->extended != value)
+        RAII_FREE(result->extended);
+
     result->value.object = value;
     result->size = size;
     result->extended = value;
-- 
2.43.0


From fa320abab15cc2029edc457d8f443a86f8b54f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 28/47] fix: thrd_spawn_ex binds its arguments before the
 worker can read them

---
 src/future.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/future.c b/src/future.c
index 3b2b861..ee80acc 100644
--- a/src/future.c
+++ b/src/future.c
@@ -274,6 +274,13 @@ result_t thrd_spawn_ex(thrd_func_t fn, const char *desc, ...) {
     args_t params = raii_args_ex(raii_local(), desc, args);
     va_end(args);
 
+    /* Bound here, the worker must not register on the scope of its creator. */
+    params->defer_set = true;
+    if (UNLIKELY(raii_deferred(params->context, (func_t)args_free, params) == (size_t)-1)) {
+        args_free(params);
+        raii_panic("Deferred registration failed!");
+    }
+
     return thrd_spawn(fn, (void_t)params);
 }
 
-- 
2.43.0


From 581258b0501c7920e3fa1f7ec4d79b5af113ca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 29/47] fix: a synchronised group does not use the futures it
 released

---
 src/future.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/future.c b/src/future.c
index ee80acc..88b8b30 100644
--- a/src/future.c
+++ b/src/future.c
@@ -292,6 +292,10 @@ future_t thrd_sync(future_t v) {
     memory_t *scope = v->scope;
     promise *failed = NULL;
     for (i = 0; i < v->thread_count; i++) {
+        /* Already synchronised. */
+        if (is_empty(v->futures[i]))
+            continue;
+
         promise *p = v->futures[i]->value;
         raii_values_t *result = promise_get(p);
         size_t size = is_empty(result) ? 0 : result->size;
@@ -306,6 +310,7 @@ future_t thrd_sync(future_t v) {
 
         v->results[i]->is_ready = is_empty(p->scope->err);
         future_close(v->futures[i]);
+        v->futures[i] = NULL;
         if (v->results[i]->is_ready)
             promise_close(p);
         else if (is_empty(failed))
@@ -344,7 +349,7 @@ void thrd_destroy(future_t f) {
 RAII_INLINE bool thrd_is_finish(future_t f) {
     size_t i;
     for (i = 0; i < f->thread_count; i++) {
-        if (!thrd_is_done(f->futures[i]))
+        if (!is_empty(f->futures[i]) && !thrd_is_done(f->futures[i]))
             return false;
     }
 
-- 
2.43.0


From e414c39dd8d4b36b7bc096195d71e00c8d64ef89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 30/47] fix: an error of one worker does not take the results
 of the others away

---
 src/future.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/future.c b/src/future.c
index 88b8b30..fffb16c 100644
--- a/src/future.c
+++ b/src/future.c
@@ -226,8 +226,6 @@ future_t thrd_scope(void) {
     pool->cpu_present = thrd_cpu_count();
     pool->futures = NULL;
     pool->results = NULL;
-    ex_protect_ptr(scope->protector, &pool->futures, RAII_FREE);
-    ex_protect_ptr(scope->protector, &pool->results, RAII_FREE);
     pool->type = RAII_SPAWN;
     spawn->arena = pool;
 
@@ -334,14 +332,12 @@ void thrd_then(result_func_t callback, future_t iter, void_t result) {
 void thrd_destroy(future_t f) {
     if (is_type(f, RAII_SPAWN)) {
         memory_t *scope = f->scope;
-        ex_ptr_t *err = scope->protector;
         if (!is_raii_empty() && raii_local()->arena == (void *)f)
             raii_local()->arena = NULL;
 
         f->type = -1;
         RAII_FREE(f->futures);
         RAII_FREE(f->results);
-        ex_unprotected_ptr(err);
         raii_delete(scope);
     }
 }
-- 
2.43.0


From b1023a61b2452145dee5d6d10b41448b142c730e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:50 +0000
Subject: [PATCH 31/47] fix: a group keeps its promises itself, synchronising
 it does not end the scope of its thread

---
 src/future.c | 55 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/src/future.c b/src/future.c
index fffb16c..057ea5f 100644
--- a/src/future.c
+++ b/src/future.c
@@ -13,11 +13,15 @@ Modified from https://gist.github.com/Geal/8f85e02561d101decf9a
 /* What the function of this worker thread handed to `thrd_returning`. */
 static thread_local raii_values_t *thrd_returned = NULL;
 
-static promise *promise_create(void) {
-    promise *p = calloc_default(1, sizeof(promise));
+static promise *promise_create(memory_t *scope) {
+    promise *p = calloc_full(scope, 1, sizeof(promise), RAII_FREE);
     /* Only the worker writes here until `done`, never the creator's own scope. */
     p->scope = unique_init();
-    raii_deferred(raii_local(), (func_t)raii_delete, p->scope);
+    if (UNLIKELY(raii_deferred(scope, (func_t)raii_delete, p->scope) == (size_t)-1)) {
+        raii_delete(p->scope);
+        errno = ENOMEM;
+        raii_panic("Deferred registration failed!");
+    }
     p->result = (raii_values_t *)calloc_full(p->scope, 1, sizeof(raii_values_t), RAII_FREE);
     atomic_flag_clear(&p->mutex);
     atomic_flag_clear(&p->done);
@@ -100,7 +104,13 @@ static int thrd_raii_wrapper(void_t arg) {
 }
 
 static void thrd_start(future f, promise *value, void_t arg) {
-    future_arg *f_arg = try_calloc(1, sizeof(future_arg));
+    future_arg *f_arg = RAII_CALLOC(1, sizeof(future_arg));
+    if (UNLIKELY(is_empty(f_arg))) {
+        RAII_FREE(f);
+        errno = ENOMEM;
+        raii_panic("Calloc failed!");
+    }
+
     f_arg->func = f->func;
     f_arg->arg = arg;
     f_arg->value = value;
@@ -113,7 +123,7 @@ static void thrd_start(future f, promise *value, void_t arg) {
 }
 
 future thrd_async(thrd_func_t fn, void_t args) {
-    promise *p = promise_create();
+    promise *p = promise_create(raii_init());
     future f = future_create(fn);
     f->value = p;
     thrd_start(f, p, args);
@@ -232,32 +242,27 @@ future_t thrd_scope(void) {
     return pool;
 }
 
-result_t thrd_spawn(thrd_func_t fn, void_t args) {
+static future_t thrd_group(void) {
     if (is_raii_empty() || is_empty(raii_local()->arena) || !is_type(raii_local()->arena, RAII_SPAWN))
         raii_panic("No initialization, No `thrd_scope`!");
 
-    future_t pool = (future_t)raii_local()->arena;
+    return (future_t)raii_local()->arena;
+}
+
+result_t thrd_spawn(thrd_func_t fn, void_t args) {
+    future_t pool = thrd_group();
     if (pool->thread_count % pool->cpu_present == 0) {
         pool->futures = try_realloc(pool->futures, (pool->thread_count + pool->cpu_present) * sizeof(pool->futures[0]));
         pool->results = try_realloc(pool->results, (pool->thread_count + pool->cpu_present) * sizeof(pool->results[0]));
     }
 
-    promise *p = promise_create();
+    promise *p = promise_create(pool->scope);
+    pool->results[pool->thread_count] = (result_t)calloc_full(pool->scope, 1, sizeof(struct result_data), RAII_FREE);
     future f = future_create(fn);
-    future_arg *f_arg = try_calloc(1, sizeof(future_arg));
-    f_arg->func = f->func;
-    f_arg->arg = args;
-    f_arg->value = p;
-    f_arg->type = RAII_FUTURE_ARG;
     f->value = p;
-    if (thrd_create(&f->thread, thrd_raii_wrapper, f_arg) != thrd_success) {
-        RAII_FREE(f_arg);
-        RAII_FREE(f);
-        throw(future_error);
-    }
+    thrd_start(f, p, args);
 
     pool->futures[pool->thread_count] = f;
-    pool->results[pool->thread_count] = (result_t)calloc_full(pool->scope, 1, sizeof(struct result_data), RAII_FREE);
     pool->results[pool->thread_count]->is_ready = false;
     pool->results[pool->thread_count]->result = NULL;
     pool->results[pool->thread_count]->type = RAII_VALUE;
@@ -269,7 +274,7 @@ result_t thrd_spawn(thrd_func_t fn, void_t args) {
 result_t thrd_spawn_ex(thrd_func_t fn, const char *desc, ...) {
     va_list args;
     va_start(args, desc);
-    args_t params = raii_args_ex(raii_local(), desc, args);
+    args_t params = raii_args_ex(thrd_group()->scope, desc, args);
     va_end(args);
 
     /* Bound here, the worker must not register on the scope of its creator. */
@@ -318,7 +323,6 @@ future_t thrd_sync(future_t v) {
     if (!is_empty(failed))
         promise_close(failed);
 
-    raii_deferred_clean();
     return v;
 }
 
@@ -331,7 +335,16 @@ void thrd_then(result_func_t callback, future_t iter, void_t result) {
 
 void thrd_destroy(future_t f) {
     if (is_type(f, RAII_SPAWN)) {
+        int i;
         memory_t *scope = f->scope;
+        for (i = 0; i < f->thread_count; i++) {
+            /* Never synchronised, the worker still uses what is released here. */
+            if (!is_empty(f->futures[i])) {
+                promise_get(f->futures[i]->value);
+                future_close(f->futures[i]);
+            }
+        }
+
         if (!is_raii_empty() && raii_local()->arena == (void *)f)
             raii_local()->arena = NULL;
 
-- 
2.43.0


From 4ba9501bfbeab8e958eda2852e0367cdb69f3569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:50 +0000
Subject: [PATCH 32/47] fix: refuse a missing future, result or group

---
 src/future.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/future.c b/src/future.c
index 057ea5f..66b55f7 100644
--- a/src/future.c
+++ b/src/future.c
@@ -131,7 +131,7 @@ future thrd_async(thrd_func_t fn, void_t args) {
 }
 
 values_type thrd_get(future f) {
-    if (is_type(f, RAII_FUTURE) && !is_empty(f->value) && is_type(f->value, RAII_PROMISE)) {
+    if (!is_empty(f) && is_type(f, RAII_FUTURE) && !is_empty(f->value) && is_type(f->value, RAII_PROMISE)) {
         promise *p = f->value;
         raii_values_t *r = promise_get(p);
         future_close(f);
@@ -169,7 +169,7 @@ RAII_INLINE raii_values_t *thrd_returning(args_t args, void_t value, size_t size
 }
 
 RAII_INLINE values_type thrd_result(result_t value) {
-    if (value->is_ready)
+    if (!is_empty(value) && value->is_ready)
         return value->result->value;
 
     throw(logic_error);
@@ -288,7 +288,7 @@ result_t thrd_spawn_ex(thrd_func_t fn, const char *desc, ...) {
 }
 
 future_t thrd_sync(future_t v) {
-    if (!is_type(v, RAII_SPAWN))
+    if (is_empty(v) || !is_type(v, RAII_SPAWN))
         throw(logic_error);
 
     int i;
-- 
2.43.0


From daf1dd3749f29c6634b272670bb3d9bc1bcdbae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:04 +0000
Subject: [PATCH 33/47] fix: deferring in a thread without a scope sets the
 scope up

---
 src/raii.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 94652be..4fced13 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -129,7 +129,7 @@ memory_t *raii_init(void) {
 }
 
 RAII_INLINE size_t raii_mid(void) {
-    return raii_local()->mid;
+    return raii_init()->mid;
 }
 
 RAII_INLINE size_t raii_last_mid(memory_t *scope) {
@@ -442,7 +442,7 @@ void raii_deferred_free(memory_t *scope) {
 }
 
 RAII_INLINE void raii_deferred_clean(void) {
-    raii_deferred_free(raii_local());
+    raii_deferred_free(raii_init());
 }
 
 static size_t raii_deferred_any(memory_t *scope, func_t func, void *data, void *check) {
@@ -470,11 +470,11 @@ RAII_INLINE size_t raii_deferred(memory_t *scope, func_t func, void *data) {
 }
 
 RAII_INLINE size_t raii_defer(func_t func, void *data) {
-    return raii_deferred(raii_local(), func, data);
+    return raii_deferred(raii_init(), func, data);
 }
 
 RAII_INLINE void raii_recover(func_t func, void *data) {
-    raii_recover_by(raii_local(), func, data);
+    raii_recover_by(raii_init(), func, data);
 }
 
 void raii_recover_by(memory_t *scope, func_t func, void *data) {
@@ -525,11 +525,11 @@ RAII_INLINE const char *raii_message_by(memory_t *scope) {
 }
 
 RAII_INLINE void raii_defer_cancel(size_t index) {
-    raii_deferred_cancel(raii_local(), index);
+    raii_deferred_cancel(raii_init(), index);
 }
 
 RAII_INLINE void raii_defer_fire(size_t index) {
-    raii_deferred_fire(raii_local(), index);
+    raii_deferred_fire(raii_init(), index);
 }
 
 void guard_set(ex_context_t *ctx, const char *ex, const char *message) {
-- 
2.43.0


From 04fbc801ff8dd90771fbb8af70298610ef90286f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:17 +0000
Subject: [PATCH 34/47] fix: a worker nobody asked for is joined before its
 scope is released

---
 src/future.c | 50 +++++++++++++++++++++++++-------------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/future.c b/src/future.c
index 66b55f7..67e39a3 100644
--- a/src/future.c
+++ b/src/future.c
@@ -65,19 +65,27 @@ static void promise_close(promise *p) {
     }
 }
 
-static future future_create(thrd_func_t start_routine) {
-    future f = try_malloc(sizeof(struct _future));
-    f->func = (thrd_func_t)start_routine;
-    f->type = RAII_FUTURE;
-
-    return f;
+static void future_close(future f) {
+    if (is_type(f, RAII_FUTURE) && thrd_join(f->thread, NULL) == thrd_success)
+        f->type = -1;
 }
 
-static void future_close(future f) {
-    if (is_type(f, RAII_FUTURE) && thrd_join(f->thread, NULL) == thrd_success) {
-        memset(f, 0, sizeof(f));
-        RAII_FREE(f);
+/* Its scope ends, a worker nobody asked for must not outlive what it uses. */
+static void future_release(future f) {
+    if (is_type(f, RAII_FUTURE)) {
+        promise_get(f->value);
+        future_close(f);
     }
+
+    RAII_FREE(f);
+}
+
+/* A `RAII_FUTURE` once the thread has started. */
+static future future_create(memory_t *scope, thrd_func_t start_routine) {
+    future f = calloc_full(scope, 1, sizeof(struct _future), (func_t)future_release);
+    f->func = (thrd_func_t)start_routine;
+
+    return f;
 }
 
 static int thrd_raii_wrapper(void_t arg) {
@@ -106,7 +114,6 @@ static int thrd_raii_wrapper(void_t arg) {
 static void thrd_start(future f, promise *value, void_t arg) {
     future_arg *f_arg = RAII_CALLOC(1, sizeof(future_arg));
     if (UNLIKELY(is_empty(f_arg))) {
-        RAII_FREE(f);
         errno = ENOMEM;
         raii_panic("Calloc failed!");
     }
@@ -117,14 +124,16 @@ static void thrd_start(future f, promise *value, void_t arg) {
     f_arg->type = RAII_FUTURE_ARG;
     if (thrd_create(&f->thread, thrd_raii_wrapper, f_arg) != thrd_success) {
         RAII_FREE(f_arg);
-        RAII_FREE(f);
         throw(future_error);
     }
+
+    f->type = RAII_FUTURE;
 }
 
 future thrd_async(thrd_func_t fn, void_t args) {
-    promise *p = promise_create(raii_init());
-    future f = future_create(fn);
+    memory_t *scope = raii_init();
+    promise *p = promise_create(scope);
+    future f = future_create(scope, fn);
     f->value = p;
     thrd_start(f, p, args);
     return f;
@@ -211,7 +220,7 @@ future_t thrd_pool(size_t count, size_t queue_count) {
     pool->thread_count = count;
     pool->cpu_present = thrd_cpu_count();
     for (i = 0; i < count; i++) {
-        future f = future_create(nullptr);
+        future f = future_create(scope, nullptr);
         future_arg *f_arg = try_calloc(1, sizeof(future_arg));
         f_arg->queue = pool->queue;
         f_arg->type = RAII_FUTURE_ARG;
@@ -258,7 +267,7 @@ result_t thrd_spawn(thrd_func_t fn, void_t args) {
 
     promise *p = promise_create(pool->scope);
     pool->results[pool->thread_count] = (result_t)calloc_full(pool->scope, 1, sizeof(struct result_data), RAII_FREE);
-    future f = future_create(fn);
+    future f = future_create(pool->scope, fn);
     f->value = p;
     thrd_start(f, p, args);
 
@@ -335,16 +344,7 @@ void thrd_then(result_func_t callback, future_t iter, void_t result) {
 
 void thrd_destroy(future_t f) {
     if (is_type(f, RAII_SPAWN)) {
-        int i;
         memory_t *scope = f->scope;
-        for (i = 0; i < f->thread_count; i++) {
-            /* Never synchronised, the worker still uses what is released here. */
-            if (!is_empty(f->futures[i])) {
-                promise_get(f->futures[i]->value);
-                future_close(f->futures[i]);
-            }
-        }
-
         if (!is_raii_empty() && raii_local()->arena == (void *)f)
             raii_local()->arena = NULL;
 
-- 
2.43.0


From 41a63e61fdeb2ca4269e1b84daca2b84d67efcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:10 +0000
Subject: [PATCH 35/47] fix: packing arguments leaves nothing behind when
 memory runs out

---
 src/raii.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/raii.c b/src/raii.c
index 4fced13..bab285f 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -609,7 +609,13 @@ args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
     size_t i, count = simd_strlen(desc);
     args_t params = try_calloc(1, sizeof(struct args_s));
     params->args_size = sizeof(raii_values_t);
-    params->args = try_calloc(count, params->args_size);
+    params->args = RAII_CALLOC(count, params->args_size);
+    if (UNLIKELY(is_empty(params->args))) {
+        RAII_FREE(params);
+        errno = ENOMEM;
+        raii_panic("Calloc failed!");
+    }
+
     params->args_size = params->args_size * count;
 
     for (i = 0; i < count; i++) {
-- 
2.43.0


From 69be7ff6719223c316cc212541d3dac368d8073a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 36/47] fix: atomic addition to a float adds the values, not
 their bit patterns

---
 include/catomic.h | 48 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/include/catomic.h b/include/catomic.h
index 5f12f11..f4b004a 100644
--- a/include/catomic.h
+++ b/include/catomic.h
@@ -2400,18 +2400,34 @@ static C89ATOMIC_INLINE c89atomic_bool c89atomic_compare_exchange_weak_explicit_
 static C89ATOMIC_INLINE float c89atomic_fetch_add_explicit_f32(volatile float* dst, float src, c89atomic_memory_order order)
 {
     c89atomic_if32 r;
+    c89atomic_if32 e;
     c89atomic_if32 x;
-    x.f = src;
-    r.i = c89atomic_fetch_add_explicit_32((volatile c89atomic_uint32*)dst, x.i, order);
+
+    (void)order;    /* Always using the strongest memory order. */
+    r.i = c89atomic_load_explicit_32((volatile c89atomic_uint32*)dst, c89atomic_memory_order_relaxed);
+    do {
+        e.i = r.i;
+        x.f = e.f + src;
+        r.i = c89atomic_compare_and_swap_32((volatile c89atomic_uint32*)dst, e.i, x.i);
+    } while (r.i != e.i);
+
     return r.f;
 }
 
 static C89ATOMIC_INLINE double c89atomic_fetch_add_explicit_f64(volatile double* dst, double src, c89atomic_memory_order order)
 {
     c89atomic_if64 r;
+    c89atomic_if64 e;
     c89atomic_if64 x;
-    x.f = src;
-    r.i = c89atomic_fetch_add_explicit_64((volatile c89atomic_uint64*)dst, x.i, order);
+
+    (void)order;    /* Always using the strongest memory order. */
+    r.i = c89atomic_load_explicit_64((volatile c89atomic_uint64*)dst, c89atomic_memory_order_relaxed);
+    do {
+        e.i = r.i;
+        x.f = e.f + src;
+        r.i = c89atomic_compare_and_swap_64((volatile c89atomic_uint64*)dst, e.i, x.i);
+    } while (r.i != e.i);
+
     return r.f;
 }
 
@@ -2419,18 +2435,34 @@ static C89ATOMIC_INLINE double c89atomic_fetch_add_explicit_f64(volatile double*
 static C89ATOMIC_INLINE float c89atomic_fetch_sub_explicit_f32(volatile float* dst, float src, c89atomic_memory_order order)
 {
     c89atomic_if32 r;
+    c89atomic_if32 e;
     c89atomic_if32 x;
-    x.f = src;
-    r.i = c89atomic_fetch_sub_explicit_32((volatile c89atomic_uint32*)dst, x.i, order);
+
+    (void)order;    /* Always using the strongest memory order. */
+    r.i = c89atomic_load_explicit_32((volatile c89atomic_uint32*)dst, c89atomic_memory_order_relaxed);
+    do {
+        e.i = r.i;
+        x.f = e.f - src;
+        r.i = c89atomic_compare_and_swap_32((volatile c89atomic_uint32*)dst, e.i, x.i);
+    } while (r.i != e.i);
+
     return r.f;
 }
 
 static C89ATOMIC_INLINE double c89atomic_fetch_sub_explicit_f64(volatile double* dst, double src, c89atomic_memory_order order)
 {
     c89atomic_if64 r;
+    c89atomic_if64 e;
     c89atomic_if64 x;
-    x.f = src;
-    r.i = c89atomic_fetch_sub_explicit_64((volatile c89atomic_uint64*)dst, x.i, order);
+
+    (void)order;    /* Always using the strongest memory order. */
+    r.i = c89atomic_load_explicit_64((volatile c89atomic_uint64*)dst, c89atomic_memory_order_relaxed);
+    do {
+        e.i = r.i;
+        x.f = e.f - src;
+        r.i = c89atomic_compare_and_swap_64((volatile c89atomic_uint64*)dst, e.i, x.i);
+    } while (r.i != e.i);
+
     return r.f;
 }
 
-- 
2.43.0


From 56eee3ea19b0be96219c12c82123c38eb07e16bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 37/47] fix: generic atomic operations act on the width of
 their object

---
 include/catomic.h | 68 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 66 insertions(+), 2 deletions(-)

diff --git a/include/catomic.h b/include/catomic.h
index f4b004a..2676673 100644
--- a/include/catomic.h
+++ b/include/catomic.h
@@ -2667,7 +2667,10 @@ static C89ATOMIC_INLINE void c89atomic_spinlock_unlock(atomic_spinlock *pSpinloc
 #endif
 #endif
 
-#if defined(__i386__) || defined(__ppc__) || defined(__arm__) || defined(_M_ARM) || defined(__i386) || defined(_M_IX86)
+#if defined(__GNUC__) && !defined(__TINYC__) && !defined(_WIN32)
+/* reads a value from an atomic object then cast to type */
+#   define atomic_get(type, obj)  (type)__atomic_load_n((obj), __ATOMIC_SEQ_CST)
+#elif defined(__i386__) || defined(__ppc__) || defined(__arm__) || defined(_M_ARM) || defined(__i386) || defined(_M_IX86)
 /* reads a value from an atomic object then cast to type */
 #   define atomic_get(type, obj)  (type)c89atomic_load_32((atomic_uint *)obj)
 #else
@@ -2700,7 +2703,68 @@ static C89ATOMIC_INLINE void c89atomic_spinlock_unlock(atomic_spinlock *pSpinloc
 /* sets an atomic_flag to true and returns the old value */
 #define atomic_flag_test_and_set_explicit(obj, order)	c89atomic_flag_test_and_set_explicit((atomic_flag *)obj, order)
 
-#if defined(__i386__) || defined(__ppc__) || defined(__arm__) || defined(_M_ARM) || defined(__i386) || defined(_M_IX86)
+#if defined(__GNUC__) && !defined(__TINYC__) && !defined(_WIN32)
+/* The built-ins act on the width of the object they are given. */
+/* indicates whether the atomic object is lock-free */
+#define atomic_is_lock_free(obj)	__atomic_is_lock_free(sizeof(*(obj)), (obj))
+
+/* stores a value in an atomic object */
+#define atomic_store(obj, desired)	__atomic_store_n((obj), (desired), __ATOMIC_SEQ_CST)
+/* stores a value in an atomic object */
+#define atomic_store_explicit(obj, desired, order)	__atomic_store_n((obj), (desired), order)
+
+/* reads a value from an atomic object */
+#define atomic_load(obj)	__atomic_load_n((obj), __ATOMIC_SEQ_CST)
+/* reads a value from an atomic object */
+#define atomic_load_explicit(obj, order)	__atomic_load_n((obj), order)
+
+/* initializes an existing atomic object */
+#define atomic_init(obj, desired)	__atomic_store_n((obj), (desired), __ATOMIC_SEQ_CST)
+
+/* atomic addition */
+#define atomic_fetch_add(obj, arg)	__atomic_fetch_add((obj), (arg), __ATOMIC_SEQ_CST)
+/* atomic addition */
+#define atomic_fetch_add_explicit(obj, arg, order)	__atomic_fetch_add((obj), (arg), order)
+
+/* atomic subtraction */
+#define atomic_fetch_sub(obj, arg)	__atomic_fetch_sub((obj), (arg), __ATOMIC_SEQ_CST)
+/* atomic subtraction */
+#define atomic_fetch_sub_explicit(obj, arg, order)	__atomic_fetch_sub((obj), (arg), order)
+
+/* atomic bitwise OR */
+#define atomic_fetch_or(obj, arg)	__atomic_fetch_or((obj), (arg), __ATOMIC_SEQ_CST)
+/* atomic bitwise OR */
+#define atomic_fetch_or_explicit(obj, arg, order)	__atomic_fetch_or((obj), (arg), order)
+
+/* atomic bitwise exclusive OR */
+#define atomic_fetch_xor(obj, arg)	__atomic_fetch_xor((obj), (arg), __ATOMIC_SEQ_CST)
+/* atomic bitwise exclusive OR */
+#define atomic_fetch_xor_explicit(obj, arg, order)	__atomic_fetch_xor((obj), (arg), order)
+
+/* atomic bitwise AND */
+#define atomic_fetch_and(obj, arg)	__atomic_fetch_and((obj), (arg), __ATOMIC_SEQ_CST)
+/* atomic bitwise AND */
+#define atomic_fetch_and_explicit(obj, arg, order)	__atomic_fetch_and((obj), (arg), order)
+
+/* swaps a value with the value of an atomic object */
+#define atomic_exchange(obj, desired)	__atomic_exchange_n((obj), (desired), __ATOMIC_SEQ_CST)
+/* swaps a value with the value of an atomic object */
+#define atomic_exchange_explicit(obj, desired, order)	__atomic_exchange_n((obj), (desired), order)
+
+/* swaps a value with an atomic object if the old value is what is expected, otherwise reads the old value */
+#define atomic_compare_exchange_weak(obj, expected, desired)	\
+    __atomic_compare_exchange_n((obj), (expected), (desired), 1, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)
+/* swaps a value with an atomic object if the old value is what is expected, otherwise reads the old value */
+#define atomic_compare_exchange_weak_explicit(obj, expected, desired, succ, fail)	\
+    __atomic_compare_exchange_n((obj), (expected), (desired), 1, succ, fail)
+
+/* swaps a value with an atomic object if the old value is what is expected, otherwise reads the old value */
+#define atomic_compare_exchange_strong(obj, expected, desired)	\
+    __atomic_compare_exchange_n((obj), (expected), (desired), 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)
+/* swaps a value with an atomic object if the old value is what is expected, otherwise reads the old value */
+#define atomic_compare_exchange_strong_explicit(obj, expected, desired, succ, fail)	\
+    __atomic_compare_exchange_n((obj), (expected), (desired), 0, succ, fail)
+#elif defined(__i386__) || defined(__ppc__) || defined(__arm__) || defined(_M_ARM) || defined(__i386) || defined(_M_IX86)
 /* sets an atomic_flag to true and returns the old value */
 #define atomic_is_lock_free(obj)  c89atomic_is_lock_free_32((atomic_uint *)obj)
 
-- 
2.43.0


From c7c0ca577bf597cd9f72b6613cbfe83b61ec358e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 38/47] fix: arenas of different threads share their free list
 under a lock

---
 src/arena.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/arena.c b/src/arena.c
index fbf0cb9..361095b 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -5,8 +5,10 @@ union header {
     values_type slot;
 };
 
+/* Blocks for any arena to use again, shared by all threads. */
 static arena_t free_list = NULL;
 static int num_free = 0;
+static atomic_spinlock free_lock;
 
 /**
  * Will allow to translate back and forth between the pointer
@@ -33,11 +35,17 @@ static void arena_release(arena_t arena, bool reusable) {
     struct arena_s saved = *block;
 
     if (reusable) {
-        block->next = free_list;
-        block->limit = arena->limit;
-        free_list = block;
-        num_free++;
-    } else {
+        atomic_lock(&free_lock);
+        if ((reusable = num_free < (int)arena->threshold)) {
+            block->next = free_list;
+            block->limit = arena->limit;
+            free_list = block;
+            num_free++;
+        }
+        atomic_unlock(&free_lock);
+    }
+
+    if (!reusable) {
         block->type = -1;
         RAII_FREE(block);
     }
@@ -74,9 +82,14 @@ void *arena_alloc(arena_t arena, long nbytes) {
     while (nbytes > arena->limit - arena->avail) {
         arena_t ptr;
         char *limit;
+        atomic_lock(&free_lock);
         if ((ptr = free_list) != NULL) {
             free_list = free_list->next;
             num_free--;
+        }
+        atomic_unlock(&free_lock);
+
+        if (ptr != NULL) {
             limit = ptr->limit;
         } else {
             long m = align_up(sizeof(union header) + nbytes + arena->threshold * 1024, sizeof(u16));
@@ -136,7 +149,7 @@ void arena_clear(arena_t arena) {
         return;
 
     while (arena->next && is_type(arena->next, RAII_ARENA))
-        arena_release(arena, num_free < (int)arena->threshold);
+        arena_release(arena, true);
 
     arena->base = NULL;
 }
-- 
2.43.0


From d5119ed0bda26dd08a178af6d9c2c983a72a3d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 39/47] fix: an arena refuses requests whose rounding would
 overflow

---
 src/arena.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/arena.c b/src/arena.c
index 361095b..ed032ce 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -78,6 +78,12 @@ void *arena_alloc(arena_t arena, long nbytes) {
         raii_panic("Bad block, `NULL` detected!");
 
     RAII_ASSERT(nbytes > 0);
+    /* Neither the request nor what is added to it may overflow. */
+    if (UNLIKELY(nbytes > LONG_MAX / 4 || arena->threshold > LONG_MAX / 4 / 1024)) {
+        errno = ENOMEM;
+        raii_panic("Arena allocation failed!");
+    }
+
     nbytes = align_up(nbytes, sizeof(u16));
     while (nbytes > arena->limit - arena->avail) {
         arena_t ptr;
-- 
2.43.0


From 2bd5e9c333526a57a82b39aee16fb902de186ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:41 +0000
Subject: [PATCH 40/47] fix: strings are equal only if both end at the same
 place

simd_strcmp compared the characters of the first string only, so that a
string was equal to every longer one that starts with it: a deferred
function naming the error "range" ended a "range_error".
---
 src/swar.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/swar.c b/src/swar.c
index 3cd9a13..04fa019 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -419,7 +419,8 @@ RAII_INLINE int simd_strcmp(const char *str0, const char *str1) {
         ++offset;
     }
 
-    return 0;
+    /* Equal only if the second ends here too. */
+    return (int)((unsigned char)str0[len] - (unsigned char)str1[len]);
 }
 
 RAII_INLINE size_t simd_strlen(const char *str) {
-- 
2.43.0


From ae2a38ddbd3d742f9eda225316bb060d2b2af5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:46 +0000
Subject: [PATCH 41/47] fix: numbers of more than 31 bits are converted to text
 whole

---
 src/swar.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 04fa019..652bcce 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -267,21 +267,21 @@ RAII_INLINE uint32_t simd_itoa(int64_t x, char *buf) {
     bool neg = x < 0;
     *buf = '-'; // Always write
     buf += neg; // But advance only if negative
-    x = abs(x);
+    uint64_t u = neg ? 0 - (uint64_t)x : (uint64_t)x;
 
     char tmp[20];
     char *p = tmp + 20;
 
-    while (x >= 100) {
+    while (u >= 100) {
         p -= 2;
-        utoa2p_ex(x % 100, p);
-        x /= 100;
+        utoa2p_ex(u % 100, p);
+        u /= 100;
     }
 
     p -= 2;
-    utoa2p_ex(x, p);
+    utoa2p_ex(u, p);
 
-    p += x < 10;
+    p += u < 10;
 
     uint32_t len = tmp + 20 - p;
 
-- 
2.43.0


From a1060d932c10e4d52deff665120b1c8de2fb003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:46 +0000
Subject: [PATCH 42/47] fix: converting a number to text reads only the digits
 it made

---
 src/swar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/swar.c b/src/swar.c
index 652bcce..ee8640c 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -285,7 +285,7 @@ RAII_INLINE uint32_t simd_itoa(int64_t x, char *buf) {
 
     uint32_t len = tmp + 20 - p;
 
-    memcpy(buf, p, 20);
+    memcpy(buf, p, len);
     buf[len] = '\0';
 
     return len + neg;
-- 
2.43.0


From ad94d84e02289c6f0b7dfb992e24163b33c6b48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:40 +0000
Subject: [PATCH 43/47] fix: a character is found inside the given length, and
 only there

---
 src/swar.c | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index ee8640c..46038d8 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -175,29 +175,21 @@ static RAII_INLINE uint32_t _memchr(bool Printable, bool Known, const char *s, u
     const char *p = s;
     const char *end = s + len;
 
-    // If shorter than 8 bytes, we have to mask away c bytes past len
-    uint32_t partLen = (len & 7) ? (len & 7) : 8;
-    uint64_t partMask = len < 8 ? ~0ull >> (64 - partLen * 8) : 0ull;
-    uint64_t first = cast(p) & ~(partMask & extend(c));
-
-    // Check first 8 bytes
-    if (hasbyte(first, c))
-        return _memchr8(Printable, true, false, (char *)&first, c);
-
-    // Advance to leave multiple of 8 bytes
-    p += partLen;
-
     // Check words for that byte
-    for (;;) {
-        if (hasbyte(cast(p), c)) {
+    for (; Known || end - p >= 8; p += 8) {
+        if (hasbyte(cast(p), c))
             return (p - s) + _memchr8(Printable, true, false, p, c);
-        }
-        p += 8;
-        if (!Known) {
-            if (p == end)
-                return -1;
-        }
     }
+
+    // Check the bytes left, the rest of the word is anything but c
+    if (p < end) {
+        uint64_t last = extend(c ^ 1);
+        memcpy(&last, p, end - p);
+        if (hasbyte(last, c))
+            return (p - s) + _memchr8(Printable, true, false, (char *)&last, c);
+    }
+
+    return -1;
 }
 
 // Convert uint, of less than 100, to %02u, as int 16
@@ -494,7 +486,8 @@ RAII_INLINE size_t simd_strlen(const char *str) {
 }
 
 RAII_INLINE string simd_memchr(const char *s, uint8_t c, uint32_t len) {
-    return (char *)s + _memchr(false, false, s, len, c);
+    uint32_t pos = _memchr(false, false, s, len, c);
+    return pos == (uint32_t)-1 ? NULL : (char *)s + pos;
 }
 
 RAII_INLINE string simd_memrchr(const char *s, uint8_t c, uint32_t len) {
-- 
2.43.0


From 814e764ed062265a498231766cc2aaa29feefa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:40 +0000
Subject: [PATCH 44/47] fix: the last of a character is found where it is

---
 src/swar.c | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 46038d8..5fb5db3 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -144,30 +144,22 @@ RAII_INLINE uint32_t memchr8k(const char *s, uint8_t c) {
 static RAII_INLINE uint32_t _memrchr(bool Printable, bool Known, const char *s, uint32_t len, uint8_t c) {
     const char *p = s + len;
 
-    // If shorter than 8 bytes, we have to mask away c bytes past len
-    uint32_t partLen = (len & 7) ? (len & 7) : 8;
-    uint64_t partMask = len < 8 ? ~0ull >> (64 - partLen * 8) : 0ull;
-    uint64_t first = cast(p) & ~(partMask & extend(c));
-
-    // Advance to leave multiple of 8 bytes
-    p -= partLen;
-
-    // Check first 8 bytes
-    if (hasbyte(first, c)) {
-        return (p - s) + _memchr8(Printable, true, true, (char *)&first, c);
-    }
-
     // Check words for that byte
-    for (;;) {
-        if (hasbyte(cast(p), c)) {
-            return (p - s) + _memchr8(Printable, true, true, p, c);
-        }
+    while (p - s >= 8) {
         p -= 8;
-        if (!Known) {
-            if (p == s)
-                return -1;
-        }
+        if (hasbyte(cast(p), c))
+            return (p - s) + _memchr8(Printable, true, true, p, c);
+    }
+
+    // Check the bytes left, the rest of the word is anything but c
+    if (p > s) {
+        uint64_t first = extend(c ^ 1);
+        memcpy(&first, s, p - s);
+        if (hasbyte(first, c))
+            return _memchr8(Printable, true, true, (char *)&first, c);
     }
+
+    return -1;
 }
 
 // Find char in const binary string
@@ -491,7 +483,8 @@ RAII_INLINE string simd_memchr(const char *s, uint8_t c, uint32_t len) {
 }
 
 RAII_INLINE string simd_memrchr(const char *s, uint8_t c, uint32_t len) {
-    return (char *)s + _memrchr(false, false, s, len, c) - 3;
+    uint32_t pos = _memrchr(false, false, s, len, c);
+    return pos == (uint32_t)-1 ? NULL : (char *)s + pos;
 }
 
 // Find char in binary string. Char c is known to be in s + len
-- 
2.43.0


From 13df6fb5a46e1c0d3aaa2c0ecc9f6f1fae82a4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:58 +0000
Subject: [PATCH 45/47] fix: text with a decimal point is converted to the
 number it spells

---
 src/swar.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 5fb5db3..19d9bab 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -10,7 +10,7 @@
 // *** dst is up to 63 bit
 static RAII_INLINE int64_t _copySign(int64_t src, uint64_t dst) {
     // This is better than `src > 0 ? dst : -dst` that is using cmov
-    uint64_t m = ~(src >> 63); // all 1s if >= 0 (opposite of abs)
+    uint64_t m = src >> 63; // all 1s if < 0
     return (dst + m) ^ m; // flip if src negative
 }
 
@@ -532,6 +532,7 @@ RAII_INLINE double simd_atod(const char *s, uint32_t len) {
 
     // Do the int part
     int64_t ipart = simd_atoi(s, ilen);
+    int64_t sign = *s == '-' ? -1 : 0;
     s += ilen + 1;
     len -= ilen + 1;
 
@@ -539,14 +540,14 @@ RAII_INLINE double simd_atod(const char *s, uint32_t len) {
     int64_t dpart = simd_atou(s, len);
 
     // To add the two parts we need matching signs
-    dpart = _copySign(ipart, dpart);
+    dpart = _copySign(sign, dpart);
 
     // Array of 20 * 8 = 160 bytes
     static const CODE_SECTION double scales[20] = {
         1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10,
         1e-11, 1e-12, 1e-13, 1e-14, 1e-15, 1e-16, 1e-17, 1e-18, 1e-19, 1e-20};
 
-    return ipart + dpart * scales[len];
+    return len ? ipart + dpart * scales[len - 1] : ipart;
 }
 
 // Convert uint to %0<N>u, N <= 8
-- 
2.43.0


From 426333015bdd151269d13fddb3efd67bb311c1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:22 +0000
Subject: [PATCH 46/47] fix: strings of eight characters are compared

---
 src/swar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/swar.c b/src/swar.c
index 19d9bab..d63837c 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -378,7 +378,7 @@ RAII_INLINE int simd_strcmp(const char *str0, const char *str1) {
     int offset = (fast - 1) * sizeof(size_t);
     int current_block = 0;
 
-    if (len <= sizeof(size_t)) { fast = 0; }
+    if (len < sizeof(size_t)) { fast = 0; }
 
     size_t *lstr0 = (size_t *)str0;
     size_t *lstr1 = (size_t *)str1;
-- 
2.43.0


From 60851b02814e0180171591fe47c72ff7b9d2ece6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:12 +0000
Subject: [PATCH 47/47] fix: a search for a character known to be there reads
 no further than the text

---
 src/swar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/swar.c b/src/swar.c
index d63837c..33d07c7 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -168,7 +168,7 @@ static RAII_INLINE uint32_t _memchr(bool Printable, bool Known, const char *s, u
     const char *end = s + len;
 
     // Check words for that byte
-    for (; Known || end - p >= 8; p += 8) {
+    for (; end - p >= 8; p += 8) {
         if (hasbyte(cast(p), c))
             return (p - s) + _memchr8(Printable, true, false, p, c);
     }
-- 
2.43.0

