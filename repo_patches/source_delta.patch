From d2730accfe75954b0846757fec0b4a3009ed6d46 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 001/128] fix: odd? of negative numbers

(remainder -3 2) is -1, so (odd? -3) returned #f.
---
 mes/module/mes/scm.mes | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mes/module/mes/scm.mes b/mes/module/mes/scm.mes
index dadd358..6aebd40 100644
--- a/mes/module/mes/scm.mes
+++ b/mes/module/mes/scm.mes
@@ -330,7 +330,7 @@
   (= 0 (remainder x 2)))
 
 (define (odd? x)
-  (= 1 (remainder x 2)))
+  (not (even? x)))
 
 (define (negative? x)
   (< x 0))
-- 
2.43.0


From ba49d77b15b7dcd99c808f4cbf655ad0c09bc169 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 002/128] fix: <= and >= with three or more operands

(<= 1 1 2) is neither (< 1 1 2) nor (= 1 1 2), and returned #f.
---
 mes/module/mes/scm.mes | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mes/module/mes/scm.mes b/mes/module/mes/scm.mes
index 6aebd40..63b1afe 100644
--- a/mes/module/mes/scm.mes
+++ b/mes/module/mes/scm.mes
@@ -316,12 +316,16 @@
 (define quotient /)
 
 (define (<= . rest)
-  (or (apply < rest)
-      (apply = rest)))
+  (or (null? rest)
+      (null? (cdr rest))
+      (and (not (> (car rest) (cadr rest)))
+           (apply <= (cdr rest)))))
 
 (define (>= . rest)
-  (or (apply > rest)
-      (apply = rest)))
+  (or (null? rest)
+      (null? (cdr rest))
+      (and (not (< (car rest) (cadr rest)))
+           (apply >= (cdr rest)))))
 
 (define (remainder x y)
   (- x (* (quotient x y) y)))
-- 
2.43.0


From 5a897a3da9dee5d5705eac15f0a3338bed2316d7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:56:17 +0000
Subject: [PATCH 003/128] fix: division by a negative number

The divisor was converted to unsigned as is: (/ 6 -2) was 0.
---
 src/math.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/math.c b/src/math.c
index 2d0a502..880a197 100644
--- a/src/math.c
+++ b/src/math.c
@@ -171,6 +171,8 @@ divide (struct scm *x)                  /*:((name . "/") (arity . n)) */
       v = i->value;
       sign_p = sign_p && v > 0 || !sign_p && v < 0;
       w = v;
+      if (v < 0)
+        w = -v;
       if (v == 0)
         error (cstring_to_symbol ("divide-by-zero"), x);
       if (u == 0)
-- 
2.43.0


From 617aa2ef6b4e71034af5624382dc179f24299e41 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:56:17 +0000
Subject: [PATCH 004/128] fix: modulo with a negative modulus

(modulo 7 -2) was -1 by luck, (modulo 7 -4) was -3 instead of -1; and a large
negative dividend looped once per multiple of the modulus.
---
 src/math.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/math.c b/src/math.c
index 880a197..421e5dc 100644
--- a/src/math.c
+++ b/src/math.c
@@ -203,11 +203,17 @@ modulo (struct scm *a, struct scm *b)
       sign_p = 1;
       w = -v;
     }
-  while (n < 0)
-    n = n + w;
+  int negative_p = 0;
   size_t u = n;
+  if (n < 0)
+    {
+      negative_p = 1;
+      u = -n;
+    }
   if (u != 0)
     u = u % w;
+  if (u != 0 && negative_p != sign_p)
+    u = w - u;
   n = u;
   if (sign_p)
     n = -n;
-- 
2.43.0


From cece4f37cf1bdb20539ad858424a0e7b0071892c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:56:35 +0000
Subject: [PATCH 005/128] fix: ntoab: room for a full-width number in any base

The 20-byte buffer was filled backward from offset 11: a number of more than
11 characters (64-bit decimal, 32-bit octal or binary) was written before it.
---
 lib/mes/ntoab.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/mes/ntoab.c b/lib/mes/ntoab.c
index e75108b..7c5a842 100644
--- a/lib/mes/ntoab.c
+++ b/lib/mes/ntoab.c
@@ -38,8 +38,9 @@ char *
 ntoab (long x, unsigned base, int signed_p)
 {
   if (__itoa_buf == 0)
-    __itoa_buf = malloc (20);
-  char *p = __itoa_buf + 11;
+    /* 64 binary digits, a sign and the terminator. */
+    __itoa_buf = malloc (66);
+  char *p = __itoa_buf + 65;
 
   p[0] = 0;
   p = p - 1;
-- 
2.43.0


From 4216b89c53a3888a127d2b1db798d6c71c1aa89f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:56:35 +0000
Subject: [PATCH 006/128] fix: display and write of numbers wider than an int

---
 src/display.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/display.c b/src/display.c
index 0d6db3a..a40b96e 100644
--- a/src/display.c
+++ b/src/display.c
@@ -144,7 +144,7 @@ display_helper (struct scm *x, int cont, char *sep, int fd, int write_p)
     }
   else if (t == TNUMBER)
     {
-      fdputs (itoa (x->value), fd);
+      fdputs (ltoa (x->value), fd);
     }
   else if (t == TPAIR)
     {
-- 
2.43.0


From 09718cc510aac6f2b721b692636a74f175ea549c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:59:07 +0000
Subject: [PATCH 007/128] fix: filter-map stops at the end of the shorter list

---
 mes/module/srfi/srfi-1.mes | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mes/module/srfi/srfi-1.mes b/mes/module/srfi/srfi-1.mes
index 8a69b7b..baf4a61 100644
--- a/mes/module/srfi/srfi-1.mes
+++ b/mes/module/srfi/srfi-1.mes
@@ -47,9 +47,10 @@
             (if r (cons r (filter-map f (cdr h)))
                 (filter-map f (cdr h))))
           (if (null? (cdr t))
-              (let ((r (f (car h) (caar t))))
-                (if r (cons r (filter-map f (cdr h) (cdar t)))
-                    (filter-map f (cdr h) (cdar t))))
+              (if (null? (car t)) '()
+                  (let ((r (f (car h) (caar t))))
+                    (if r (cons r (filter-map f (cdr h) (cdar t)))
+                        (filter-map f (cdr h) (cdar t)))))
               (error 'unsupported (cons* "filter-map 3:" f h t))))))
 
 (define (fold proc init lst1 . rest)
-- 
2.43.0


From 1d4715502ae56786119bfc242b37e09914188654 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:59:23 +0000
Subject: [PATCH 008/128] fix: delete-duplicates keeps the first of equal
 elements

As SRFI-1 has it, and as MesCC gets when run on Guile.
---
 mes/module/srfi/srfi-1.mes | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mes/module/srfi/srfi-1.mes b/mes/module/srfi/srfi-1.mes
index baf4a61..8d1ffc9 100644
--- a/mes/module/srfi/srfi-1.mes
+++ b/mes/module/srfi/srfi-1.mes
@@ -134,13 +134,12 @@
 (define last (compose car last-pair))
 
 (define (delete-duplicates lst . equal)
-  (let ((equal (and (pair? equal) (car equal))))
+  (let ((equal (if (pair? equal) (car equal) equal?)))
     (let loop ((lst lst))
       (if (null? lst) '()
-          (if (if equal (member (car lst) (cdr lst) equal)
-                  (member (car lst) (cdr lst)))
-              (loop (cdr lst))
-                (cons (car lst) (loop (cdr lst))))))))
+          (let ((x (car lst)))
+            (cons x
+                  (loop (filter (lambda (y) (not (equal x y))) (cdr lst)))))))))
 
 (include-from-path "srfi/srfi-1.scm")
 
-- 
2.43.0


From 4bc92a21daba328c2cd645164f9c1f8c12a946ab Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:59:56 +0000
Subject: [PATCH 009/128] fix: memq and assq: a character is not the number
 with its code

---
 src/core.c | 2 +-
 src/lib.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core.c b/src/core.c
index 15585e4..b0e5e3a 100644
--- a/src/core.c
+++ b/src/core.c
@@ -227,7 +227,7 @@ assq (struct scm *x, struct scm *a)
       long v = x->value;
       while (a != cell_nil)
         {
-          if (v == a->car->car->value)
+          if (a->car->car->type == t && v == a->car->car->value)
             return a->car;
           a = a->cdr;
         }
diff --git a/src/lib.c b/src/lib.c
index f892553..facb948 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -74,7 +74,7 @@ memq (struct scm *x, struct scm *a)
       long v = x->value;
       while (a != cell_nil)
         {
-          if (v == a->car->value)
+          if (a->car->type == t && v == a->car->value)
             return a;
           a = a->cdr;
         }
-- 
2.43.0


From 57a94097b23d0ebe76e25508666c7336715a4353 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 010/128] fix: string-delete with a predicate kept what it
 should delete

---
 mes/module/srfi/srfi-13.mes | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mes/module/srfi/srfi-13.mes b/mes/module/srfi/srfi-13.mes
index dfd1c54..1640b75 100644
--- a/mes/module/srfi/srfi-13.mes
+++ b/mes/module/srfi/srfi-13.mes
@@ -80,7 +80,7 @@
         (else (error "string-drop-right: not supported: n=" n))))
 
 (define (string-delete pred s)
-  (let ((p (if (procedure? pred) pred
+  (let ((p (if (procedure? pred) (negate pred)
                (lambda (c) (not (eq? pred c))))))
     (list->string (filter p (string->list s)))))
 
-- 
2.43.0


From 07b44e167265138dca3225f82ed7e06ce0993b9e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:01:46 +0000
Subject: [PATCH 011/128] fix: string-take of zero characters

It returned the whole string.
---
 mes/module/srfi/srfi-13.mes | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mes/module/srfi/srfi-13.mes b/mes/module/srfi/srfi-13.mes
index 1640b75..0d6fb4a 100644
--- a/mes/module/srfi/srfi-13.mes
+++ b/mes/module/srfi/srfi-13.mes
@@ -62,8 +62,7 @@
                         (list (list->string (list-head lst (- (length lst) (length rest)))))))))))
 
 (define (string-take s n)
-  (cond ((zero? n) s)
-        ((> n 0) (list->string (list-head (string->list s) n)))
+  (cond ((>= n 0) (list->string (list-head (string->list s) n)))
         (else (error "string-take: not supported: n=" n))))
 
 (define (string-drop s n)
-- 
2.43.0


From 7c539531c68303de08786349464d005caf845577 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:17:29 +0000
Subject: [PATCH 012/128] fix: string-contains takes exponential time on
 repetitive strings

Every partial match restarted the search from inside the match as well.
---
 mes/module/srfi/srfi-13.mes | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mes/module/srfi/srfi-13.mes b/mes/module/srfi/srfi-13.mes
index 0d6fb4a..0161313 100644
--- a/mes/module/srfi/srfi-13.mes
+++ b/mes/module/srfi/srfi-13.mes
@@ -134,13 +134,13 @@
   (let ((needle (string->list needle)))
     (let loop ((string (string->list string)) (i 0))
       (and (pair? string)
-           (let match ((start string) (needle needle) (n i))
-             (if (null? needle) i
-                 (and (pair? start)
-                      (if (eq? (car start) (car needle))
-                          (or (match (cdr start) (cdr needle) (1+ n))
-                              (loop (cdr string) (1+ i)))
-                          (loop (cdr string) (1+ i))))))))))
+           (if (let match ((start string) (needle needle))
+                 (or (null? needle)
+                     (and (pair? start)
+                          (eq? (car start) (car needle))
+                          (match (cdr start) (cdr needle)))))
+               i
+               (loop (cdr string) (1+ i)))))))
 
 (define (string-trim string . pred)
   (list->string
-- 
2.43.0


From 5e2e464c248347a1a0b0e2966007d1bc211c423b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:55:18 +0000
Subject: [PATCH 013/128] fix: hash of strings with bytes above 127 was
 negative

---
 src/hash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hash.c b/src/hash.c
index ed1bb5d..505b7e0 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -26,10 +26,10 @@
 int
 hash_cstring (char const *s, long size)
 {
-  int hash = s[0] * 37;
+  int hash = (s[0] & 0xff) * 37;
   if (s[0] != 0)
     if (s[1] != 0)
-      hash = hash + (s[1] * 43);
+      hash = hash + ((s[1] & 0xff) * 43);
   assert_msg (size != 0, "size");
   hash = hash % size;
   return hash;
-- 
2.43.0


From d6439389c769991d2aff581f839f1ba600d1eeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:55:18 +0000
Subject: [PATCH 014/128] fix: make-hash-table ignored the requested size

---
 src/hash.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/hash.c b/src/hash.c
index 505b7e0..7bcd110 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -208,10 +208,7 @@ struct scm *
 make_hash_table (struct scm *x)
 {
   long size = 0;
-  if (x->type == TPAIR)
-    {
-      assert_msg (x->type == TNUMBER, "x->type == TNUMBER");
-      size = x->value;
-    }
+  if (x->type == TNUMBER)
+    size = x->value;
   return make_hash_table_ (size);
 }
-- 
2.43.0


From 0f54b771274b8e572e0b716af406e65aef4a3b04 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:55:18 +0000
Subject: [PATCH 015/128] fix: hashq-ref and hash-ref return the default they
 are given

---
 src/hash.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/hash.c b/src/hash.c
index 7bcd110..e1e3089 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -88,10 +88,10 @@ hashq_get_handle (struct scm *table, struct scm *key, struct scm *dflt)
 struct scm *
 hashq_ref (struct scm *table, struct scm *key, struct scm *dflt)
 {
-  struct scm *x = hashq_get_handle (table, key, dflt);
-  if (x != cell_f)
-    x = x->cdr;
-  return x;
+  struct scm *x = hashq_get_handle (table, key, cell_f);
+  if (x == cell_f)
+    return dflt;
+  return x->cdr;
 }
 
 struct scm *
@@ -103,15 +103,11 @@ hash_ref (struct scm *table, struct scm *key, struct scm *dflt)
   struct scm *buckets = struct_ref_ (table, 4);
   struct scm *bucket = vector_ref_ (buckets, hash);
   struct scm *x = cell_f;
-  if (dflt->type == TPAIR)
-    x = dflt->car;
   if (bucket->type == TPAIR)
-    {
-      x = assoc (key, bucket);
-      if (x != cell_f)
-        x = x->cdr;
-    }
-  return x;
+    x = assoc (key, bucket);
+  if (x == cell_f)
+    return dflt;
+  return x->cdr;
 }
 
 struct scm *
-- 
2.43.0


From 019c0344e6d0db52f95fbbeb1a712a6334beb4dc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:55:18 +0000
Subject: [PATCH 016/128] fix: vector->list shared number and character cells
 with the vector

---
 src/vector.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index 0fc8404..da9d947 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -130,9 +130,7 @@ vector_to_list (struct scm *v)
   struct scm *e;
   for (i = v->length; i; i = i - 1)
     {
-      e = cell_ref (v->vector, i - 1);
-      if (e->type == TREF)
-        e = e->ref;
+      e = vector_ref_ (v, i - 1);
       x = cons (e, x);
     }
   return x;
-- 
2.43.0


From 96abc81186c2783771b88fd14baa30b2212d5903 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 017/128] fix: a program that caught an error from a primitive
 crashed at its end

---
 src/core.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core.c b/src/core.c
index b0e5e3a..6e3914f 100644
--- a/src/core.c
+++ b/src/core.c
@@ -151,7 +151,13 @@ error (struct scm *key, struct scm *x)
 #if !__MESC_MES__ && !__M2_PLANET__
   struct scm *throw = module_ref (R0, cell_symbol_throw);
   if (throw != cell_undefined)
-    return apply (throw, cons (key, cons (x, cell_nil)), R0);
+    {
+      x = apply (throw, cons (key, cons (x, cell_nil)), R0);
+      /* A handler took over and the program has run to its end. */
+      if (g_stack == STACK_SIZE)
+        exit (0);
+      return x;
+    }
 #endif
   display_error_ (key);
   eputs (": ");
-- 
2.43.0


From 9095866c48a6be344c190077a8c03daa5febdabd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 018/128] fix: the operator of a procedure call was evaluated
 twice

---
 src/eval-apply.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index bd09cb3..cfbb7f6 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -686,10 +686,10 @@ eval:
           gc_check ();
           goto eval;
         eval_check_func:
-          push_cc (R2->cdr, R2, R0, cell_vm_eval2);
+          push_cc (R2->cdr, R1, R0, cell_vm_eval2);
           goto evlis;
         eval2:
-          R1 = cons (R2->car, R1);
+          R1 = cons (R2, R1);
           goto apply;
         }
     }
-- 
2.43.0


From 642bf2f14c3d9bc1a8a3afb745731d7331c8b56e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 019/128] fix: leaving call/cc through its continuation returns
 the value

---
 mes/module/mes/catch.mes | 27 ++++++++++++++-------------
 src/eval-apply.c         |  2 --
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/mes/module/mes/catch.mes b/mes/module/mes/catch.mes
index 45d8235..22fc48b 100644
--- a/mes/module/mes/catch.mes
+++ b/mes/module/mes/catch.mes
@@ -34,19 +34,20 @@
 
 (define (catch key thunk handler)
   (let ((previous-eh (fluid-ref %eh)))
-    (with-fluid*
-        %eh #f
-        (lambda ()
-          (call/cc
-           (lambda (cc)
-             (fluid-set! %eh
-                         (lambda (k . args)
-                           (let ((handler (if (or (eq? key #t) (eq? key k)) handler
-                                              previous-eh)))
-                             (cc
-                              (lambda (x)
-                                (apply handler (cons k args)))))))
-             (thunk)))))))
+    ((with-fluid*
+         %eh #f
+         (lambda ()
+           (call/cc
+            (lambda (cc)
+              (fluid-set! %eh
+                          (lambda (k . args)
+                            (let ((handler (if (or (eq? key #t) (eq? key k)) handler
+                                               previous-eh)))
+                              (cc
+                               (lambda ()
+                                 (apply handler (cons k args)))))))
+              (let ((result (thunk)))
+                (lambda () result)))))))))
 
 (define (throw key . args)
   (let ((handler (fluid-ref %eh)))
diff --git a/src/eval-apply.c b/src/eval-apply.c
index cfbb7f6..58ecb7c 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -944,14 +944,12 @@ if_expr:
   goto vm_return;
 
 call_with_current_continuation:
-  gc_push_frame ();
   x = make_continuation (g_continuations);
   g_continuations = g_continuations + 1;
   v = make_vector_ (STACK_SIZE - g_stack, cell_unspecified);
   for (i = g_stack; i < STACK_SIZE; i = i + 1)
     vector_set_x_ (v, i - g_stack, g_stack_array[i]);
   x->continuation = v;
-  gc_pop_frame ();
   push_cc (cons (R1->car, cons (x, cell_nil)), x, R0, cell_vm_call_with_current_continuation2);
   goto apply;
 call_with_current_continuation2:
-- 
2.43.0


From 3408e2bf7dba90bd8770328909667662911b3809 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 020/128] fix: redefining a global in terms of itself used its
 name as its value

---
 src/eval-apply.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index 58ecb7c..aac506c 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -639,7 +639,10 @@ eval:
                 aa = R1->cdr->car;
                 if (aa->type != TPAIR)
                   {
-                    push_cc (R1->cdr->cdr->car, R2, cons (cons (R1->cdr->car, R1->cdr->car), R0), cell_vm_eval_define);
+                    /* A global name keeps its old value until it is set. */
+                    if (global_p != 0)
+                      aa = cell_f;
+                    push_cc (R1->cdr->cdr->car, R2, cons (cons (aa, aa), R0), cell_vm_eval_define);
                     goto eval;
                   }
                 else
-- 
2.43.0


From 547e19a7c95a51e67bd2c102e7a50c81b91bbe66 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 021/128] fix: a local definition used before it is reached was
 taken for the global of that name

---
 src/eval-apply.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index aac506c..ba56669 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -227,12 +227,35 @@ formal_p (struct scm *x, struct scm *formals)   /*:((internal)) */
   return formals->type == TPAIR;
 }
 
+struct scm *
+add_defines (struct scm *formals, struct scm *x)
+{
+  struct scm *a;
+  while (x->type == TPAIR)
+    {
+      a = x->car;
+      if (a->type == TPAIR)
+        if (a->car == cell_symbol_define)
+          if (a->cdr->type == TPAIR)
+            {
+              a = a->cdr->car;
+              if (a->type == TPAIR)
+                a = a->car;
+              formals = cons (a, formals);
+            }
+      x = x->cdr;
+    }
+  return formals;
+}
+
 struct scm *
 expand_variable_ (struct scm *x, struct scm *formals, int top_p)        /*:((internal)) */
 {
   struct scm *a;
   struct scm *f;
   struct scm *v;
+  /* Local definitions are visible in the whole body. */
+  formals = add_defines (formals, x);
   while (x->type == TPAIR)
     {
       a = x->car;
-- 
2.43.0


From d92bd308bf3dcfb656660298a7b5d9f22610de26 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 022/128] fix: case evaluated its key once for every clause

---
 mes/module/mes/scm.mes | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/mes/module/mes/scm.mes b/mes/module/mes/scm.mes
index 63b1afe..af2dfaa 100644
--- a/mes/module/mes/scm.mes
+++ b/mes/module/mes/scm.mes
@@ -32,15 +32,16 @@
 
 (define-macro (case val . args)
   (if (null? args) #f
-      (let ((clause (car args)))
-        (let ((pred (car clause)))
-          (let ((body (cdr clause)))
-           (if (pair? pred) `(if ,(if (null? (cdr pred))
-                                      `(eq? ,val ',(car pred))
-                                      `(member ,val ',pred))
-                                 (begin ,@body)
-                                 (case ,val ,@(cdr args)))
-               `(begin ,@body)))))))
+      (if (pair? val) `((lambda (case-key) (case case-key ,@args)) ,val)
+          (let ((clause (car args)))
+            (let ((pred (car clause)))
+              (let ((body (cdr clause)))
+                (if (pair? pred) `(if ,(if (null? (cdr pred))
+                                           `(eq? ,val ',(car pred))
+                                           `(member ,val ',pred))
+                                      (begin ,@body)
+                                      (case ,val ,@(cdr args)))
+                    `(begin ,@body))))))))
 
 (define-macro (when expr . body)
   `(if ,expr
-- 
2.43.0


From 5a16a2e7848bf9092b4a929ea365081b6c9b7408 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 023/128] fix: the initial values of a named let do not see the
 name of the loop

---
 mes/module/mes/let.mes | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mes/module/mes/let.mes b/mes/module/mes/let.mes
index 0b2ea84..6627370 100644
--- a/mes/module/mes/let.mes
+++ b/mes/module/mes/let.mes
@@ -37,9 +37,10 @@
     ,@(map1 cadr bindings)))
 
 (define-macro (xnamed-let name bindings rest)
-  `(simple-let ((,name *unspecified*))
-     (set! ,name (lambda ,(map1 car bindings) ,@rest))
-     (,name ,@(map1 cadr bindings))))
+  `((simple-let ((,name *unspecified*))
+      (set! ,name (lambda ,(map1 car bindings) ,@rest))
+      ,name)
+    ,@(map1 cadr bindings)))
 
 (define-macro (let bindings-or-name . rest)
   (if (symbol? bindings-or-name)
-- 
2.43.0


From 09a989f795e97a11482bc2145c27c5d43266875c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:36:27 +0000
Subject: [PATCH 024/128] fix: with-fluids evaluates the new values before
 binding any

---
 mes/module/mes/fluids.mes | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mes/module/mes/fluids.mes b/mes/module/mes/fluids.mes
index 5fe3f18..696ea2f 100644
--- a/mes/module/mes/fluids.mes
+++ b/mes/module/mes/fluids.mes
@@ -68,9 +68,11 @@
 ;;   (primitive-eval (with-fluids*-next fluids values thunk)))
 
 (define-macro (with-fluids bindings . bodies)
-  (let ((syms (map gensym bindings)))
-    `(let ,(map (lambda (b s) `(,s (,b))) (map car bindings) syms)
-       ,@(map (lambda (o) `(fluid-set! ,(car o) ,(cadr o))) bindings)
+  (let ((syms (map gensym bindings))
+        (vals (map gensym bindings)))
+    `(let ,(append (map (lambda (b v) `(,v ,(cadr b))) bindings vals)
+                   (map (lambda (b s) `(,s (,b))) (map car bindings) syms))
+       ,@(map (lambda (b v) `(fluid-set! ,b ,v)) (map car bindings) vals)
        (let ((r (begin ,@bodies)))
          ,@(map (lambda (b s) `(fluid-set! ,b ,s)) (map car bindings) syms)
          r))))
-- 
2.43.0


From eb03c4c2dec46be236d86495c3a4aa8dfdff7d70 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 025/128] fix: reader: a carriage return or vertical tab before
 a datum was read as 0

---
 src/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index 6b42178..556b92d 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -121,7 +121,7 @@ reset_reader:
       c = reader_read_line_comment (c);
       goto reset_reader;
     }
-  if ((c == ' ') || (c == '\t') || (c == '\n') || (c == '\f'))
+  if (isspace (c) != 0)
     {
       c = readchar ();
       goto reset_reader;
-- 
2.43.0


From 944c03c9c84ee72cb9fcbf4218c9a63551c6bc52 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 026/128] fix: reader: a datum comment before a closing
 parenthesis

---
 src/reader.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reader.c b/src/reader.c
index 556b92d..9973eeb 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -169,6 +169,12 @@ reader_eat_whitespace (int c)
           reader_read_block_comment (c, readchar ());
           return reader_eat_whitespace (readchar ());
         }
+      if (p == ';')
+        {
+          readchar ();
+          reader_read_sexp_ (readchar (), cell_nil);
+          return reader_eat_whitespace (readchar ());
+        }
     }
   return c;
 }
-- 
2.43.0


From 72618f0a4d0d5096c27017036d47bd2af3eaebba Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 027/128] fix: reader: the sign of an identifier such as +1b
 was dropped

---
 src/reader.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 9973eeb..56841b9 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -74,13 +74,13 @@ reader_read_identifier_or_number (int c)
   int i = 0;
   long n = 0;
   int negative_p = 0;
-  if (c == '+')
-    if (isdigit (peekchar ()) != 0)
-      c = readchar ();
-  if (c == '-')
+  if (c == '+' || c == '-')
     if (isdigit (peekchar ()) != 0)
       {
-        negative_p = 1;
+        if (c == '-')
+          negative_p = 1;
+        g_buf[i] = c;
+        i = i + 1;
         c = readchar ();
       }
   while (isdigit (c) != 0)
-- 
2.43.0


From fea7e4e6fa1d2796b6412e880e86e7b54dde388e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 028/128] fix: reader: a line comment that ends the file
 without a newline was an error

---
 src/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index 56841b9..4175591 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -49,7 +49,7 @@ reader_read_line_comment (int c)
         return c;
       c = readchar ();
     }
-  error (cell_symbol_system_error, make_string0 ("reader_read_line_comment"));
+  return c;
 }
 
 struct scm *reader_read_block_comment (int s, int c);
-- 
2.43.0


From df1f6bcc0f134dde5dd088f7a16404f159254618 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 029/128] fix: reader: #\x with an upper case hex digit

---
 src/reader.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 4175591..10d4c83 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -293,13 +293,10 @@ reader_read_character ()
           p = peekchar ();
         }
     }
-  else if (c == 'x' && ((p >= '0' && p <= '9') || (p >= 'a' && p <= 'f') || (p >= 'F' && p <= 'F')))
+  else if (c == 'x' && ((p >= '0' && p <= '9') || (p >= 'a' && p <= 'f') || (p >= 'A' && p <= 'F')))
     {
       struct scm *n = reader_read_hex ();
       c = n->value;
-      eputs ("reading hex c=");
-      eputs (itoa (c));
-      eputs ("\n");
     }
   else if (((c >= 'a' && c <= 'z') || c == '*') && ((p >= 'a' && p <= 'z') || p == '*'))
     {
-- 
2.43.0


From ac42fb48ddf1188f3684e389cd0684453823725e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 030/128] fix: write: unnamed control characters and bytes
 above 127 as characters lacked the backslash

---
 src/display.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/display.c b/src/display.c
index a40b96e..58dfaab 100644
--- a/src/display.c
+++ b/src/display.c
@@ -51,8 +51,7 @@ fdwrite_char (char v, int fd)
     fdputs ("\\space", fd);
   else
     {
-      if (v >= 32 && v <= 127)
-        fdputc ('\\', fd);
+      fdputc ('\\', fd);
       fdputc (v, fd);
     }
 }
-- 
2.43.0


From baf8c98ce20a0fb6b389b0087f53df67fa32e1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 031/128] fix: display of a string stopped at a NUL character

---
 src/display.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/display.c b/src/display.c
index 58dfaab..e043792 100644
--- a/src/display.c
+++ b/src/display.c
@@ -204,7 +204,12 @@ display_helper (struct scm *x, int cont, char *sep, int fd, int write_p)
           fdputc ('"', fd);
         }
       else
-        fdputs (cell_bytes (x->string), fd);
+        {
+          char *s = cell_bytes (x->string);
+          int i;
+          for (i = 0; i < x->length; i = i + 1)
+            fdputc (s[i], fd);
+        }
     }
   else if (t == TSPECIAL || t == TSYMBOL)
     fdwrite_string (cell_bytes (x->string), x->length, fd);
-- 
2.43.0


From 02720879ff8418b81c7e1f6379b5c3242de56052 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 032/128] fix: write: a pair whose tail is #f was written as a
 one-element list

---
 mes/module/mes/display.mes | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mes/module/mes/display.mes b/mes/module/mes/display.mes
index e3bbf58..8f48a45 100644
--- a/mes/module/mes/display.mes
+++ b/mes/module/mes/display.mes
@@ -138,7 +138,7 @@
               (#t
                (display (car x) port write?)
                (if (pair? (cdr x)) (d (cdr x) #t " ")
-                   (if (and (cdr x) (not (null? (cdr x))))
+                   (if (not (null? (cdr x)))
                        (begin
                          (display " . " port)
                          (display (cdr x) port write?))))))
-- 
2.43.0


From e06ec9935e93fad9ee0e07b6734e0e709900f8ab Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 033/128] fix: newline ignored its port argument before (mes
 display) is loaded

---
 mes/module/mes/boot-0.scm | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mes/module/mes/boot-0.scm b/mes/module/mes/boot-0.scm
index 767a1f2..1a3d370 100644
--- a/mes/module/mes/boot-0.scm
+++ b/mes/module/mes/boot-0.scm
@@ -53,7 +53,8 @@
       (core:write-port x (car rest))))
 
 (define (newline . rest)
-  (core:display "\n"))
+  (if (null? rest) (core:display "\n")
+      (core:display-port "\n" (car rest))))
 
 (define (cadr x) (car (cdr x)))
 
-- 
2.43.0


From 582fd3d3a9365986b0eebec63c6e0fafedd1ccd7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:39:04 +0000
Subject: [PATCH 034/128] fix: reading a byte above 127 from a string port gave
 a negative number

---
 src/posix.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/posix.c b/src/posix.c
index bfb1bcd..f6eecbb 100644
--- a/src/posix.c
+++ b/src/posix.c
@@ -74,7 +74,9 @@ peekchar ()
   if (length == 0)
     return -1;
   char const *p = cell_bytes (string->string);
-  return p[0];
+  int c = p[0];
+  c = c & 255;
+  return c;
 }
 
 int
@@ -89,6 +91,7 @@ readchar ()
     return -1;
   char const *p = cell_bytes (string->string);
   int c = p[0];
+  c = c & 255;
   p = p + 1;
   port->string = make_string (p, length - 1);
   return c;
-- 
2.43.0


From fed5c4528ddd843957b9ab1b8d7020af69e7c03e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:39:04 +0000
Subject: [PATCH 035/128] fix: read-char and read-string ignored a string port
 argument

---
 src/posix.c  | 9 +++++++--
 src/string.c | 2 ++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/posix.c b/src/posix.c
index f6eecbb..9d3b725 100644
--- a/src/posix.c
+++ b/src/posix.c
@@ -146,8 +146,13 @@ read_char (struct scm *port)            /*:((arity . n)) */
 {
   int fd = __stdin;
   if (port->type == TPAIR)
-    if (port->car->type == TNUMBER)
-      __stdin = port->car->value;
+    {
+      struct scm *p = port->car;
+      if (p->type == TNUMBER)
+        __stdin = p->value;
+      else if (p->type == TPORT)
+        __stdin = p->port;
+    }
   struct scm *c = make_char (readchar ());
   __stdin = fd;
   return c;
diff --git a/src/string.c b/src/string.c
index 171cb7b..5834dd2 100644
--- a/src/string.c
+++ b/src/string.c
@@ -178,6 +178,8 @@ read_string (struct scm *port)          /*:((arity . n)) */
       struct scm *p = car (port);
       if (p->type == TNUMBER)
         __stdin = p->value;
+      else if (p->type == TPORT)
+        __stdin = p->port;
     }
   int c = readchar ();
   size_t i = 0;
-- 
2.43.0


From c70981f40f564bc877eb163172a37b32ca526af4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:39:04 +0000
Subject: [PATCH 036/128] fix: read with a port argument left that port as the
 current input port

---
 mes/module/mes/scm.mes | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mes/module/mes/scm.mes b/mes/module/mes/scm.mes
index af2dfaa..8d5f377 100644
--- a/mes/module/mes/scm.mes
+++ b/mes/module/mes/scm.mes
@@ -90,6 +90,7 @@
   (if (null? port) (read-env (current-module))
       (let* ((prev (set-current-input-port (car port)))
              (result (read-env (current-module))))
+        (set-current-input-port prev)
         result)))
 
 (if (not (defined? 'peek-char))
-- 
2.43.0


From 3eb6a607f9e15d83068ebf7032667c1a8f258d40 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 037/128] fix: the garbage collector overwrote the stack when
 the live cells do not fit

---
 src/gc.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/gc.c b/src/gc.c
index 62643bb..67d3b15 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -483,11 +483,30 @@ gc_flip ()
     gc_stats_ (";;; => jam");
 }
 
+/* The copies are made after the cells, in the jam; what comes after that
+   is the stack. */
+void
+gc_assert_room (long n)
+{
+  char *end = cast_voidp_to_charp (g_free);
+  end = end + (n * sizeof (struct scm));
+  char *stack = cast_voidp_to_charp (g_stack_array);
+  stack = stack + (g_stack * sizeof (struct scm *));
+  if (end > stack)
+    assert_msg (0, "gc: out of memory");
+}
+
 struct scm *
 gc_copy (struct scm *old)               /*:((internal)) */
 {
   if (old->type == TBROKEN_HEART)
     return old->car;
+  if (old->type == TSTRUCT || old->type == TVECTOR)
+    gc_assert_room (1 + old->length);
+  else if (old->type == TBYTES)
+    gc_assert_room (bytes_cells (old->length));
+  else
+    gc_assert_room (1);
   struct scm *new = g_free;
   g_free = g_free + M2_CELL_SIZE;
   copy_news (new, old);
-- 
2.43.0


From baaff998b1dc59ad97dda2d3fe86b67b540c735a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:56:29 +0000
Subject: [PATCH 038/128] fix: a record constructor stored its arguments in
 field order instead of by name

---
 mes/module/srfi/srfi-9-struct.mes | 14 ++++++++++++--
 mes/module/srfi/srfi-9-vector.mes | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/mes/module/srfi/srfi-9-struct.mes b/mes/module/srfi/srfi-9-struct.mes
index 0f50920..02ad0f6 100644
--- a/mes/module/srfi/srfi-9-struct.mes
+++ b/mes/module/srfi/srfi-9-struct.mes
@@ -57,8 +57,18 @@
         (record-type (record-type type)))
     (lambda (. o)
       (if (not (= (length o) (length params))) (error "wrong number of arguments for record-constructor")
-          (let ((rest (make-list (- (length fields) (length params)))))
-            (make-struct type (cons name (append o rest)) record-printer))))))
+          (make-struct type (cons name (record-values fields params o)) record-printer)))))
+
+;; The values for FIELDS, given VALUES for the fields named in PARAMS.
+(define (record-values fields params values)
+  (cond ((null? fields) '())
+        ((null? params) (make-list (length fields)))
+        ((eq? (car fields) (car params))
+         (cons (car values) (record-values (cdr fields) (cdr params) (cdr values))))
+        (else (map (lambda (field)
+                     (let ((i (lst-index params field)))
+                       (and i (list-ref values i))))
+                   fields))))
 
 (define record-printer *unspecified*)   ; TODO
 (define (record-printer o)
diff --git a/mes/module/srfi/srfi-9-vector.mes b/mes/module/srfi/srfi-9-vector.mes
index f9b436e..8f3a06e 100644
--- a/mes/module/srfi/srfi-9-vector.mes
+++ b/mes/module/srfi/srfi-9-vector.mes
@@ -48,8 +48,18 @@
   (let ((fields (record-fields type)))
     (lambda (. o)
       (if (not (= (length o) (length params))) (error "wrong number of arguments for record-constructor")
-          (let ((rest (make-list (- (length fields) (length params)))))
-            (list->vector (cons type (append o rest))))))))
+          (list->vector (cons type (record-values fields params o)))))))
+
+;; The values for FIELDS, given VALUES for the fields named in PARAMS.
+(define (record-values fields params values)
+  (cond ((null? fields) '())
+        ((null? params) (make-list (length fields)))
+        ((eq? (car fields) (car params))
+         (cons (car values) (record-values (cdr fields) (cdr params) (cdr values))))
+        (else (map (lambda (field)
+                     (let ((i (lst-index params field)))
+                       (and i (list-ref values i))))
+                   fields))))
 
 (define (record-fields o)
   (vector-ref o 2))
-- 
2.43.0


From 5b7709e4265601c6745da1f4b02b07f58a7f7dcc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:13:52 +0000
Subject: [PATCH 039/128] fix: M1: missing and wrong x86 and x86_64 instruction
 encodings

---
 lib/x86-mes/x86.M1       | 14 +++++++++++---
 lib/x86_64-mes/x86_64.M1 | 32 +++++++++++++++++++++++++-------
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/lib/x86-mes/x86.M1 b/lib/x86-mes/x86.M1
index ede7979..f71829b 100644
--- a/lib/x86-mes/x86.M1
+++ b/lib/x86-mes/x86.M1
@@ -23,6 +23,7 @@ DEFINE add____$i32,%eax 05
 DEFINE add____$i32,%ebx 81c3
 DEFINE add____$i32,(%eax) 8100
 DEFINE add____$i32,(%ebx) 8103
+DEFINE add____$i32,0x32 8105
 DEFINE add____$i32,0x32(%eax) 8180
 DEFINE add____$i32,0x32(%ebp) 8185
 DEFINE add____$i8,%eax 83c0
@@ -41,8 +42,8 @@ DEFINE add____%ebx,%eax 01d8
 DEFINE add____%ebx,%ebx 01db
 DEFINE addb___$i8,(%eax) 8000
 DEFINE addb___$i8,(%ebx) 8003
-DEFINE addw___$i8,(%eax) 668100
-DEFINE addw___$i8,(%ebx) 668103
+DEFINE addw___$i8,(%eax) 668300
+DEFINE addw___$i8,(%ebx) 668303
 DEFINE and____$i32,%eax 25
 DEFINE and____$i32,%ebx 81e3
 DEFINE and____%ebx,%eax 21d8
@@ -52,8 +53,9 @@ DEFINE call___*%ebx ffd3
 DEFINE cltd 99
 DEFINE cmp____$0x32,%eax 3d
 DEFINE cmp____$i32,%eax 3d
+DEFINE cmp____$i32,%ebx 81fb
 DEFINE cmp____$i8,%eax 83f8
-DEFINE cmp____$i8,%ebx 81fb
+DEFINE cmp____$i8,%ebx 83fb
 DEFINE div___%ebx f7f3
 DEFINE hlt f4
 DEFINE idiv___%ebx f7fb
@@ -85,10 +87,16 @@ DEFINE mov____$i32,0x8(%ebp) c745
 DEFINE mov____$i8,%al b0
 DEFINE mov____$i8,%eax b0
 DEFINE mov____%al,(%ebx) 8803
+DEFINE mov____%al,0x32(%ebp) 8885
 DEFINE mov____%al,0x8(%ebp) 8845
 DEFINE mov____%ax,(%ebx) 668903
+DEFINE mov____%ax,0x32(%ebp) 668985
 DEFINE mov____%ax,0x8(%ebp) 668945
+DEFINE mov____%bl,0x32(%ebp) 889d
+DEFINE mov____%bl,0x8(%ebp) 885d
 DEFINE mov____%bx,%bx 6689db
+DEFINE mov____%bx,0x32(%ebp) 66899d
+DEFINE mov____%bx,0x8(%ebp) 66895d
 DEFINE mov____%cl,(%ebx) 8a08
 DEFINE mov____%cx,(%ebx) 668b08
 DEFINE mov____%dl,(%eax) 8810
diff --git a/lib/x86_64-mes/x86_64.M1 b/lib/x86_64-mes/x86_64.M1
index 9ffbbf1..0da3e5b 100644
--- a/lib/x86_64-mes/x86_64.M1
+++ b/lib/x86_64-mes/x86_64.M1
@@ -24,14 +24,19 @@
 DEFINE add____$i32,%rax 4805
 DEFINE add____$i32,%rbp 4881c5
 DEFINE add____$i32,%rdi 4881c7
-DEFINE add____$i32,(%rax) 8100
-DEFINE add____$i32,0x32(%rbp) 8185
+DEFINE add____$i32,(%rax) 488100
+DEFINE add____$i32,(%rdi) 488107
+DEFINE add____$i32,0x32 48810425
+DEFINE add____$i32,0x32(%rbp) 488185
 DEFINE add____$i8,%rax 4883c0
 DEFINE add____$i8,%rdi 4883c7
 DEFINE add____$i8,%rsp 4883c4
-DEFINE add____$i8,(%rax) 8300
-DEFINE add____$i8,(%rdi) 8307
-DEFINE add____$i8,0x8(%rbp) 8345
+DEFINE add____$i8,(%rax) 488300
+DEFINE add____$i8,(%rdi) 488307
+DEFINE add____$i8,0x32 48830425
+DEFINE add____$i8,0x8(%rbp) 488345
+DEFINE add____%r15,%rax 4c01f8
+DEFINE add____%r15,%rdi 4c01ff
 DEFINE add____%r15,(%rax) 4c0138
 DEFINE add____%r15,(%rdi) 4c013f
 DEFINE add____%rax,%rax 4801c0
@@ -44,8 +49,9 @@ DEFINE addl___$i32,(%rax) 8100
 DEFINE addl___$i32,(%rdi) 8107
 DEFINE addl___$i8,(%rax) 8300
 DEFINE addl___$i8,(%rdi) 8307
-DEFINE addw___$i8,(%rax) 668100
-DEFINE addw___$i8,(%rdi) 668107
+DEFINE addw___$i8,(%rax) 668300
+DEFINE addw___$i8,(%rdi) 668307
+DEFINE and____$i32,%rax 4825
 DEFINE and____$i32,%rdi 4881e7
 DEFINE and____%r15,%rax 4c21f8
 DEFINE and____%r15,%rdi 4c21ff
@@ -54,6 +60,7 @@ DEFINE call32 e8
 DEFINE call___*%rax ffd0
 DEFINE call___*%rdi ffd7
 DEFINE cmp____$i32,%rax 483d
+DEFINE cmp____$i32,%rdi 4881ff
 DEFINE cmp____$i8,%rax 4883f8
 DEFINE cmp____$i8,%rdi 4883ff
 DEFINE cmp____%r15,%rax 4c39f8
@@ -88,7 +95,12 @@ DEFINE mov____%al,(%rdi) 8807
 DEFINE mov____%al,0x32(%rbp) 8885
 DEFINE mov____%al,0x8(%rbp) 8845
 DEFINE mov____%ax,(%rdi) 668907
+DEFINE mov____%ax,0x32(%rbp) 668985
 DEFINE mov____%ax,0x8(%rbp) 668945
+DEFINE mov____%di,0x32(%rbp) 6689bd
+DEFINE mov____%di,0x8(%rbp) 66897d
+DEFINE mov____%dil,0x32(%rbp) 4088bd
+DEFINE mov____%dil,0x8(%rbp) 40887d
 DEFINE mov____%eax,%eax 89c0
 DEFINE mov____%eax,%rax 89c0
 DEFINE mov____%eax,(%rdi) 8907
@@ -123,10 +135,14 @@ DEFINE mov____%rdx,%rax 4889d0
 DEFINE mov____%rdx,%rdi 4889d7
 DEFINE mov____%rsi,(%rdi) 488937
 DEFINE mov____%rsp,%rbp 4889e5
+DEFINE mov____%si,(%rdi) 668937
+DEFINE mov____%sil,(%rdi) 408837
 DEFINE mov____(%rax),%eax 8b00
 DEFINE mov____(%rax),%esi 8b30
 DEFINE mov____(%rax),%rax 488b00
 DEFINE mov____(%rax),%rsi 488b30
+DEFINE mov____(%rax),%si 668b30
+DEFINE mov____(%rax),%sil 408a30
 DEFINE mov____(%rdi),%edi 8b3f
 DEFINE mov____(%rdi),%rdi 488b3f
 DEFINE mov____0x32(%rbp),%rax 488b85
@@ -147,6 +163,8 @@ DEFINE mov____0x8(%rbp),%rsp 488b65
 DEFINE mov____0x8(%rdi),%rax 488b47
 DEFINE mov____0x8(%rdi),%rbp 488b6f
 DEFINE mov____0x8(%rdi),%rsp 488b67
+DEFINE movb___%al,0x32 880425
+DEFINE movb___%dil,0x32 40883c25
 DEFINE movl___%eax,0x32 890425
 DEFINE movl___%edi,0x32 893c25
 DEFINE movl___%esi,(%rdi) 8937
-- 
2.43.0


From c16af688d62afe29da82fe2fb3e9da68e0e87f75 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:15:17 +0000
Subject: [PATCH 040/128] fix: MesCC: the type of a comma expression

---
 module/mescc/compile.scm | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 65c16b3..dbcdeb1 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -248,6 +248,8 @@
 
       ((cond-expr _ ,a ,b) (ast->type a info))
 
+      ((comma-expr . ,exprs) (guard (pair? exprs)) (ast->type (last exprs) info))
+
       (_ (get-type o info))))
 
   (let ((type (type-helper o info)))
-- 
2.43.0


From 5c6451a73cfbc9835f08db7f9ac107feb10131d9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:15:17 +0000
Subject: [PATCH 041/128] fix: MesCC: the value of || and && is 0 or 1

---
 module/mescc/compile.scm | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index dbcdeb1..7b90f8e 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -1298,7 +1298,10 @@
                 (info (free-register info))
                 (info (expr->register b info))
                 (info (append-text info (wrap-as (as info 'test-r))))
-                (info (append-text info (wrap-as `((#:label ,skip-b-label))))))
+                (info (append-text info (wrap-as `((#:label ,skip-b-label)))))
+                (info (append-text info (wrap-as (append (as info 'test-r)
+                                                         (as info 'xor-zf)
+                                                         (as info 'zf->r))))))
            info))
 
         ((and ,a ,b)
@@ -1311,7 +1314,10 @@
                 (info (free-register info))
                 (info (expr->register b info))
                 (info (append-text info (wrap-as (as info 'test-r))))
-                (info (append-text info (wrap-as `((#:label ,skip-b-label))))))
+                (info (append-text info (wrap-as `((#:label ,skip-b-label)))))
+                (info (append-text info (wrap-as (append (as info 'test-r)
+                                                         (as info 'xor-zf)
+                                                         (as info 'zf->r))))))
            info))
 
         ((cast ,type ,expr)
-- 
2.43.0


From ed55dd038dd14ecab758f9a8ec27c5549d8c776c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:17:03 +0000
Subject: [PATCH 042/128] fix: MesCC: a function returns its value converted to
 its return type

---
 module/mescc/compile.scm | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 7b90f8e..8b58dc6 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -1887,6 +1887,10 @@
       ((return ,expr)
        (let* ((info (fold (lambda (x info) (free-register info)) info (.allocated info)))
               (info (expr->register expr info))
+              (type (and=> (assoc-ref functions (.function info)) function:type))
+              (info (if (not (and (type? type)
+                                  (memq (type:type type) '(signed unsigned)))) info
+                        (append-text info (convert-r0 info type))))
               (info (free-register info)))
          (append-text info (append (wrap-as (as info 'ret))))))
 
-- 
2.43.0


From 95bab3b1a1bb00f0d5b8dd1b9c6e2fc4d92eb403 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:26:43 +0000
Subject: [PATCH 043/128] fix: MesCC: fall through to a later case or default
 of a switch, default before case

---
 module/mescc/compile.scm | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 8b58dc6..1d47272 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -1931,6 +1931,11 @@
          (default-label (string-append label "default")))
     (define (jump label)
       (wrap-as (as info 'jump label)))
+    (define (clause-label->info info)
+      (if (not clause?) info
+          (let ((info (if (zero? i) info ;fall through, past the test
+                          (append-text info (jump body-label)))))
+            (append-text info (wrap-as `((#:label ,clause-label)))))))
     (pmatch o
       ((case ,test)
        (define (jump-nz label)
@@ -1947,20 +1952,16 @@
                         (_ (error "case test: not supported: " test)))))
            (append (wrap-as (as info 'r-cmp-value value))
                    (jump-z body-label))))
-       (let ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                       info)))
+       (let ((info (clause-label->info info)))
          (append-text info (test->text test))))
       ((case ,test (case . ,case1))
-       (let ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                       info)))
+       (let ((info (clause-label->info info)))
          (fold (cut switch->info #f label count <> i <>) info (cons `(case ,test) `((case ,@case1))))))
       ((case ,test (default . ,rest))
-       (let ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                       info)))
+       (let ((info (clause-label->info info)))
          (fold (cut switch->info #f label count <> i <>) info (cons `(case ,test) `(default ,@rest)))))
       ((case ,test ,statement)
-       (let* ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                        info))
+       (let* ((info (clause-label->info info))
               (info (switch->info #f label count `(case ,test) i info))
               (info (append-text info (jump next-clause-label)))
               (info (append-text info (wrap-as `((#:label ,body-label)))))
@@ -1971,12 +1972,12 @@
               )
          info))
       ((case ,test (case . ,case1) . ,rest)
-       (let ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                       info)))
+       (let ((info (clause-label->info info)))
          (fold (cut switch->info #f label count <> i <>) info (cons `(case ,test) `((case ,@case1) ,@rest)))))
+      ((default (case ,test ,statement))
+       (switch->info clause? label count `(case ,test (default ,statement)) i info))
       ((default (case . ,case1) . ,rest)
-       (let* ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                        info))
+       (let* ((info (clause-label->info info))
               (info (if last? info
                          (append-text info (jump next-clause-label))))
               (info (append-text info (wrap-as `((#:label ,default-label)))))
@@ -1984,8 +1985,7 @@
               (info (append-text info (wrap-as `((#:label ,body-label))))))
          (fold (cut switch->info #f label count <> i <>) info `((case ,@case1) ,@rest))))
       (default
-        (let* ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                         info))
+        (let* ((info (clause-label->info info))
                (info (if last? info
                          (append-text info (jump next-clause-label))))
                (info (append-text info (wrap-as `((#:label ,default-label)))))
@@ -1993,16 +1993,14 @@
                (info (append-text info (wrap-as `((#:label ,body-label))))))
           info))
       ((default ,statement)
-       (let* ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                        info))
+       (let* ((info (clause-label->info info))
               (info (if last? info
                         (append-text info (jump next-clause-label))))
               (info (append-text info (wrap-as `((#:label ,default-label)))))
               (info (append-text info (wrap-as `((#:label ,body-label))))))
          (ast->info statement info)))
       ((default ,statement ,rest)
-       (let* ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                        info))
+       (let* ((info (clause-label->info info))
               (info (if last? info
                         (append-text info (jump next-clause-label))))
               (info (append-text info (wrap-as `((#:label ,default-label)))))
-- 
2.43.0


From f3b9184f69003a6b6ac8616c3c47046fd506de45 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:28:04 +0000
Subject: [PATCH 044/128] fix: MesCC: labels of a conditional expression
 clashed with those of the enclosing if or switch

---
 module/mescc/compile.scm | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 1d47272..eb6928c 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -1073,8 +1073,10 @@
          (let* ((info (append-text info (ast->comment `(cond-expr ,test (ellipsis) (ellipsis)))))
                 (here (number->string (length text)))
                 (label (string-append "_" (.function info) "_" here "_"))
-                (else-label (string-append label "else"))
-                (break-label (string-append label "break"))
+                (else-label (string-append label "cond_else"))
+                (break-label (string-append label "cond_break"))
+                ;; make HERE unique: TEST may start with a cond-expr
+                (info (append-text info (wrap-as `((#:label ,(string-append label "cond"))))))
                 (info ((test-jump-label->info info else-label) test))
                 (info (expr->register then info))
                 (info (free-register info))
-- 
2.43.0


From 94aebc612b770b8094fc4fa30b961c0880de62f4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 045/128] fix: MesCC: a conditional expression used as operand
 lost the spilled registers

---
 module/mescc/compile.scm | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index eb6928c..ee2871e 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -1078,14 +1078,15 @@
                 ;; make HERE unique: TEST may start with a cond-expr
                 (info (append-text info (wrap-as `((#:label ,(string-append label "cond"))))))
                 (info ((test-jump-label->info info else-label) test))
+                (allocated (.allocated info))
+                (pushed (.pushed info))
+                (registers (.registers info))
                 (info (expr->register then info))
-                (info (free-register info))
                 (info (append-text info (wrap-as (as info 'jump break-label))))
                 (info (append-text info (wrap-as `((#:label ,else-label)))))
+                (info (clone info #:allocated allocated #:pushed pushed #:registers registers))
                 (info (expr->register else info))
-                (info (free-register info))
-                (info (append-text info (wrap-as `((#:label ,break-label)))))
-                (info (allocate-register info)))
+                (info (append-text info (wrap-as `((#:label ,break-label))))))
            info))
 
         ((post-inc ,expr)
@@ -1511,9 +1512,10 @@
       (let* ((info (expr->register o info))
              (info (append-text info (make-comment "jmp test LABEL")))
              (jump-text (wrap-as (as info type label)))
-             (info (append-text info (append (if (null? test) '() ((car test) info))
-                                             jump-text)))
-             (info (free-register info)))
+             (info (append-text info (if (null? test) '() ((car test) info))))
+             ;; restore a spilled register on both paths, flags are kept
+             (info (free-register info))
+             (info (append-text info jump-text)))
         info)))
   (lambda (o)
     (pmatch o
@@ -1547,17 +1549,13 @@
                                        (reg-size (->size "*" info))
                                        (size (if (= rank 1) (ast-type->size info expr)
                                                  reg-size)))
-                                  ((jump (if (= size 1) 'jump-byte-z
-                                             'jump-z)
-                                         (lambda (info) (wrap-as (as info 'r-zero?)))) o)))
+                                  ((jump 'jump-z (lambda (info) (wrap-as (as info 'r-zero?)))) o)))
 
       ((de-ref ,expr) (let* ((rank (expr->rank info expr))
                              (r-size (->size "*" info))
                              (size (if (= rank 1) (ast-type->size info expr)
                                        r-size)))
-                        ((jump (if (= size 1) 'jump-byte-z
-                                   'jump-z)
-                               (lambda (info) (wrap-as (as info 'r-zero?)))) o)))
+                        ((jump 'jump-z (lambda (info) (wrap-as (as info 'r-zero?)))) o)))
 
       ((assn-expr (p-expr (ident ,name)) ,op ,expr)
        ((jump 'jump-z
-- 
2.43.0


From 67a35d0a23a21b9c130108240aee76d0c9aa2649 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 046/128] fix: MesCC: x86: !, !=, && and || clobbered the live
 value in register ax

---
 module/mescc/i386/as.scm   | 10 +++++++---
 module/mescc/x86_64/as.scm | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/module/mescc/i386/as.scm b/module/mescc/i386/as.scm
index 0b786e5..25c3283 100644
--- a/module/mescc/i386/as.scm
+++ b/module/mescc/i386/as.scm
@@ -103,9 +103,13 @@
       (,(string-append "movzbl_%" l ",%" r)))))
 
 (define (i386:xor-zf info)
-  '(("lahf")
-    ("xor____$i8,%ah" (#:immediate1 #x40))
-    ("sahf")))
+  (let* ((r (get-r info))
+         (save? (not (equal? r "eax"))))
+    `(,@(if save? '(("push___%eax")) '())
+      ("lahf")
+      ("xor____$i8,%ah" (#:immediate1 #x40))
+      ("sahf")
+      ,@(if save? '(("pop____%eax")) '()))))
 
 (define (i386:r->local+n info id n)
   (let ((n (+ (- 0 (* 4 id)) n))
diff --git a/module/mescc/x86_64/as.scm b/module/mescc/x86_64/as.scm
index 7e438c6..a3c7c1a 100644
--- a/module/mescc/x86_64/as.scm
+++ b/module/mescc/x86_64/as.scm
@@ -164,9 +164,13 @@
       (,(string-append "movzbq_%" l ",%" r)))))
 
 (define (x86_64:xor-zf info)
-  '(("lahf")
-    ("xor____$i8,%ah" (#:immediate1 #x40))
-    ("sahf")))
+  (let* ((r (get-r info))
+         (save? (not (equal? r "rax"))))
+    `(,@(if save? '(("push___%rax")) '())
+      ("lahf")
+      ("xor____$i8,%ah" (#:immediate1 #x40))
+      ("sahf")
+      ,@(if save? '(("pop____%rax")) '()))))
 
 (define (x86_64:r->local+n info id n)
   (let ((n (+ (- 0 (* 8 id)) n))
-- 
2.43.0


From 9e36ebb326ade91ace93f8cd4445e6a5d732a254 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 047/128] fix: M1: addw takes the 16-bit immediate MesCC gives
 it

---
 lib/x86-mes/x86.M1       | 4 ++--
 lib/x86_64-mes/x86_64.M1 | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/x86-mes/x86.M1 b/lib/x86-mes/x86.M1
index f71829b..d3f5b8a 100644
--- a/lib/x86-mes/x86.M1
+++ b/lib/x86-mes/x86.M1
@@ -42,8 +42,8 @@ DEFINE add____%ebx,%eax 01d8
 DEFINE add____%ebx,%ebx 01db
 DEFINE addb___$i8,(%eax) 8000
 DEFINE addb___$i8,(%ebx) 8003
-DEFINE addw___$i8,(%eax) 668300
-DEFINE addw___$i8,(%ebx) 668303
+DEFINE addw___$i8,(%eax) 668100
+DEFINE addw___$i8,(%ebx) 668103
 DEFINE and____$i32,%eax 25
 DEFINE and____$i32,%ebx 81e3
 DEFINE and____%ebx,%eax 21d8
diff --git a/lib/x86_64-mes/x86_64.M1 b/lib/x86_64-mes/x86_64.M1
index 0da3e5b..0cbfd5f 100644
--- a/lib/x86_64-mes/x86_64.M1
+++ b/lib/x86_64-mes/x86_64.M1
@@ -49,8 +49,8 @@ DEFINE addl___$i32,(%rax) 8100
 DEFINE addl___$i32,(%rdi) 8107
 DEFINE addl___$i8,(%rax) 8300
 DEFINE addl___$i8,(%rdi) 8307
-DEFINE addw___$i8,(%rax) 668300
-DEFINE addw___$i8,(%rdi) 668307
+DEFINE addw___$i8,(%rax) 668100
+DEFINE addw___$i8,(%rdi) 668107
 DEFINE and____$i32,%rax 4825
 DEFINE and____$i32,%rdi 4881e7
 DEFINE and____%r15,%rax 4c21f8
-- 
2.43.0


From 85d78c0bf62cf911a446adfff45cee739538d14e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 048/128] fix: MesCC: a default label that follows a case label
 was not found

---
 module/mescc/compile.scm | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index ee2871e..90b159b 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -1776,6 +1776,12 @@
            ((default . _) 'default)
            ((labeled-stmt _ ,statement) (clause? statement))
            (_ #f)))
+       (define (default-clause? o)
+         (pmatch o
+           ((default . _) #t)
+           ((case _ . ,rest) (find default-clause? rest))
+           ((labeled-stmt _ ,statement) (default-clause? statement))
+           (_ #f)))
        (define clause-number
          (let ((i 0))
            (lambda (o)
@@ -1790,7 +1796,7 @@
               (info (expr->register expr info))
               (info (clone info #:break (cons break-label (.break info))))
               (count (length (filter clause? statements)))
-              (default? (find (cut eq? <> 'default) (map clause? statements)))
+              (default? (find default-clause? statements))
               (info (fold (cut switch->info #t label (1- count) <> <> <>) info statements
                           (unfold null? clause-number cdr statements)))
               (last-clause-label (string-append label "clause" (number->string count)))
-- 
2.43.0


From 062e775e46d452f33f35e84b41ce35a4ed7f0407 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 049/128] fix: MesCC: x86_64: constants and case values that do
 not fit a sign-extended 32-bit immediate

---
 module/mescc/M1.scm        | 10 ++++++----
 module/mescc/x86_64/as.scm | 10 +++++-----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/module/mescc/M1.scm b/module/mescc/M1.scm
index 790ef88..cda5cdc 100644
--- a/module/mescc/M1.scm
+++ b/module/mescc/M1.scm
@@ -93,11 +93,13 @@
 (define (hex2:immediate8 o)
   ;; FIXME: #x100000000 => 0 divide-by-zero when compiled with 64 bit mesc
   (if hex? (string-append "%0x" (dec->hex (if mesc? 0 (modulo o #x100000000)))
-                          " %0x" (if (< o 0) "-1"
-                                     (dec->hex (if mesc? o (quotient o #x100000000)))))
+                          " %0x" (if (>= o (- #x80000000)) (if (< o 0) "-1"
+                                     (dec->hex (if mesc? o (quotient o #x100000000))))
+                                     (dec->hex (quotient (- o (modulo o #x100000000)) #x100000000))))
       (string-append "%" (number->string (dec->hex (if mesc? 0 (modulo o #x100000000))))
-                     " %" (if (< o 0) "-1"
-                              (number->string (dec->hex (if mesc? o (quotient o #x100000000))))))))
+                     " %" (if (>= o (- #x80000000)) (if (< o 0) "-1"
+                              (number->string (dec->hex (if mesc? o (quotient o #x100000000)))))
+                              (number->string (quotient (- o (modulo o #x100000000)) #x100000000))))))
 
 (define* (display-join o #:optional (sep ""))
   (let loop ((o o))
diff --git a/module/mescc/x86_64/as.scm b/module/mescc/x86_64/as.scm
index a3c7c1a..1683e6d 100644
--- a/module/mescc/x86_64/as.scm
+++ b/module/mescc/x86_64/as.scm
@@ -82,7 +82,7 @@
   (or v (error "invalid value: x86_64:value->r: " v))
   (let ((r (get-r info)))
     (if (and (>= v 0)
-             (< v #xffffffff))
+             (< v #x80000000))
      `((,(string-append "mov____$i32,%" r) (#:immediate ,v)))
      `((,(string-append "mov____$i64,%" r) (#:immediate8 ,v))))))
 
@@ -524,11 +524,11 @@
     (cond ((< (abs v) #x80)
            `((,(string-append "cmp____$i8,%" r) (#:immediate1 ,v))))
           ((and (>= v 0)
-                (< v #xffffffff))
+                (< v #x80000000))
            `((,(string-append "cmp____$i32,%" r) (#:immediate ,v))))
           (else
-           `(,(string-append "mov____$i64,%r15") (#:immediate8 ,v)
-             ,(string-append "cmp____%r15,%" r))))))
+           `((,(string-append "mov____$i64,%r15") (#:immediate8 ,v))
+             (,(string-append "cmp____%r15,%" r)))))))
 
 (define (x86_64:push-register info r)
   `((,(string-append "push___%" r))))
@@ -642,7 +642,7 @@
 (define (x86_64:r-and info v)
   (let ((r (get-r info)))
     (if (and (>= v 0)
-             (< v #xffffffff))
+             (< v #x80000000))
         `((,(string-append "and____$i32,%" r) (#:immediate ,v)))
         `((,(string-append "mov____$i64,%r15") (#:immediate8 ,v))
           (,(string-append "and____%r15,%" r))))))
-- 
2.43.0


From fb2b45cf1ee6a49ac0e64ac7ef5a8f2db0a5fd30 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 050/128] fix: MesCC: a local char array initialized by a
 string was not filled with zeros

---
 module/mescc/compile.scm | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 90b159b..b363eaf 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -2217,7 +2217,9 @@
          (struct? (structured-type? type))
          (size (->size type info))
          (string (and array? (array-init->string init)))
-         (init (or string init))
+         (init (if (not string) init
+                   (string-append string
+                                  (make-string (max 1 (- size (string-length string))) #\nul))))
          (reg-size (->size "*" info))
          (local (if (not array?) local
                     (let ((size (or (and string (max size (1+ (string-length string))))
-- 
2.43.0


From 00f08928ab94e67c9d6b4b507aee41f800c675cc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 051/128] fix: MesCC: the value of a comma expression was lost
 when registers are spilled

---
 module/mescc/compile.scm | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index b363eaf..5449366 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -901,6 +901,9 @@
         ((comma-expr)
          (allocate-register info))
 
+        ((comma-expr ,a)
+         (expr->register a info))
+
         ((comma-expr ,a . ,rest)
          (let* ((info (expr->register a info))
                 (info (free-register info)))
-- 
2.43.0


From ae2c3fead48ca6df4b5a1dc5deafbbb001e0b8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 052/128] fix: MesCC: assignment of a struct or union that fits
 a register, or of 5 to 7 bytes more

---
 module/mescc/compile.scm | 54 ++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 5449366..0dc31b6 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -711,20 +711,28 @@
                                  (as info 'long-r0->r1-mem)))
              ((and (= size 8) (= reg-size 8)) (as info 'quad-r0->r1-mem))
              (else (error "r0->r1-mem*n-: not supported"))))
-      (else (let loop ((i 0))
-              (if (>= i n) '()
-                  (case (- n i)
-                    ((1) (as info 'byte-r0-mem->r1-mem))
-                    ((2) (as info 'word-r0-mem->r1-mem))
-                    ((3) (append (as info 'word-r0-mem->r1-mem)
-                                 (as info 'r+value 2)
-                                 (as info 'r0+value 2)
-                                 (loop (+ i 2))))
-                    ((4) (append (as info 'long-r0-mem->r1-mem)))
-                    (else (append (as info 'r0-mem->r1-mem)
-                                  (as info 'r+value reg-size)
-                                  (as info 'r0+value reg-size)
-                                  (loop (+ i reg-size))))))))))))
+      (else (r0-mem->r1-mem*n- info n))))))
+
+(define (r0-mem->r1-mem*n- info n)
+  (let ((reg-size (->size "*" info)))
+    (let loop ((i 0))
+      (if (>= i n) '()
+          (case (- n i)
+            ((1) (as info 'byte-r0-mem->r1-mem))
+            ((2) (as info 'word-r0-mem->r1-mem))
+            ((3) (append (as info 'word-r0-mem->r1-mem)
+                         (as info 'r+value 2)
+                         (as info 'r0+value 2)
+                         (loop (+ i 2))))
+            ((4) (append (as info 'long-r0-mem->r1-mem)))
+            ((5 6 7) (append (as info 'long-r0-mem->r1-mem)
+                             (as info 'r+value 4)
+                             (as info 'r0+value 4)
+                             (loop (+ i 4))))
+            (else (append (as info 'r0-mem->r1-mem)
+                          (as info 'r+value reg-size)
+                          (as info 'r0+value reg-size)
+                          (loop (+ i reg-size)))))))))
 
 (define (r0->r1-mem*n info n size)
   (append-text info (r0->r1-mem*n- info n size)))
@@ -1409,12 +1417,20 @@
              (format (current-error-port) "   size[~a]:~a != size[~a]:~a\n"  rank size rank-b size-b))
            (pmatch a
              ((p-expr (ident ,name))
-              (if (or (<= size r-size)
-                      (<= size-b r-size)) (append-text info ((r->ident info) name))
+              (if (and (not (structured-type? type))
+                       (or (<= size r-size)
+                           (<= size-b r-size))) (append-text info ((r->ident info) name))
                       (let* ((info (expr->register* a info))
-                             (info (r0->r1-mem*n info size size-b)))
+                             (info (if (structured-type? type)
+                                       (append-text info (wrap-as (r0-mem->r1-mem*n- info size)))
+                                       (r0->r1-mem*n info size size-b))))
                         (free-register info))))
 
+             (_ (guard (structured-type? type))
+                (let* ((info (expr->register* a info))
+                       (info (append-text info (wrap-as (r0-mem->r1-mem*n- info size)))))
+                  (free-register info)))
+
              (_ (let* ((info (expr->register* a info))
                        (reg-size (->size "*" info))
                        (info (if (not (bit-field? type)) info
@@ -1454,7 +1470,9 @@
 (define (mem->r type info)
   (let* ((size (->size type info))
          (reg-size (->size "*" info))
-         (size (if (= size reg-size) 0 size)))
+         (size (cond ((or (structured-type? type) (c-array? type)) -1) ; its address
+                     ((= size reg-size) 0)
+                     (else size))))
     (case size
       ((0) (wrap-as (as info 'mem->r)))
       ((1) (append (wrap-as (as info 'byte-mem->r)) (convert-r0 info type)))
-- 
2.43.0


From 525c1491f05892819a23fa41647b964b94a1bfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 053/128] fix: MesCC: mask of a bit-field that is assigned

---
 module/mescc/compile.scm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 0dc31b6..6118439 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -1436,7 +1436,7 @@
                        (info (if (not (bit-field? type)) info
                                  (let* ((bit (bit-field:bit type))
                                         (bits (bit-field:bits type))
-                                        (set-mask (- (ash bits 1) 1))
+                                        (set-mask (- (ash 1 bits) 1))
                                         (shifted-set-mask (ash set-mask bit))
                                         (clear-mask (logxor shifted-set-mask
                                                             (if (= reg-size 4)
-- 
2.43.0


From b32749cf466996196dd03be692c9786b1b313acb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 054/128] fix: MesCC: the register of an outer switch was lost
 after a nested switch

---
 module/mescc/compile.scm | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 6118439..44bb9ea 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -1814,11 +1814,21 @@
               (here (number->string (length text)))
               (label (string-append "_" (.function info) "_" here "_"))
               (break-label (string-append label "break"))
+              ;; The value of an enclosing switch is not used in its clauses.
+              (info (clone info #:pushed 0))
+              (info (fold (lambda (x info) (free-register info)) info (.allocated info)))
               (info (expr->register expr info))
-              (info (clone info #:break (cons break-label (.break info))))
+              (allocated (.allocated info))
+              (registers (.registers info))
               (count (length (filter clause? statements)))
+              (statement->info
+               (lambda (o i info)
+                 (let ((info (if (not (clause? o)) info
+                                 (clone info #:allocated allocated #:registers registers #:pushed 0))))
+                   (switch->info #t label (1- count) o i info))))
+              (info (clone info #:break (cons break-label (.break info))))
               (default? (find default-clause? statements))
-              (info (fold (cut switch->info #t label (1- count) <> <> <>) info statements
+              (info (fold statement->info info statements
                           (unfold null? clause-number cdr statements)))
               (last-clause-label (string-append label "clause" (number->string count)))
               (default-label (string-append label "default"))
-- 
2.43.0


From b280cf41c34d4db465a13b17d6d80d28ad2626a6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 055/128] fix: MesCC: integer promotion and usual arithmetic
 conversions

---
 module/mescc/compile.scm | 101 +++++++++++++++++++++++----------------
 1 file changed, 59 insertions(+), 42 deletions(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 44bb9ea..99128ec 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -91,6 +91,31 @@
     (cond ((type? type) (eq? (type:type type) 'unsigned))
           (else #t))))
 
+;; Integer promotions and the usual arithmetic conversions, type of A for others
+(define (arithmetic-type a b info)
+  (define (integer-type? o)
+    (and (type? o) (memq (type:type o) '(signed unsigned enum))))
+  (let ((type-a (ast->type a info))
+        (type-b (ast->type b info)))
+    (if (not (and (integer-type? type-a) (integer-type? type-b))) type-a
+        (let* ((int (get-type "default" info))
+               (promote (lambda (o)
+                          (if (or (eq? (type:type o) 'enum)
+                                  (< (type:size o) (type:size int))) int
+                                  o)))
+               (type-a (promote type-a))
+               (type-b (promote type-b)))
+          (cond ((> (type:size type-a) (type:size type-b)) type-a)
+                ((< (type:size type-a) (type:size type-b)) type-b)
+                ((unsigned? type-a) type-a)
+                (else type-b))))))
+
+(define (unsigned-compare? a b info)
+  (let ((type-a (ast->type a info))
+        (type-b (ast->type b info)))
+    (if (and (type? type-a) (type? type-b)) (unsigned? (arithmetic-type a b info))
+        (or (unsigned? type-a) (unsigned? type-b)))))
+
 (define (->size o info)
   (cond ((and (type? o) (eq? (type:type o) 'union))
          (apply max (map (compose (cut ->size <> info) cdr) (struct->fields o))))
@@ -207,30 +232,30 @@
       ((pre-dec ,a) (ast->type a info))
       ((post-inc ,a) (ast->type a info))
       ((post-dec ,a) (ast->type a info))
-      ((add ,a ,b) (ast->type a info))
-      ((sub ,a ,b) (ast->type a info))
-      ((bitwise-and ,a ,b) (ast->type a info))
-      ((bitwise-not ,a) (ast->type a info))
-      ((bitwise-or ,a ,b) (ast->type a info))
-      ((bitwise-xor ,a ,b) (ast->type a info))
-      ((lshift ,a ,b) (ast->type a info))
-      ((rshift ,a ,b) (ast->type a info))
-      ((div ,a ,b) (ast->type a info))
-      ((mod ,a ,b) (ast->type a info))
-      ((mul ,a ,b) (ast->type a info))
-      ((not ,a) (ast->type a info))
-      ((pos ,a) (ast->type a info))
-      ((neg ,a) (ast->type a info))
-      ((eq ,a ,b) (ast->type a info))
-      ((ge ,a ,b) (ast->type a info))
-      ((gt ,a ,b) (ast->type a info))
-      ((ne ,a ,b) (ast->type a info))
-      ((le ,a ,b) (ast->type a info))
-      ((lt ,a ,b) (ast->type a info))
+      ((add ,a ,b) (arithmetic-type a b info))
+      ((sub ,a ,b) (arithmetic-type a b info))
+      ((bitwise-and ,a ,b) (arithmetic-type a b info))
+      ((bitwise-not ,a) (arithmetic-type a a info))
+      ((bitwise-or ,a ,b) (arithmetic-type a b info))
+      ((bitwise-xor ,a ,b) (arithmetic-type a b info))
+      ((lshift ,a ,b) (arithmetic-type a a info))
+      ((rshift ,a ,b) (arithmetic-type a a info))
+      ((div ,a ,b) (arithmetic-type a b info))
+      ((mod ,a ,b) (arithmetic-type a b info))
+      ((mul ,a ,b) (arithmetic-type a b info))
+      ((not ,a) (get-type "default" info))
+      ((pos ,a) (arithmetic-type a a info))
+      ((neg ,a) (arithmetic-type a a info))
+      ((eq ,a ,b) (get-type "default" info))
+      ((ge ,a ,b) (get-type "default" info))
+      ((gt ,a ,b) (get-type "default" info))
+      ((ne ,a ,b) (get-type "default" info))
+      ((le ,a ,b) (get-type "default" info))
+      ((lt ,a ,b) (get-type "default" info))
 
       ;; logical
-      ((or ,a ,b) (ast->type a info))
-      ((and ,a ,b) (ast->type a info))
+      ((or ,a ,b) (get-type "default" info))
+      ((and ,a ,b) (get-type "default" info))
 
       ((cast (type-name ,type) ,expr) (ast->type type info))
 
@@ -246,7 +271,7 @@
 
       ((assn-expr ,a ,op ,b) (ast->type a info))
 
-      ((cond-expr _ ,a ,b) (ast->type a info))
+      ((cond-expr _ ,a ,b) (arithmetic-type a b info))
 
       ((comma-expr . ,exprs) (guard (pair? exprs)) (ast->type (last exprs) info))
 
@@ -1234,9 +1259,9 @@
         ((rshift ,a ,b) ((binop->r info) a b 'r0>>r1))
         ((div ,a ,b)
          ((binop->r info) a b 'r0/r1
-          (signed? (ast->type a info))))
+          (signed? (arithmetic-type a b info))))
         ((mod ,a ,b) ((binop->r info) a b 'r0%r1
-                      (signed? (ast->type a info))))
+                      (signed? (arithmetic-type a b info))))
         ((mul ,a ,b) ((binop->r info) a b 'r0*r1))
 
         ((not ,expr)
@@ -1261,19 +1286,15 @@
                       (append-text info (wrap-as (as info 'zf->r)))))
 
         ((ge ,a ,b)
-         (let* ((type-a (ast->type a info))
-                (type-b (ast->type b info))
-                (info ((binop->r info) a b 'r0-r1))
-                (test->r (if (or (unsigned? type-a) (unsigned? type-b)) 'ae?->r 'ge?->r))
+         (let* ((info ((binop->r info) a b 'r0-r1))
+                (test->r (if (unsigned-compare? a b info) 'ae?->r 'ge?->r))
                 (info (append-text info (wrap-as (as info test->r))))
                 (info (append-text info (wrap-as (as info 'test-r)))))
            info))
 
         ((gt ,a ,b)
-         (let* ((type-a (ast->type a info))
-                (type-b (ast->type b info))
-                (info ((binop->r info) a b 'r0-r1))
-                (test->r (if (or (unsigned? type-a) (unsigned? type-b)) 'a?->r 'g?->r))
+         (let* ((info ((binop->r info) a b 'r0-r1))
+                (test->r (if (unsigned-compare? a b info) 'a?->r 'g?->r))
                 (info (append-text info (wrap-as (as info test->r))))
                 (info (append-text info (wrap-as (as info 'test-r)))))
            info))
@@ -1285,19 +1306,15 @@
                       info))
 
         ((le ,a ,b)
-         (let* ((type-a (ast->type a info))
-                (type-b (ast->type b info))
-                (info ((binop->r info) a b 'r0-r1))
-                (test->r (if (or (unsigned? type-a) (unsigned? type-b)) 'be?->r 'le?->r))
+         (let* ((info ((binop->r info) a b 'r0-r1))
+                (test->r (if (unsigned-compare? a b info) 'be?->r 'le?->r))
                 (info (append-text info (wrap-as (as info test->r))))
                 (info (append-text info (wrap-as (as info 'test-r)))))
            info))
 
         ((lt ,a ,b)
-         (let* ((type-a (ast->type a info))
-                (type-b (ast->type b info))
-                (info ((binop->r info) a b 'r0-r1))
-                (test->r (if (or (unsigned? type-a) (unsigned? type-b)) 'b?->r 'l?->r))
+         (let* ((info ((binop->r info) a b 'r0-r1))
+                (test->r (if (unsigned-compare? a b info) 'b?->r 'l?->r))
                 (info (append-text info (wrap-as (as info test->r))))
                 (info (append-text info (wrap-as (as info 'test-r)))))
            info))
@@ -1383,7 +1400,7 @@
                                              info)))
                                  (info (expr->register a info))
                                  (info (append-text info (wrap-as (as info 'swap-r0-r1))))
-                                 (signed? (signed? type))
+                                 (signed? (signed? (arithmetic-type a b info)))
                                  (info (append-text info (cond ((equal? op "+=") (wrap-as (as info 'r0+r1)))
                                                                ((equal? op "-=") (wrap-as (as info 'r0-r1)))
                                                                ((equal? op "*=") (wrap-as (as info 'r0*r1)))
-- 
2.43.0


From 4cf439c5c43bab82c97a98b496b2c7be30b52efd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 056/128] fix: M1: x86 encodings of mov %cl,(%ebx) and mov
 %cx,(%ebx)

---
 lib/x86-mes/x86.M1 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/x86-mes/x86.M1 b/lib/x86-mes/x86.M1
index d3f5b8a..ebc6e17 100644
--- a/lib/x86-mes/x86.M1
+++ b/lib/x86-mes/x86.M1
@@ -97,8 +97,8 @@ DEFINE mov____%bl,0x8(%ebp) 885d
 DEFINE mov____%bx,%bx 6689db
 DEFINE mov____%bx,0x32(%ebp) 66899d
 DEFINE mov____%bx,0x8(%ebp) 66895d
-DEFINE mov____%cl,(%ebx) 8a08
-DEFINE mov____%cx,(%ebx) 668b08
+DEFINE mov____%cl,(%ebx) 880b
+DEFINE mov____%cx,(%ebx) 66890b
 DEFINE mov____%dl,(%eax) 8810
 DEFINE mov____%dl,0x8(%eax) 8850
 DEFINE mov____%eax,%ebx 89c3
-- 
2.43.0


From 76c5fdb3d10f1a56cbef3c6d1452c374ee2efdbc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 057/128] fix: strcmp, strncmp, memcmp: compare as unsigned
 char.

---
 lib/string/memcmp.c  | 2 +-
 lib/string/strcmp.c  | 2 +-
 lib/string/strncmp.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/string/memcmp.c b/lib/string/memcmp.c
index ca72f63..93ac3c0 100644
--- a/lib/string/memcmp.c
+++ b/lib/string/memcmp.c
@@ -36,5 +36,5 @@ memcmp (void const *s1, void const *s2, size_t size)
       b = b + 1;
     }
 
-  return a[0] - b[0];
+  return (a[0] & 0xff) - (b[0] & 0xff);
 }
diff --git a/lib/string/strcmp.c b/lib/string/strcmp.c
index b0fee26..a65df20 100644
--- a/lib/string/strcmp.c
+++ b/lib/string/strcmp.c
@@ -29,5 +29,5 @@ strcmp (char const *a, char const *b)
       b = b + 1;
     }
 
-  return a[0] - b[0];
+  return (a[0] & 0xff) - (b[0] & 0xff);
 }
diff --git a/lib/string/strncmp.c b/lib/string/strncmp.c
index 75c84b7..6188ae5 100644
--- a/lib/string/strncmp.c
+++ b/lib/string/strncmp.c
@@ -33,5 +33,5 @@ strncmp (char const *a, char const *b, size_t size)
       b = b + 1;
     }
 
-  return a[0] - b[0];
+  return (a[0] & 0xff) - (b[0] & 0xff);
 }
-- 
2.43.0


From d1d23381de42285cbabe7e0af9ea5cf8b3326829 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 058/128] fix: memchr, strchr, strrchr: find characters above
 127, and the terminator of an empty string.

---
 lib/string/memchr.c  | 3 ++-
 lib/string/strchr.c  | 3 ++-
 lib/string/strrchr.c | 5 ++---
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/string/memchr.c b/lib/string/memchr.c
index 255fdf6..9a756a4 100644
--- a/lib/string/memchr.c
+++ b/lib/string/memchr.c
@@ -24,11 +24,12 @@ void *
 memchr (void const *block, int c, size_t size)
 {
   char const *p = block;
+  c = c & 0xff;
 
   while (size != 0)
     {
       size = size - 1;
-      if (c == p[0])
+      if (c == (p[0] & 0xff))
         return (void*) p;
       p = p + 1;
     }
diff --git a/lib/string/strchr.c b/lib/string/strchr.c
index da1a707..5720a11 100644
--- a/lib/string/strchr.c
+++ b/lib/string/strchr.c
@@ -24,9 +24,10 @@ char *
 strchr (char const *s, int c)
 {
   char const *p = s;
+  c = c & 0xff;
   while (*p || !c)
     {
-      if (c == *p)
+      if (c == (*p & 0xff))
         return (char *) p;
       p++;
     }
diff --git a/lib/string/strrchr.c b/lib/string/strrchr.c
index 08766fd..31998cd 100644
--- a/lib/string/strrchr.c
+++ b/lib/string/strrchr.c
@@ -24,15 +24,14 @@ char *
 strrchr (char const *s, int c)
 {
   int n = strlen (s);
-  if (!n)
-    return 0;
   char const *p = s + n;
+  c = c & 0xff;
   if (!*p && !c)
     return (char *) p;
   p--;
   while (n-- && (*p || !c))
     {
-      if (c == *p)
+      if (c == (*p & 0xff))
         return (char *) p;
       p--;
     }
-- 
2.43.0


From 17c8aa24c877d0acb9cc4c41aa75f638c619c96d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 059/128] fix: strpbrk: return NULL when no character is found.

---
 lib/string/strpbrk.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/string/strpbrk.c b/lib/string/strpbrk.c
index 57583ee..14000c4 100644
--- a/lib/string/strpbrk.c
+++ b/lib/string/strpbrk.c
@@ -26,8 +26,8 @@ strpbrk (char const *string, char const *stopset)
   char *p = (char *) string;
   while (*p)
     if (strchr (stopset, *p))
-      break;
+      return p;
     else
       p++;
-  return p;
+  return 0;
 }
-- 
2.43.0


From 4d0b017c5abf495176bf029454f3fde1fe1b224d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 060/128] fix: isxdigit: accept upper case; iscntrl: accept
 DEL.

---
 lib/ctype/iscntrl.c  | 2 +-
 lib/ctype/isxdigit.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/ctype/iscntrl.c b/lib/ctype/iscntrl.c
index 82d4c3d..73ad555 100644
--- a/lib/ctype/iscntrl.c
+++ b/lib/ctype/iscntrl.c
@@ -23,5 +23,5 @@
 int
 iscntrl (int c)
 {
-  return c >= 0 && c < 32;
+  return (c >= 0 && c < 32) || c == 127;
 }
diff --git a/lib/ctype/isxdigit.c b/lib/ctype/isxdigit.c
index 13f7a66..b15546e 100644
--- a/lib/ctype/isxdigit.c
+++ b/lib/ctype/isxdigit.c
@@ -24,5 +24,5 @@
 int
 isxdigit (int c)
 {
-  return isdigit (c) || (c >= 'a' && c <= 'f');
+  return isdigit (c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
 }
-- 
2.43.0


From 069a3e638732e51d6a8e5b36fec62b455449d652 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 061/128] fix: isnumber, abtol: any base, upper case, mixed
 digits and letters; accumulate in a long; one sign.

---
 lib/ctype/isnumber.c | 15 +++++++--------
 lib/mes/abtol.c      | 11 +++++++----
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/lib/ctype/isnumber.c b/lib/ctype/isnumber.c
index 4c37886..67cd04d 100644
--- a/lib/ctype/isnumber.c
+++ b/lib/ctype/isnumber.c
@@ -23,12 +23,11 @@
 int
 isnumber (int c, int base)
 {
-  if (base == 2)
-    return (c >= '0') && (c <= '1');
-  if (base == 8)
-    return (c >= '0') && (c <= '7');
-  if (base == 10)
-    return isdigit (c);
-  if (base == 16)
-    return isxdigit (c);
+  if (c >= '0' && c <= '9')
+    return c - '0' < base;
+  if (c >= 'a' && c <= 'z')
+    return c - 'a' + 10 < base;
+  if (c >= 'A' && c <= 'Z')
+    return c - 'A' + 10 < base;
+  return 0;
 }
diff --git a/lib/mes/abtol.c b/lib/mes/abtol.c
index 1f297b4..263e9ad 100644
--- a/lib/mes/abtol.c
+++ b/lib/mes/abtol.c
@@ -25,16 +25,16 @@ long
 abtol (char const **p, int base)
 {
   char const *s = p[0];
-  int i = 0;
+  long i = 0;
   int sign_p = 0;
-  int m = '0';
+  int m;
   if (base == 0)
     base = 10;
   while (isspace (s[0]) != 0)
     s = s + 1;
   if (s[0] != 0 && s[0] == '+')
     s = s + 1;
-  if (s[0] != 0 && s[0] == '-')
+  else if (s[0] != 0 && s[0] == '-')
     {
       sign_p = 1;
       s = s + 1;
@@ -42,8 +42,11 @@ abtol (char const **p, int base)
   while (isnumber (s[0], base) != 0)
     {
       i = i * base;
-      if (s[0] > '9')
+      m = '0';
+      if (s[0] >= 'a')
         m = 'a' - 10;
+      else if (s[0] >= 'A')
+        m = 'A' - 10;
       i = i + s[0] - m;
       s = s + 1;
     }
-- 
2.43.0


From 9f4a1c15a0a43463ee0022851069cb41446adaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 062/128] fix: atol: return a long.

---
 lib/stdlib/atol.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/stdlib/atol.c b/lib/stdlib/atol.c
index 9339537..aa327a0 100644
--- a/lib/stdlib/atol.c
+++ b/lib/stdlib/atol.c
@@ -18,10 +18,12 @@
  * along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <mes/lib.h>
 #include <stdlib.h>
 
-int
+long
 atol (char const *s)
 {
-  return atoi (s);
+  char const *p = s;
+  return abtol (&p, 0);
 }
-- 
2.43.0


From c38e866cebf6bfbe9025ac08d3d2b62cc44f6279 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 063/128] fix: strtol: prefix only for base 0 and 16, after
 blanks and sign; octal; tail without a number.

---
 lib/stdlib/strtol.c | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/lib/stdlib/strtol.c b/lib/stdlib/strtol.c
index ff937d9..1b0d086 100644
--- a/lib/stdlib/strtol.c
+++ b/lib/stdlib/strtol.c
@@ -19,22 +19,39 @@
  */
 
 #include <mes/lib.h>
+#include <ctype.h>
 #include <stdlib.h>
-#include <string.h>
 
 long
 strtol (char const *string, char **tailptr, int base)
 {
-  if (!strncmp (string, "0x", 2))
+  char const *s = string;
+  int sign_p = 0;
+  long i = 0;
+  while (isspace (s[0]))
+    s++;
+  if (s[0] == '-')
+    sign_p = 1;
+  if (s[0] == '-' || s[0] == '+')
+    s++;
+  if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && isnumber (s[2], 16))
     {
-      string += 2;
+      s += 2;
       base = 16;
     }
-  if (tailptr)
+  if (base == 0)
     {
-      *tailptr = (char *) string;
-      return abtol ((char const **) tailptr, base);
+      base = 10;
+      if (s[0] == '0')
+        base = 8;
     }
-  char **p = (char **) &string;
-  return abtol ((char const **) p, base);
+  if (isnumber (s[0], base))
+    i = abtol (&s, base);
+  else
+    s = string;
+  if (tailptr)
+    *tailptr = (char *) s;
+  if (sign_p)
+    return -i;
+  return i;
 }
-- 
2.43.0


From 18251a98bd1802fd825bfc898eaf686642452744 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:23:28 +0000
Subject: [PATCH 064/128] fix: ultoa: unsigned.

---
 lib/mes/ultoa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mes/ultoa.c b/lib/mes/ultoa.c
index 3319296..e769eb2 100644
--- a/lib/mes/ultoa.c
+++ b/lib/mes/ultoa.c
@@ -23,5 +23,5 @@
 char *
 ultoa (unsigned long x)
 {
-  return ntoab (x, 10, 1);
+  return ntoab (x, 10, 0);
 }
-- 
2.43.0


From 50ad3f0dd0210c1deee0b0b7021e77642efea983 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 065/128] fix: Declare atol.

---
 include/stdlib.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdlib.h b/include/stdlib.h
index 592a387..078228f 100644
--- a/include/stdlib.h
+++ b/include/stdlib.h
@@ -39,6 +39,7 @@ typedef int (*comparison_fn_t) (void const *, void const *);
 void abort (void);
 double atof (char const *s);
 int atoi (char const *s);
+long atol (char const *s);
 int atexit (void (*function) (void));
 void *calloc (size_t nmemb, size_t size);
 void _exit (int status);
-- 
2.43.0


From 3498d051ed00fab5fab50b93b348d60281326c05 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 066/128] fix: abtod, strtod: sign, fraction of several digits,
 negative exponent, tail without a number.

---
 lib/mes/abtod.c | 48 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/lib/mes/abtod.c b/lib/mes/abtod.c
index a24acf6..926adbf 100644
--- a/lib/mes/abtod.c
+++ b/lib/mes/abtod.c
@@ -19,6 +19,7 @@
  */
 
 #include <mes/lib.h>
+#include <ctype.h>
 
 double
 abtod (char const **p, int base)
@@ -29,24 +30,51 @@ abtod (char const **p, int base)
   if (!base)
     base = 10;
   double dbase = base;
-  long i = abtol (&s, base);
-  long f = 0;
+  double scale = 1;
   long e = 0;
-  if (*s == '.')
+  int digits = 0;
+  while (isspace (*s))
+    s++;
+  if (*s == '-')
+    sign_p = 1;
+  if (*s == '-' || *s == '+')
+    s++;
+  while (isnumber (*s, base))
     {
+      char digit[2];
+      char const *q = digit;
+      digit[0] = *s;
+      digit[1] = 0;
+      d = d * dbase + abtol (&q, base);
+      digits++;
       s++;
-      f = abtol (&s, base);
     }
-  if (*s == 'e')
+  if (*s == '.' && (digits || isnumber (s[1], base)))
+    {
+      s++;
+      while (isnumber (*s, base))
+        {
+          char digit[2];
+          char const *q = digit;
+          digit[0] = *s;
+          digit[1] = 0;
+          d = d * dbase + abtol (&q, base);
+          scale = scale * dbase;
+          digits++;
+          s++;
+        }
+    }
+  if (!digits)
+    return 0;
+  d = d / scale;
+  if ((*s == 'e' || *s == 'E') && (isdigit (s[1]) || ((s[1] == '-' || s[1] == '+') && isdigit (s[2]))))
     {
       s++;
       e = abtol (&s, base);
     }
-  d = i + f / dbase;
-  if (e < 0)
-    while (e++)
-      d = d / dbase;
-  while (e--)
+  for (; e < 0; e++)
+    d = d / dbase;
+  for (; e > 0; e--)
     d = d * dbase;
   *p = s;
   return sign_p ? -d : d;
-- 
2.43.0


From 092329049fc81e90108050a9758974fce494c758 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 067/128] fix: dtoab: sign of a number between -1 and 0,
 leading zeros of the fraction, rounding.

---
 lib/mes/dtoab.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/mes/dtoab.c b/lib/mes/dtoab.c
index effaf9b..575ffeb 100644
--- a/lib/mes/dtoab.c
+++ b/lib/mes/dtoab.c
@@ -26,16 +26,24 @@ char *
 dtoab (double d, int base, int signed_p)
 {
   static char dtoa_buf[40];
+  char *buf = dtoa_buf;
+  if (d < 0)
+    {
+      *buf++ = '-';
+      d = -d;
+    }
+  d = d + (double) 1 / (double) 200000000;
   long i = (long) d;
   char *p = ntoab (i, base, signed_p);
-  strcpy (dtoa_buf, p);
+  strcpy (buf, p);
   long f = (d - (double) i) * (double) 100000000;
   if (f)
     {
-      if (f < 0)
-        f = -f;
       strcat (dtoa_buf, ".");
       p = ntoab (f, base, 1);
+      int n = 8 - strlen (p);
+      while (n-- > 0)
+        strcat (dtoa_buf, "0");
       strcat (dtoa_buf, p);
       p = strchr (dtoa_buf, 0);
       p--;
-- 
2.43.0


From 46bb606182b7053d19d2913d7858a1a0570869d2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 068/128] fix: floor, ceil: negative numbers, small fractions.

---
 lib/math/ceil.c  | 4 +++-
 lib/math/floor.c | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/math/ceil.c b/lib/math/ceil.c
index bd3ceba..d100f27 100644
--- a/lib/math/ceil.c
+++ b/lib/math/ceil.c
@@ -23,7 +23,9 @@
 double
 ceil (double number)
 {
-  long i = number + 0.9999;
+  long i = number;
+  if (i < number)
+    i++;
   number = i;
   return number;
 }
diff --git a/lib/math/floor.c b/lib/math/floor.c
index 982694a..7907b69 100644
--- a/lib/math/floor.c
+++ b/lib/math/floor.c
@@ -24,6 +24,8 @@ double
 floor (double number)
 {
   long i = number;
+  if (i > number)
+    i--;
   number = i;
   return number;
 }
-- 
2.43.0


From 1d893f4164450066b0e0424394213a294f52f32e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:28:34 +0000
Subject: [PATCH 069/128] fix: vfprintf, vsnprintf: sign, precision, flags,
 width of %c, count, and termination of a truncated string.

---
 lib/stdio/vfprintf.c  | 139 +++++++++++++++++++++------------------
 lib/stdio/vsnprintf.c | 147 ++++++++++++++++++++++++------------------
 2 files changed, 161 insertions(+), 125 deletions(-)

diff --git a/lib/stdio/vfprintf.c b/lib/stdio/vfprintf.c
index 0b2c30a..5dcd1f3 100644
--- a/lib/stdio/vfprintf.c
+++ b/lib/stdio/vfprintf.c
@@ -42,21 +42,17 @@ vfprintf (FILE * f, char const *format, va_list ap)
         int left_p = 0;
         int precision = -1;
         int width = -1;
-        if (c == '-')
-          {
-            left_p = 1;
-            c = *++p;
-          }
+        int space_p = 0;
         char pad = ' ';
-        if (c == ' ')
-          {
-            pad = c;
-            c = *p++;
-          }
-        if (c == '0')
+        while (c == '-' || c == ' ' || c == '0')
           {
-            pad = c;
-            c = *p++;
+            if (c == '-')
+              left_p = 1;
+            else if (c == ' ')
+              space_p = 1;
+            else
+              pad = c;
+            c = *++p;
           }
         if (c >= '0' && c <= '9')
           {
@@ -66,6 +62,11 @@ vfprintf (FILE * f, char const *format, va_list ap)
         else if (c == '*')
           {
             width = va_arg (ap, int);
+            if (width < 0)
+              {
+                left_p = 1;
+                width = -width;
+              }
             c = *++p;
           }
         if (c == '.')
@@ -79,8 +80,12 @@ vfprintf (FILE * f, char const *format, va_list ap)
             else if (c == '*')
               {
                 precision = va_arg (ap, int);
+                if (precision < 0)
+                  precision = -1;
                 c = *++p;
               }
+            else
+              precision = 0;
           }
         if (c == 'l')
           c = *++p;
@@ -101,7 +106,18 @@ vfprintf (FILE * f, char const *format, va_list ap)
             {
               char _c;
               _c = va_arg (ap, long);
+              while (!left_p && width-- > 1)
+                {
+                  fputc (' ', f);
+                  count++;
+                }
               fputc (_c, f);
+              count++;
+              while (left_p && width-- > 1)
+                {
+                  fputc (' ', f);
+                  count++;
+                }
               break;
             }
           case 'd':
@@ -113,39 +129,52 @@ vfprintf (FILE * f, char const *format, va_list ap)
             {
               long d = va_arg (ap, long);
               int base = c == 'o' ? 8 : c == 'x' || c == 'X' ? 16 : 10;
-              char *s = ntoab (d, base, c != 'u' && c != 'x' && c != 'X');
+              int signed_p = c == 'd' || c == 'i';
+              char *s = ntoab (d, base, signed_p);
               if (c == 'X')
                 strupr (s);
+              char sign = 0;
+              int zeros = 0;
+              if (signed_p && *s == '-')
+                sign = *s++;
+              else if (signed_p && space_p)
+                sign = ' ';
               int length = strlen (s);
-              if (precision == -1)
-                precision = length;
-              if (!left_p)
+              if (precision == 0 && d == 0)
+                length = 0;
+              if (sign)
+                width--;
+              if (precision >= 0)
+                zeros = precision - length;
+              else if (pad == '0' && !left_p)
+                zeros = width - length;
+              if (zeros < 0)
+                zeros = 0;
+              width = width - zeros - length;
+              while (!left_p && width-- > 0)
                 {
-                  while (width-- > precision)
-                    {
-                      fputc (pad, f);
-                      count++;
-                    }
-                  while (precision > length)
-                    {
-                      fputc ('0', f);
-                      precision--;
-                      width--;
-                      count++;
-                    }
+                  fputc (' ', f);
+                  count++;
                 }
-              while (*s)
+              if (sign)
                 {
-                  if (precision-- <= 0)
-                    break;
-                  width--;
-                  fputc (*s++, f);
+                  fputc (sign, f);
                   count++;
                 }
-              while (width > 0)
+              while (zeros-- > 0)
                 {
-                  width--;
-                  fputc (pad, f);
+                  fputc ('0', f);
+                  count++;
+                }
+              while (length-- > 0)
+                {
+                  c = *s++;
+                  fputc (c, f);
+                  count++;
+                }
+              while (left_p && width-- > 0)
+                {
+                  fputc (' ', f);
                   count++;
                 }
               break;
@@ -154,35 +183,23 @@ vfprintf (FILE * f, char const *format, va_list ap)
             {
               char *s = va_arg (ap, char *);
               int length = strlen (s);
-              if (precision == -1)
-                precision = length;
-              if (!left_p)
+              if (precision >= 0 && precision < length)
+                length = precision;
+              width = width - length;
+              while (!left_p && width-- > 0)
                 {
-                  while (width-- > precision)
-                    {
-                      fputc (pad, f);
-                      count++;
-                    }
-                  while (precision > length)
-                    {
-                      fputc (' ', f);
-                      precision--;
-                      width--;
-                      count++;
-                    }
+                  fputc (pad, f);
+                  count++;
                 }
-              while (*s)
+              while (length-- > 0)
                 {
-                  if (precision-- <= 0)
-                    break;
-                  width--;
-                  fputc (*s++, f);
+                  c = *s++;
+                  fputc (c, f);
                   count++;
                 }
-              while (width > 0)
+              while (left_p && width-- > 0)
                 {
-                  width--;
-                  fputc (pad, f);
+                  fputc (' ', f);
                   count++;
                 }
               break;
@@ -248,5 +265,5 @@ vfprintf (FILE * f, char const *format, va_list ap)
         p++;
       }
   va_end (ap);
-  return 0;
+  return count;
 }
diff --git a/lib/stdio/vsnprintf.c b/lib/stdio/vsnprintf.c
index 9a8d796..46241db 100644
--- a/lib/stdio/vsnprintf.c
+++ b/lib/stdio/vsnprintf.c
@@ -44,21 +44,17 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
         int left_p = 0;
         int precision = -1;
         int width = -1;
-        if (c == '-')
-          {
-            left_p = 1;
-            c = *++p;
-          }
+        int space_p = 0;
         char pad = ' ';
-        if (c == ' ')
-          {
-            pad = c;
-            c = *p++;
-          }
-        if (c == '0')
+        while (c == '-' || c == ' ' || c == '0')
           {
-            pad = c;
-            c = *p++;
+            if (c == '-')
+              left_p = 1;
+            else if (c == ' ')
+              space_p = 1;
+            else
+              pad = c;
+            c = *++p;
           }
         if (c >= '0' && c <= '9')
           {
@@ -68,6 +64,11 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
         else if (c == '*')
           {
             width = va_arg (ap, long);
+            if (width < 0)
+              {
+                left_p = 1;
+                width = -width;
+              }
             c = *++p;
           }
         if (c == '.')
@@ -81,8 +82,12 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
             else if (c == '*')
               {
                 precision = va_arg (ap, long);
+                if (precision < 0)
+                  precision = -1;
                 c = *++p;
               }
+            else
+              precision = 0;
           }
         if (c == 'l')
           c = *++p;
@@ -104,10 +109,23 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
             }
           case 'c':
             {
-              c = va_arg (ap, long);
+              char _c;
+              _c = va_arg (ap, long);
+              while (!left_p && width-- > 1)
+                {
+                  if (count < size)
+                    *str++ = ' ';
+                  count++;
+                }
               if (count < size)
-                *str++ = c;
+                *str++ = _c;
               count++;
+              while (left_p && width-- > 1)
+                {
+                  if (count < size)
+                    *str++ = ' ';
+                  count++;
+                }
               break;
             }
           case 'd':
@@ -119,44 +137,57 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
             {
               long d = va_arg (ap, long);
               int base = c == 'o' ? 8 : c == 'x' || c == 'X' ? 16 : 10;
-              char *s = ntoab (d, base, c != 'u' && c != 'x' && c != 'X');
+              int signed_p = c == 'd' || c == 'i';
+              char *s = ntoab (d, base, signed_p);
               if (c == 'X')
                 strupr (s);
+              char sign = 0;
+              int zeros = 0;
+              if (signed_p && *s == '-')
+                sign = *s++;
+              else if (signed_p && space_p)
+                sign = ' ';
               int length = strlen (s);
-              if (precision == -1)
-                precision = length;
-              if (!left_p)
+              if (precision == 0 && d == 0)
+                length = 0;
+              if (sign)
+                width--;
+              if (precision >= 0)
+                zeros = precision - length;
+              else if (pad == '0' && !left_p)
+                zeros = width - length;
+              if (zeros < 0)
+                zeros = 0;
+              width = width - zeros - length;
+              while (!left_p && width-- > 0)
                 {
-                  while (width-- > precision)
-                    {
-                      if (count < size)
-                        *str++ = pad;
-                      count++;
-                    }
-                  while (precision > length)
-                    {
-                      if (count < size)
-                        *str++ = '0';
-                      precision--;
-                      width--;
-                      count++;
-                    }
+                  if (count < size)
+                    *str++ = ' ';
+                  count++;
                 }
-              while (*s)
+              if (sign)
+                {
+                  if (count < size)
+                    *str++ = sign;
+                  count++;
+                }
+              while (zeros-- > 0)
+                {
+                  if (count < size)
+                    *str++ = '0';
+                  count++;
+                }
+              while (length-- > 0)
                 {
-                  if (precision-- <= 0)
-                    break;
-                  width--;
                   c = *s++;
                   if (count < size)
                     *str++ = c;
                   count++;
                 }
-              while (width > 0)
+              while (left_p && width-- > 0)
                 {
-                  width--;
                   if (count < size)
-                    *str++ = pad;
+                    *str++ = ' ';
                   count++;
                 }
               break;
@@ -165,40 +196,26 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
             {
               char *s = va_arg (ap, char *);
               int length = s ? strlen (s) : 0;
-              if (precision == -1)
-                precision = length;
-              if (!left_p)
+              if (precision >= 0 && precision < length)
+                length = precision;
+              width = width - length;
+              while (!left_p && width-- > 0)
                 {
-                  while (width-- > precision)
-                    {
-                      if (count < size)
-                        *str++ = pad;
-                      count++;
-                    }
-                  while (width > length)
-                    {
-                      if (count < size)
-                        *str++ = ' ';
-                      precision--;
-                      width--;
-                      count++;
-                    }
+                  if (count < size)
+                    *str++ = pad;
+                  count++;
                 }
-              while (s && *s)
+              while (length-- > 0)
                 {
-                  if (precision-- <= 0)
-                    break;
-                  width--;
                   c = *s++;
                   if (count < size)
                     *str++ = c;
                   count++;
                 }
-              while (width > 0)
+              while (left_p && width-- > 0)
                 {
-                  width--;
                   if (count < size)
-                    *str++ = pad;
+                    *str++ = ' ';
                   count++;
                 }
               break;
@@ -271,5 +288,7 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
   va_end (ap);
   if (count < size)
     *str = 0;
+  else if (size > 0)
+    str[-1] = 0;
   return count;
 }
-- 
2.43.0


From 92edf233d07bd053116d439d241b8cbc002dfdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:28:34 +0000
Subject: [PATCH 070/128] fix: vsscanf: match literals and blanks, stop at a
 mismatch, EOF, %l, base of %i.

---
 lib/stdio/vsscanf.c | 45 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/lib/stdio/vsscanf.c b/lib/stdio/vsscanf.c
index 4573bc0..5f7e6a8 100644
--- a/lib/stdio/vsscanf.c
+++ b/lib/stdio/vsscanf.c
@@ -31,22 +31,42 @@ vsscanf (char const *s, char const *template, va_list ap)
   char *p = (char *) s;
   char const *t = template;
   int count = 0;
-  while (*t && *p)
-    if (*t != '%')
+  int long_p;
+  while (*t)
+    if (isspace (*t))
       {
         t++;
+        while (isspace (*p))
+          p++;
+      }
+    else if (*t != '%')
+      {
+        if (*t != *p)
+          break;
+        t++;
         p++;
       }
     else
       {
         t++;
         char c = *t;
+        long_p = 0;
         if (c == 'l')
-          c = *++t;
+          {
+            long_p = 1;
+            c = *++t;
+          }
+        if (c != 'c')
+          while (isspace (*p))
+            p++;
+        if (!*p)
+          break;
         switch (c)
           {
           case '%':
             {
+              if (*p != '%')
+                return count;
               p++;
               break;
             }
@@ -61,8 +81,21 @@ vsscanf (char const *s, char const *template, va_list ap)
           case 'i':
           case 'u':
             {
-              int *d = va_arg (ap, int *);
-              *d = abtol ((char const **)&p, 10);
+              char *q = p;
+              long i = strtol (p, &q, c == 'i' ? 0 : 10);
+              if (q == p)
+                return count;
+              p = q;
+              if (long_p)
+                {
+                  long *l = va_arg (ap, long *);
+                  *l = i;
+                }
+              else
+                {
+                  int *d = va_arg (ap, int *);
+                  *d = i;
+                }
               count++;
               break;
             }
@@ -89,5 +122,7 @@ vsscanf (char const *s, char const *template, va_list ap)
         t++;
       }
   va_end (ap);
+  if (*t && !*p && count == 0)
+    return EOF;
   return count;
 }
-- 
2.43.0


From 39a1764a26bf7ea505fa1a4905d41a82c86e0819 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:29:04 +0000
Subject: [PATCH 071/128] fix: vfscanf: match literals and blanks, stop at a
 mismatch, keep the character after a number, EOF, %l, base of %i.

---
 lib/stdio/vfscanf.c | 91 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 74 insertions(+), 17 deletions(-)

diff --git a/lib/stdio/vfscanf.c b/lib/stdio/vfscanf.c
index b1083a5..1fdf047 100644
--- a/lib/stdio/vfscanf.c
+++ b/lib/stdio/vfscanf.c
@@ -22,30 +22,53 @@
 #include <ctype.h>
 #include <stdarg.h>
 #include <stdio.h>
+#include <stdlib.h>
 
 int
 vfscanf (FILE * stream, char const *template, va_list ap)
 {
-  char p = fgetc (stream);
+  int p = fgetc (stream);
   char const *t = template;
   int count = 0;
-  while (*t && p != EOF)
-    if (*t != '%')
+  int long_p;
+  int match_p = 1;
+  while (*t && match_p)
+    if (isspace (*t))
       {
         t++;
+        while (isspace (p))
+          p = fgetc (stream);
+      }
+    else if (*t != '%')
+      {
+        if ((*t & 0xff) != p)
+          break;
+        t++;
         p = fgetc (stream);
       }
     else
       {
         t++;
         char c = *t;
+        long_p = 0;
         if (c == 'l')
-          c = *++t;
+          {
+            long_p = 1;
+            c = *++t;
+          }
+        if (c != 'c')
+          while (isspace (p))
+            p = fgetc (stream);
+        if (p == EOF)
+          break;
         switch (c)
           {
           case '%':
             {
-              p = fgetc (stream);
+              if (p != '%')
+                match_p = 0;
+              else
+                p = fgetc (stream);
               break;
             }
           case 'c':
@@ -60,24 +83,53 @@ vfscanf (FILE * stream, char const *template, va_list ap)
           case 'i':
           case 'u':
             {
-              int *d = va_arg (ap, int *);
-              char buf[20];
+              char buf[80];
               char *q = buf;
+              char *e;
+              long i;
+              int base = c == 'i' ? 0 : 10;
               if (p == '+' || p == '-')
                 {
                   *q++ = p;
                   p = fgetc (stream);
                 }
-              while (isdigit (p))
+              if (base == 0 && p == '0')
                 {
+                  base = 8;
                   *q++ = p;
                   p = fgetc (stream);
+                  if (p == 'x' || p == 'X')
+                    {
+                      base = 16;
+                      p = fgetc (stream);
+                    }
+                }
+              else if (base == 0)
+                base = 10;
+              while (isnumber (p, base))
+                {
+                  if (q < buf + 79)
+                    *q++ = p;
+                  p = fgetc (stream);
                 }
-              ungetc (p, stream);
               *q = 0;
-              q = buf;
-              *d = abtol (&q, 10);
-              count++;
+              i = strtol (buf, &e, base);
+              if (e == buf)
+                match_p = 0;
+              else
+                {
+                  if (long_p)
+                    {
+                      long *l = va_arg (ap, long *);
+                      *l = i;
+                    }
+                  else
+                    {
+                      int *d = va_arg (ap, int *);
+                      *d = i;
+                    }
+                  count++;
+                }
               break;
             }
           case 'e':
@@ -87,19 +139,19 @@ vfscanf (FILE * stream, char const *template, va_list ap)
           case 'G':
             {
               float *f = va_arg (ap, float *);
-              char buf[20];
+              char buf[80];
               char *q = buf;
               if (p == '+' || p == '-')
                 {
                   *q++ = p;
                   p = fgetc (stream);
                 }
-              while (isdigit (p))
+              while (isdigit (p) || p == '.')
                 {
-                  *q++ = p;
+                  if (q < buf + 79)
+                    *q++ = p;
                   p = fgetc (stream);
                 }
-              ungetc (p, stream);
               *q = 0;
               q = buf;
               *f = strtod (q, &q);
@@ -115,8 +167,13 @@ vfscanf (FILE * stream, char const *template, va_list ap)
               p = fgetc (stream);
             }
           }
-        t++;
+        if (match_p)
+          t++;
       }
   va_end (ap);
+  if (p != EOF)
+    ungetc (p, stream);
+  else if (*t && count == 0)
+    return EOF;
   return count;
 }
-- 
2.43.0


From 18678b9fb88afbc3a7aa8ae0805b660e0716c4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:31:32 +0000
Subject: [PATCH 072/128] fix: MesCC: a parameter declared as array is a
 pointer.

---
 module/mescc/compile.scm | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 99128ec..ee960bf 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -2645,9 +2645,11 @@
     ((param-decl (decl-spec-list (type-spec ,type)) (param-declr (ptr-declr ,pointer (ident ,name))))
      (let ((rank (pointer->rank pointer)))
        (rank+= (ast->type type info) rank)))
-    ((param-decl (decl-spec-list ,type) (param-declr (ptr-declr ,pointer (array-of _))))
+    ((param-decl (decl-spec-list ,type) (param-declr (ptr-declr ,pointer (array-of . _))))
      (let ((rank (pointer->rank pointer)))
        (rank+= (ast->type type info) (1+ rank))))
+    ((param-decl (decl-spec-list ,type) (param-declr (array-of (ident ,name) . _)))
+     (rank+= (ast->type type info) 1))
     ((param-decl ,type _) (ast->type type info))
     (_ (error "param-decl:get-type not supported:" o))))
 
-- 
2.43.0


From 32ce651112084c562fbd5374ba832e621e455a3c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:37:33 +0000
Subject: [PATCH 073/128] fix: malloc: return NULL when memory cannot be had.

---
 lib/linux/malloc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/linux/malloc.c b/lib/linux/malloc.c
index ea609d5..1bf8025 100644
--- a/lib/linux/malloc.c
+++ b/lib/linux/malloc.c
@@ -34,7 +34,8 @@ malloc (size_t size)
   /* align what we give back. */
   __brk = (char*) (((uintptr_t) __brk
                     + sizeof (max_align_t) - 1) & -sizeof (max_align_t));
-  if (brk (__brk + size) == -1)
+  /* The system call answers with the old break when it fails. */
+  if (brk (__brk + size) != (long) (__brk + size))
     return 0;
   char *p = __brk;
   __brk = __brk + size;
-- 
2.43.0


From 34849f83d0385e1a7fe1ffa7e4940c3021a5aa46 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:37:33 +0000
Subject: [PATCH 074/128] fix: calloc: check for overflow and for lack of
 memory.

---
 lib/stdlib/calloc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/stdlib/calloc.c b/lib/stdlib/calloc.c
index 1a10618..f0f6efb 100644
--- a/lib/stdlib/calloc.c
+++ b/lib/stdlib/calloc.c
@@ -25,7 +25,10 @@ void *
 calloc (size_t nmemb, size_t size)
 {
   size_t count = nmemb * size;
+  if (size && count / size != nmemb)
+    return 0;
   void *p = malloc (count);
-  memset (p, 0, count);
+  if (p)
+    memset (p, 0, count);
   return p;
 }
-- 
2.43.0


From aba29cece80d3ac92cfc4c12169f630b954901ae Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:37:33 +0000
Subject: [PATCH 075/128] fix: qsort: partition with equal elements, recurse on
 the two parts only; size_t indices.

---
 lib/stdlib/qsort.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/stdlib/qsort.c b/lib/stdlib/qsort.c
index 68352f5..96cca40 100644
--- a/lib/stdlib/qsort.c
+++ b/lib/stdlib/qsort.c
@@ -54,10 +54,8 @@ qpart (void *base, size_t count, size_t size, int (*compare) (void const *, void
 #endif
           i++;
         }
-      else if (c == 0)
-        i++;
     }
-  if (compare (base + count * size, base + i * size) < 0)
+  if (i != count)
     qswap (base + i * size, base + count * size, size);
   return i;
 }
@@ -67,10 +65,10 @@ qsort (void *base, size_t count, size_t size, int (*compare) (void const *, void
 {
   if (count > 1)
     {
-      int p = qpart (base, count - 1, size, compare);
+      size_t p = qpart (base, count - 1, size, compare);
       qsort (base, p, size, compare);
 #if 1                           //__x86_64__
-      qsort (base + p * size, count - p, size, compare);
+      qsort (base + (p + 1) * size, count - p - 1, size, compare);
 #else
       int p1 = base + p * size;
       int p2 = count - p;
-- 
2.43.0


From c0e6f1bb1e00f83766508d6d03d7d2bd1d28292f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:37:33 +0000
Subject: [PATCH 076/128] fix: setenv: honour overwrite, room for a new
 variable, no write behind the entry.

---
 lib/posix/setenv.c | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/lib/posix/setenv.c b/lib/posix/setenv.c
index 321a5ab..60fe55f 100644
--- a/lib/posix/setenv.c
+++ b/lib/posix/setenv.c
@@ -42,15 +42,37 @@ setenv (char const *s, char const *v, int overwrite_p)
         }
       p = p + M2_PTR_SIZE;
     }
+  if (p[0] != 0 && overwrite_p == 0)
+    return 0;
   char *entry = malloc (length + strlen (v) + 2);
-  int end_p = p[0] == 0;
-  p[0] = entry;
   strcpy (entry, s);
   strcpy (entry + length, "=");
   strcpy (entry + length + 1, v);
-  entry[length + strlen (v) + 2] = 0;
-  if (end_p != 0)
-    p[1] = 0;
+  if (p[0] == 0)
+    {
+      /* The vector has no room for one more. */
+      int count = 0;
+      p = environ;
+      while (p[0] != 0)
+        {
+          count = count + 1;
+          p = p + M2_PTR_SIZE;
+        }
+      char **e = malloc ((count + 2) * sizeof (char *));
+      count = 0;
+      p = environ;
+      while (p[0] != 0)
+        {
+          e[count] = p[0];
+          count = count + 1;
+          p = p + M2_PTR_SIZE;
+        }
+      e[count] = entry;
+      e[count + 1] = 0;
+      environ = e;
+    }
+  else
+    p[0] = entry;
 
   return 0;
 }
-- 
2.43.0


From 74d49f75907e6f11bd85871c26c31210dce77e57 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:37:33 +0000
Subject: [PATCH 077/128] fix: unsetenv: look at the variable that took the
 place of a removed one.

---
 lib/posix/unsetenv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/posix/unsetenv.c b/lib/posix/unsetenv.c
index 726f626..efc186f 100644
--- a/lib/posix/unsetenv.c
+++ b/lib/posix/unsetenv.c
@@ -36,6 +36,7 @@ unsetenv (char const *name)
           while (*q++)
             q[0] = q[1];
         }
-      p++;
+      else
+        p++;
     }
 }
-- 
2.43.0


From 4ed1289dc7fb4045071446476108a00227e8f27f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:38:30 +0000
Subject: [PATCH 078/128] fix: malloc: a size that wraps around is too large.

---
 lib/linux/malloc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/linux/malloc.c b/lib/linux/malloc.c
index 1bf8025..fc04b39 100644
--- a/lib/linux/malloc.c
+++ b/lib/linux/malloc.c
@@ -35,7 +35,8 @@ malloc (size_t size)
   __brk = (char*) (((uintptr_t) __brk
                     + sizeof (max_align_t) - 1) & -sizeof (max_align_t));
   /* The system call answers with the old break when it fails. */
-  if (brk (__brk + size) != (long) (__brk + size))
+  if ((uintptr_t) __brk + size < (uintptr_t) __brk
+      || brk (__brk + size) != (long) (__brk + size))
     return 0;
   char *p = __brk;
   __brk = __brk + size;
-- 
2.43.0


From 274ae1ac64695ac6be039c6a1b1d44ff61599219 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:46:30 +0000
Subject: [PATCH 079/128] fix: struct stat for x86_64: follow the kernel.

---
 include/sys/stat.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sys/stat.h b/include/sys/stat.h
index 0aefa28..f77e2cd 100644
--- a/include/sys/stat.h
+++ b/include/sys/stat.h
@@ -63,10 +63,11 @@ struct stat
 {
   unsigned long  st_dev;
   unsigned long  st_ino;
+  unsigned long  st_nlink;
   unsigned int   st_mode;
-  unsigned int   st_nlink;
   unsigned int   st_uid;
   unsigned int   st_gid;
+  unsigned int   __pad0;
   unsigned long  st_rdev;
   long           st_size;
   unsigned long  st_blksize;
@@ -79,6 +80,7 @@ struct stat
   unsigned long  st_ctime_usec;
   unsigned long  __foo0;
   unsigned long  __foo1;
+  unsigned long  __foo2;
 };
 #endif
 // *INDENT-ON*
-- 
2.43.0


From ae055127098a6069209ba14936223e052f6ebd11 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:47:53 +0000
Subject: [PATCH 080/128] fix: read, write, close: no access outside the
 buffers for a bad descriptor.

---
 lib/mes/__buffered_read.c | 4 ++++
 lib/mes/fdgetc.c          | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/lib/mes/__buffered_read.c b/lib/mes/__buffered_read.c
index bac1f30..ecca44d 100644
--- a/lib/mes/__buffered_read.c
+++ b/lib/mes/__buffered_read.c
@@ -62,6 +62,8 @@ __buffered_read_init (int filedes)
 size_t
 __buffered_read_clear (int filedes)
 {
+  if (filedes < 0 || filedes >= __FILEDES_MAX)
+    return 0;
   __buffered_read_init (filedes);
   size_t size = __read_cache[filedes].size;
   __read_cache[filedes].size = 0;
@@ -72,6 +74,8 @@ ssize_t
 __buffered_read (int filedes, void *buffer, size_t size)
 {
   size_t todo = size;
+  if (filedes < 0 || filedes >= __FILEDES_MAX)
+    return _read (filedes, buffer, size);
   __buffered_read_init (filedes);
   struct __read_buffer *cache = &__read_cache[filedes];
   char *p = buffer;
diff --git a/lib/mes/fdgetc.c b/lib/mes/fdgetc.c
index e5c63a7..d18d626 100644
--- a/lib/mes/fdgetc.c
+++ b/lib/mes/fdgetc.c
@@ -33,6 +33,8 @@ __ungetc_p (int filedes)
 {
   if (__ungetc_buf == 0)
     __ungetc_init ();
+  if (filedes < 0 || filedes > __FILEDES_MAX)
+    return 0;
   return __ungetc_buf[filedes] >= 0;
 }
 
@@ -53,6 +55,8 @@ __ungetc_clear (int filedes)
 {
   if (__ungetc_buf == 0)
     __ungetc_init ();
+  if (filedes < 0 || filedes > __FILEDES_MAX)
+    return;
   __ungetc_buf[filedes] = -1;
 }
 
@@ -61,6 +65,8 @@ __ungetc_set (int filedes, int c)
 {
   if (__ungetc_buf == 0)
     __ungetc_init ();
+  if (filedes < 0 || filedes > __FILEDES_MAX)
+    return;
   __ungetc_buf[filedes] = c;
 }
 
@@ -70,6 +76,9 @@ fdgetc (int fd)
   if (__ungetc_buf == 0)
     __ungetc_init ();
 
+  if (fd < 0 || fd > __FILEDES_MAX)
+    return -1;
+
   char c;
   int i = __ungetc_buf[fd];
   if (i >= 0)
-- 
2.43.0


From 8ebda793a6a36c476d3c45eaf175498b39d8f620 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:48:48 +0000
Subject: [PATCH 081/128] fix: va_start: arguments after one that is smaller
 than a word.

---
 include/stdarg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdarg.h b/include/stdarg.h
index 6a8fee6..228db5e 100644
--- a/include/stdarg.h
+++ b/include/stdarg.h
@@ -35,7 +35,7 @@
 #endif
 
 typedef char *va_list;
-#define va_start(ap, last) (void)((ap) = (char*)(&(last) + 1))
+#define va_start(ap, last) (void)((ap) = ((char*)(&(last))) + sizeof (void*))
 #define va_arg(ap, type) (type)(((long*)((ap) = ((ap) + sizeof (void*))))[-1])
 #define va_align(ap, alignment) ((char*)((((unsigned long) (ap)) + (alignment) - 1) &~ ((alignment) - 1)))
 #define va_arg8(ap, type) (type)(((double*)((ap) = (va_align((ap), 8) + sizeof(double))))[-1])
-- 
2.43.0


From c490758e7a8d79cdfa3901d5e5a004b7b27d3a61 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:50:33 +0000
Subject: [PATCH 082/128] fix: remove: a symbolic link, not what it points to.

---
 include/sys/stat.h | 1 +
 lib/stdio/remove.c | 9 ++++-----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/sys/stat.h b/include/sys/stat.h
index f77e2cd..ad9eedc 100644
--- a/include/sys/stat.h
+++ b/include/sys/stat.h
@@ -90,6 +90,7 @@ int fstat (int filedes, struct stat *buf);
 int mkdir (char const *file_name, mode_t mode);
 int mknod (char const *file_name, mode_t mode, dev_t dev);
 int chown (char const *file_name, uid_t owner, gid_t group);
+int lstat (char const *file_name, struct stat *buf);
 int rmdir (char const *file_name);
 int stat (char const *file_name, struct stat *buf);
 
diff --git a/lib/stdio/remove.c b/lib/stdio/remove.c
index ebc7c93..f939aad 100644
--- a/lib/stdio/remove.c
+++ b/lib/stdio/remove.c
@@ -18,6 +18,7 @@
  * along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <errno.h>
 #include <stdio.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -25,10 +26,8 @@
 int
 remove (char const *file_name)
 {
-  struct stat buf;
-  if (stat (file_name, &buf) < 0)
-    return -1;
-  if (S_ISDIR (buf.st_mode))
+  int r = unlink (file_name);
+  if (r < 0 && errno == EISDIR)
     return rmdir (file_name);
-  return unlink (file_name);
+  return r;
 }
-- 
2.43.0


From 213261c175a2769a01cd1e892e4859df5ca9579e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 083/128] fix: lseek: a failing call leaves the position and
 the data read ahead alone.

---
 lib/linux/lseek.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/linux/lseek.c b/lib/linux/lseek.c
index f71af59..db5929c 100644
--- a/lib/linux/lseek.c
+++ b/lib/linux/lseek.c
@@ -19,28 +19,32 @@
  */
 
 #include <mes/lib.h>
+#include <errno.h>
 #include <linux/syscall.h>
 #include <syscall.h>
 #include <stdio.h>
 #include <sys/types.h>
 
-#if !__MESC__ /* FIXME: We want bin/mes-mescc's x86-linux sha256sum to stay the same. */
 off_t
 _lseek (int filedes, off_t offset, int whence)
 {
   return _sys_call3 (SYS_lseek, (int) filedes, (long) offset, (int) whence);
 }
-#endif
 
 off_t
 lseek (int filedes, off_t offset, int whence)
 {
-#if !__MESC__ /* FIXME: We want bin/mes-mescc's x86-linux sha256sum to stay the same. */
   if (_lseek (filedes, 0, SEEK_CUR) == -1)
     return -1;
-#endif
-  size_t skip = __buffered_read_clear (filedes);
+  long skip = __buffered_read_clear (filedes);
   if (whence == SEEK_CUR)
     offset -= skip;
-  return _sys_call3 (SYS_lseek, (int) filedes, (long) offset, (int) whence);
+  off_t pos = _lseek (filedes, offset, whence);
+  if (pos == -1 && skip)
+    {
+      int save_errno = errno;
+      _lseek (filedes, 0 - skip, SEEK_CUR);
+      errno = save_errno;
+    }
+  return pos;
 }
-- 
2.43.0


From 744c1d65f5bfc67099e1bc7e700cbf66a1b6f8ed Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:55:29 +0000
Subject: [PATCH 084/128] fix: fopen: truncate for w+, append to a new file, r+
 needs a file, a is not for reading.

---
 lib/stdio/fopen.c | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/lib/stdio/fopen.c b/lib/stdio/fopen.c
index 3164c11..fc30ff5 100644
--- a/lib/stdio/fopen.c
+++ b/lib/stdio/fopen.c
@@ -40,21 +40,16 @@ fopen (char const *file_name, char const *opentype)
 
   int fd;
   int mode = 0600;
-  if ((opentype[0] == 'a' || !strcmp (opentype, "r+")) && !access (file_name, O_RDONLY))
-    {
-      int flags = O_RDWR;
-      if (opentype[0] == 'a')
-        flags |= O_APPEND;
-      fd = _open3 (file_name, flags, mode);
-    }
-  else if (opentype[0] == 'w' || opentype[0] == 'a' || !strcmp (opentype, "r+"))
-    {
-      char *plus_p = strchr (opentype, '+');
-      int flags = plus_p ? O_RDWR | O_CREAT : O_WRONLY | O_CREAT | O_TRUNC;
-      fd = _open3 (file_name, flags, mode);
-    }
-  else
-    fd = _open3 (file_name, O_RDONLY, 0);
+  int flags = O_RDONLY;
+  if (strchr (opentype, '+'))
+    flags = O_RDWR;
+  else if (opentype[0] != 'r')
+    flags = O_WRONLY;
+  if (opentype[0] == 'w')
+    flags |= O_CREAT | O_TRUNC;
+  else if (opentype[0] == 'a')
+    flags |= O_CREAT | O_APPEND;
+  fd = _open3 (file_name, flags, mode);
 
   if (__mes_debug ())
     {
-- 
2.43.0


From cb67b67536e2a634b1639bf1c34c1f13d7dede3f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:55:38 +0000
Subject: [PATCH 085/128] fix: fread: read until count objects, end of file or
 error; a character pushed back.

---
 lib/stdio/fread.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/lib/stdio/fread.c b/lib/stdio/fread.c
index 505700c..108ed45 100644
--- a/lib/stdio/fread.c
+++ b/lib/stdio/fread.c
@@ -38,17 +38,22 @@ fread (void *data, size_t size, size_t count, FILE * stream)
   size_t todo = size * count;
   char *buf = (char *) data;
 
-  int bytes = 0;
-  while (__fungetc_p (stream) && todo-- && ++bytes)
-    *buf++ = fgetc (stream);
+  size_t bytes = 0;
+  while (todo && __fungetc_p (stream))
+    {
+      *buf++ = fgetc (stream);
+      todo--;
+      bytes++;
+    }
   int filedes = (long) stream;
-  if (todo)
+  while (todo)
     {
-      int r = read (filedes, buf, todo);
-      if (r < 0 && !bytes)
-        bytes = r;
-      else
-        bytes += r;
+      ssize_t r = read (filedes, buf, todo);
+      if (r <= 0)
+        break;
+      buf += r;
+      todo -= r;
+      bytes += r;
     }
 
   if (__mes_debug ())
@@ -62,7 +67,7 @@ fread (void *data, size_t size, size_t count, FILE * stream)
       if (bytes > 0 && bytes < sizeof (debug_buf))
         {
           strncpy (debug_buf, data, bytes);
-          buf[bytes] = 0;
+          debug_buf[bytes] = 0;
           eputs ("fread buf=");
           eputs (debug_buf);
           eputs ("\n");
-- 
2.43.0


From dff5412d4f3121680212d772d13be398e607514c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:55:38 +0000
Subject: [PATCH 086/128] fix: fseek, ftell: a character pushed back.

---
 lib/stdio/fseek.c | 4 ++++
 lib/stdio/ftell.c | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/stdio/fseek.c b/lib/stdio/fseek.c
index ce468ab..a136d80 100644
--- a/lib/stdio/fseek.c
+++ b/lib/stdio/fseek.c
@@ -26,7 +26,11 @@ int
 fseek (FILE * stream, long offset, int whence)
 {
   int filedes = (long) stream;
+  if (whence == SEEK_CUR && __ungetc_p (filedes))
+    offset--;
   off_t pos = lseek (filedes, offset, whence);
+  if (pos >= 0)
+    __ungetc_clear (filedes);
   if (__mes_debug ())
     {
       eputs ("fread fd=");
diff --git a/lib/stdio/ftell.c b/lib/stdio/ftell.c
index aa8ddd3..a120149 100644
--- a/lib/stdio/ftell.c
+++ b/lib/stdio/ftell.c
@@ -18,6 +18,7 @@
  * along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <mes/lib.h>
 #include <fcntl.h>
 #include <stdio.h>
 #include <unistd.h>
@@ -25,5 +26,9 @@
 long
 ftell (FILE * stream)
 {
-  return lseek ((int) (long) stream, 0, SEEK_CUR);
+  int filedes = (long) stream;
+  long pos = lseek (filedes, 0, SEEK_CUR);
+  if (pos > 0 && __ungetc_p (filedes))
+    pos--;
+  return pos;
 }
-- 
2.43.0


From d947998093230daecbcd5afdbab39d48e65c99b2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:55:38 +0000
Subject: [PATCH 087/128] fix: perror: message first.

---
 lib/stdio/perror.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/stdio/perror.c b/lib/stdio/perror.c
index 3db9bb2..4f3444e 100644
--- a/lib/stdio/perror.c
+++ b/lib/stdio/perror.c
@@ -26,5 +26,5 @@
 void
 perror (char const *message)
 {
-  fprintf (stderr, "%s: %s\n", strerror (errno), message);
+  fprintf (stderr, "%s: %s\n", message, strerror (errno));
 }
-- 
2.43.0


From fb2b5ba0d92823224c993addbbaad455c27d68ac Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:56:40 +0000
Subject: [PATCH 088/128] fix: fputc, putchar, fputs, puts: return the
 character written, and EOF upon failure.

---
 lib/mes/fdputc.c    | 5 +++--
 lib/mes/fdputs.c    | 3 ++-
 lib/mes/oputs.c     | 3 ++-
 lib/stdio/putchar.c | 5 +++--
 lib/stdlib/puts.c   | 3 ++-
 5 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/lib/mes/fdputc.c b/lib/mes/fdputc.c
index 87c1b80..51301fc 100644
--- a/lib/mes/fdputc.c
+++ b/lib/mes/fdputc.c
@@ -24,6 +24,7 @@ int
 fdputc (int c, int fd)
 {
   char *p = cast_intp_to_charp (&c);
-  write (fd, p, 1);
-  return 0;
+  if (write (fd, p, 1) < 1)
+    return -1;
+  return c & 255;
 }
diff --git a/lib/mes/fdputs.c b/lib/mes/fdputs.c
index 7c6d4ab..a291ae5 100644
--- a/lib/mes/fdputs.c
+++ b/lib/mes/fdputs.c
@@ -25,6 +25,7 @@ int
 fdputs (char const *s, int fd)
 {
   int i = strlen (s);
-  write (fd, s, i);
+  if (write (fd, s, i) < i)
+    return -1;
   return 0;
 }
diff --git a/lib/mes/oputs.c b/lib/mes/oputs.c
index cc00528..c24e8c0 100644
--- a/lib/mes/oputs.c
+++ b/lib/mes/oputs.c
@@ -25,6 +25,7 @@ int
 oputs (char const *s)
 {
   int i = strlen (s);
-  write (__stdout, s, i);
+  if (write (__stdout, s, i) < i)
+    return -1;
   return 0;
 }
diff --git a/lib/stdio/putchar.c b/lib/stdio/putchar.c
index 2ca347f..c17d056 100644
--- a/lib/stdio/putchar.c
+++ b/lib/stdio/putchar.c
@@ -25,6 +25,7 @@ int
 putchar (int c)
 {
   char *p = cast_intp_to_charp (&c);
-  write (__stdout, p, 1);
-  return 0;
+  if (write (__stdout, p, 1) < 1)
+    return -1;
+  return c & 255;
 }
diff --git a/lib/stdlib/puts.c b/lib/stdlib/puts.c
index fea5dff..a6ed1ed 100644
--- a/lib/stdlib/puts.c
+++ b/lib/stdlib/puts.c
@@ -23,6 +23,7 @@
 int
 puts (char const *s)
 {
-  oputs (s);
+  if (oputs (s) < 0)
+    return -1;
   return oputs ("\n");
 }
-- 
2.43.0


From 4e380b234be9c636638f10c03050c4afb18df487 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:40:11 +0000
Subject: [PATCH 089/128] fix: init_time did not return the environment it
 extends

---
 src/posix.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/posix.c b/src/posix.c
index 9d3b725..3fbf05d 100644
--- a/src/posix.c
+++ b/src/posix.c
@@ -400,6 +400,7 @@ init_time (struct scm *a)               /*:((internal)) */
 {
   clock_gettime (CLOCK_PROCESS_CPUTIME_ID, g_start_time);
   a = acons (cell_symbol_internal_time_units_per_second, make_number (TIME_UNITS_PER_SECOND), a);
+  return a;
 }
 
 struct scm *
-- 
2.43.0


From 286830d03d55e3477de2e28d2e97024178be74eb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:40:11 +0000
Subject: [PATCH 090/128] fix: the printers of frames, hash tables, modules and
 builtins returned no value

---
 src/builtins.c | 1 +
 src/hash.c     | 1 +
 src/module.c   | 1 +
 src/stack.c    | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/builtins.c b/src/builtins.c
index c4ebb92..c5ac231 100644
--- a/src/builtins.c
+++ b/src/builtins.c
@@ -95,6 +95,7 @@ builtin_printer (struct scm *builtin)
         }
     }
   fdputc ('>', __stdout);
+  return cell_unspecified;
 }
 
 struct scm *
diff --git a/src/hash.c b/src/hash.c
index e1e3089..8097a2d 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -170,6 +170,7 @@ hash_table_printer (struct scm *table)
         }
     }
   fdputc ('>', __stdout);
+  return cell_unspecified;
 }
 
 struct scm *
diff --git a/src/module.c b/src/module.c
index 98c382f..101f260 100644
--- a/src/module.c
+++ b/src/module.c
@@ -81,6 +81,7 @@ module_printer (struct scm *module)
   fdputs ("globals:\n  ", __stdout);
   display_ (table);
   fdputc ('>', __stdout);
+  return cell_unspecified;
 }
 
 struct scm *
diff --git a/src/stack.c b/src/stack.c
index 02d58f7..5ba8c3b 100644
--- a/src/stack.c
+++ b/src/stack.c
@@ -33,6 +33,7 @@ frame_printer (struct scm *frame)
   fdputs ("procedure: ", __stdout);
   display_ (struct_ref_ (frame, 3));
   fdputc ('>', __stdout);
+  return cell_unspecified;
 }
 
 struct scm *
-- 
2.43.0


From 70a9f17f38c8d48cdd74581a916acf28636a40e9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:40:11 +0000
Subject: [PATCH 091/128] fix: with-output-to-string captured what went to
 another port made current inside it

---
 mes/module/mes/simple-format.mes | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mes/module/mes/simple-format.mes b/mes/module/mes/simple-format.mes
index 8b57e15..778f93d 100644
--- a/mes/module/mes/simple-format.mes
+++ b/mes/module/mes/simple-format.mes
@@ -24,10 +24,11 @@
 
 (define (with-output-to-string thunk)
   (define save-write-byte write-byte)
-  (let ((stdout '()))
+  (let ((stdout '())
+        (stdout-port (current-output-port)))
     (set! write-byte
           (lambda (x . rest)
-            (let ((out? (or (null? rest) (eq? (car rest) (current-output-port)))))
+            (let ((out? (eq? (if (null? rest) (current-output-port) (car rest)) stdout-port)))
               (if (not out?) (apply save-write-byte (cons x rest))
                   (begin
                     (set! stdout (append stdout (list (integer->char x))))
-- 
2.43.0


From 08fa05074d4bc2a02e2c6bca4a870b3728d5455b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:40:11 +0000
Subject: [PATCH 092/128] fix: -c did not stop argument processing, and -s
 among the arguments of a script was taken as an option

---
 mes/module/mes/boot-0.scm | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/mes/module/mes/boot-0.scm b/mes/module/mes/boot-0.scm
index 1a3d370..68e1958 100644
--- a/mes/module/mes/boot-0.scm
+++ b/mes/module/mes/boot-0.scm
@@ -220,10 +220,23 @@
               (version (single-char #\v))
               (version (single-char #\V)))))
       (getopt-long args option-spec #:stop-at-first-non-option #t)))
-  (define (source-arg? o)
-    (equal? "-s" o))
-  (let* ((s-index (list-index source-arg? %argv))
-         (args (if s-index (list-head %argv (+ s-index 2)) %argv))
+  (define (option-argument? o)
+    (member o '("-C" "-L" "-e" "--compiled-path" "--load-path" "--main")))
+  ;; Index of the -s or -c that stops argument processing, if any.
+  (define (stop-index args i)
+    (and (pair? args)
+         (let ((arg (car args)))
+           (cond ((or (equal? arg "-s") (equal? arg "-c")) i)
+                 ((or (equal? arg "--") (equal? arg "-")) #f)
+                 ((not (string-prefix? "-" arg)) #f)
+                 ((and (option-argument? arg) (pair? (cdr args)))
+                  (stop-index (cddr args) (+ i 2)))
+                 (else (stop-index (cdr args) (1+ i)))))))
+  (let* ((index (stop-index (cdr %argv) 1))
+         (s-index (and index (equal? (list-ref %argv index) "-s") index))
+         (rest (if (and index (pair? (list-tail %argv (1+ index)))) (list-tail %argv (+ index 2))
+                   '()))
+         (args (if (pair? rest) (list-head %argv (+ index 2)) %argv))
          (options (parse-opts args))
          (command (option-ref options 'command #f))
          (main (option-ref options 'main #f))
@@ -273,6 +286,7 @@ General help using GNU software: <http://gnu.org/gethelp/>
       (let* ((prev (set-current-input-port (open-input-string command)))
              (expr (cons 'begin (read-input-file-env (current-module))))
              (set-current-input-port prev))
+        (set! %argv (cons (car %argv) rest))
         (primitive-eval expr)
         (exit 0)))
     (when main (set! %main main))
-- 
2.43.0


From 3f3efd189b044945f3e591ec026d860fe8fee348 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:45:06 +0000
Subject: [PATCH 093/128] fix: the system call numbers of setgid on x86 and of
 nanosleep on x86_64 were those of others

---
 include/linux/x86/syscall.h    | 2 +-
 include/linux/x86_64/syscall.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/linux/x86/syscall.h b/include/linux/x86/syscall.h
index 01c46a3..8aa615d 100644
--- a/include/linux/x86/syscall.h
+++ b/include/linux/x86/syscall.h
@@ -101,7 +101,7 @@
 #define SYS_setuid    0x17
 #define SYS_geteuid   0x31
 #define SYS_getegid   0x32
-#define SYS_setgid    0x3e
+#define SYS_setgid    0x2e
 #define SYS_getppid   0x40
 
 /* make+POSIX */
diff --git a/include/linux/x86_64/syscall.h b/include/linux/x86_64/syscall.h
index 36ef06b..734b250 100644
--- a/include/linux/x86_64/syscall.h
+++ b/include/linux/x86_64/syscall.h
@@ -66,7 +66,7 @@
 #define SYS_lstat     0x06
 #define SYS_setitimer 0x26
 #define SYS_fstat     0x05
-#define SYS_nanosleep 0x33
+#define SYS_nanosleep 0x23
 #define SYS_getdents  0x4e
 #define SYS_clock_gettime 0xe4
 
-- 
2.43.0


From d13f5d0c8e9b1fbdb6d6315a5c8a64e93d2a5bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:45:23 +0000
Subject: [PATCH 094/128] fix: longjmp returned to the wrong stack and with any
 value in a library built by gcc for x86_64

---
 lib/x86_64-mes-gcc/setjmp.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/x86_64-mes-gcc/setjmp.c b/lib/x86_64-mes-gcc/setjmp.c
index b274160..d277e7d 100644
--- a/lib/x86_64-mes-gcc/setjmp.c
+++ b/lib/x86_64-mes-gcc/setjmp.c
@@ -27,10 +27,11 @@ longjmp (jmp_buf env, int val)
   val = val == 0 ? 1 : val;
   // *INDENT-OFF*
   asm (
-       "mov    0x00(%rdi),%rbp\n\t"     // env->__bp
-       "mov    0x08(%rdi),%rbx\n\t"     // env->__pc
-       "mov    0x10(%rdi),%rsp\n\t"     // env->__sp
-       "jmp    *%rbx\n\t"               // jmp *PC
+       "mov    0x00(%0),%%rbp\n\t"      // env->__bp
+       "mov    0x10(%0),%%rsp\n\t"      // env->__sp
+       "jmp    *0x08(%0)\n\t"           // jmp *PC
+       : // no outputs ""
+       : "d" (env), "a" (val)
        );
   // *INDENT-ON*
   // not reached
@@ -47,8 +48,8 @@ setjmp (jmp_buf env)
        : //no inputs ""
        );
   // *INDENT-ON*
-  env[0].__bp = (long) p;
+  env[0].__bp = p[0];
   env[0].__pc = p[1];
-  env[0].__sp = p[0];
+  env[0].__sp = (long) (p + 2);
   return 0;
 }
-- 
2.43.0


From 5eb10fc47904d2860d203d655a2c45524974d2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:45:23 +0000
Subject: [PATCH 095/128] fix: execl and execlp passed the file name instead of
 their first argument

---
 include/stdarg.h   | 2 +-
 lib/posix/execl.c  | 6 ++----
 lib/posix/execlp.c | 2 +-
 3 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/stdarg.h b/include/stdarg.h
index 228db5e..93ebc50 100644
--- a/include/stdarg.h
+++ b/include/stdarg.h
@@ -42,7 +42,7 @@ typedef char *va_list;
 #define va_end(ap) (void)((ap) = 0)
 #define va_copy(dest, src) dest = src
 
-int vexec (char const *file_name, va_list ap);
+int vexec (char const *file_name, char *arg, va_list ap);
 int vfprintf (FILE * stream, char const *template, va_list ap);
 int vfscanf (FILE * stream, char const *template, va_list ap);
 int vprintf (char const *format, va_list ap);
diff --git a/lib/posix/execl.c b/lib/posix/execl.c
index 4513586..17df898 100644
--- a/lib/posix/execl.c
+++ b/lib/posix/execl.c
@@ -23,13 +23,11 @@
 #include <unistd.h>
 
 int
-vexec (char const *file_name, va_list ap)
+vexec (char const *file_name, char *arg, va_list ap)
 {
-  char *arg = va_arg (ap, char *);
   char *argv[1000];             // POSIX minimum 4096
   int i = 0;
 
-  argv[i++] = (char *) file_name;
   while (arg)
     {
       argv[i++] = arg;
@@ -61,7 +59,7 @@ execl (char const *file_name, char const *arg, ...)
       eputs (file_name);
       eputs ("\n");
     }
-  r = vexec (file_name, ap);
+  r = vexec (file_name, (char *) arg, ap);
   va_end (ap);
   return r;
 }
diff --git a/lib/posix/execlp.c b/lib/posix/execlp.c
index 904b586..c3eca22 100644
--- a/lib/posix/execlp.c
+++ b/lib/posix/execlp.c
@@ -42,7 +42,7 @@ execlp (char const *file_name, char const *arg, ...)
       errno = ENOENT;
       return -1;
     }
-  r = vexec (file_name, ap);
+  r = vexec (file_name, (char *) arg, ap);
   va_end (ap);
   return r;
 }
-- 
2.43.0


From d6891f945872312370d694ededf6f504fca0242c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:45:23 +0000
Subject: [PATCH 096/128] fix: raise did not return the result

---
 lib/posix/raise.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/posix/raise.c b/lib/posix/raise.c
index f693719..701be6a 100644
--- a/lib/posix/raise.c
+++ b/lib/posix/raise.c
@@ -24,5 +24,5 @@
 int
 raise (int signum)
 {
-  kill (getpid (), signum);
+  return kill (getpid (), signum);
 }
-- 
2.43.0


From f5454b518481311563940046c0dbb543a929afd3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:45:23 +0000
Subject: [PATCH 097/128] fix: signal returned SIG_DFL instead of SIG_ERR on
 failure, and blocked signals of earlier calls

---
 lib/linux/signal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/linux/signal.c b/lib/linux/signal.c
index 11174be..0b37fba 100644
--- a/lib/linux/signal.c
+++ b/lib/linux/signal.c
@@ -22,6 +22,7 @@
 #include <syscall.h>
 #include <unistd.h>
 #include <signal.h>
+#include <string.h>
 
 #if __i386__
 #else
@@ -43,6 +44,7 @@ signal (int signum, sighandler_t action)
   unsigned short bitindex;
   unsigned short itembitcount;
 
+  memset (&setup_action, 0, sizeof (setup_action));
   setup_action.sa_handler = action;
   /* The sa_restorer is not used.  Reason:
      * The kernel uses its own restorer anyway by pretending we gave one on
@@ -66,7 +68,7 @@ signal (int signum, sighandler_t action)
 #endif
   int r = _sys_call4 (SYS_rt_sigaction, signum, (long) &setup_action, (long) &old, sizeof (sigset_t));
   if (r)
-    return 0;
+    return SIG_ERR;
   return old.sa_handler;
 #endif
 }
-- 
2.43.0


From cdadc57d861cdd086eaae8f24f3efba30a112c09 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:45:23 +0000
Subject: [PATCH 098/128] fix: atexit remembered only the last function and
 returned no value

---
 lib/stdlib/atexit.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/lib/stdlib/atexit.c b/lib/stdlib/atexit.c
index 218ae85..c2ed430 100644
--- a/lib/stdlib/atexit.c
+++ b/lib/stdlib/atexit.c
@@ -21,8 +21,30 @@
 #include <mes/lib.h>
 #include <stdlib.h>
 
+#define __ATEXIT_MAX 32
+
+void *__atexit_functions[__ATEXIT_MAX];
+int __atexit_count;
+
+void
+__atexit_run (void)
+{
+  void (*function) (void);
+  while (__atexit_count > 0)
+    {
+      __atexit_count = __atexit_count - 1;
+      function = __atexit_functions[__atexit_count];
+      function ();
+    }
+}
+
 int
 atexit (void (*function) (void))
 {
-  __call_at_exit = function;
+  if (__atexit_count == __ATEXIT_MAX)
+    return -1;
+  __atexit_functions[__atexit_count] = function;
+  __atexit_count = __atexit_count + 1;
+  __call_at_exit = __atexit_run;
+  return 0;
 }
-- 
2.43.0


From 12d20224bdce9a7b1793e4bc1cb966e42ecc4324 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:45:23 +0000
Subject: [PATCH 099/128] fix: the program search read past the end of PATH,
 overran its buffer, and ignored empty elements

---
 lib/mes/search-path.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/lib/mes/search-path.c b/lib/mes/search-path.c
index afedf13..f55a98f 100644
--- a/lib/mes/search-path.c
+++ b/lib/mes/search-path.c
@@ -23,10 +23,12 @@
 #include <stdlib.h>
 #include <unistd.h>
 
+#define __SEARCH_PATH_MAX 4096
+
 char *
 search_path (char const *file_name)
 {
-  static char buf[256];
+  static char buf[__SEARCH_PATH_MAX];
   char *path = getenv ("PATH");
   if (__mes_debug ())
     {
@@ -34,20 +36,27 @@ search_path (char const *file_name)
       eputs (file_name);
       eputs ("\n");
     }
-  while (*path)
+  if (!path || file_name[0] == 0)
+    return 0;
+  while (path)
     {
       char *end = strchr (path, ':');
-      if (!end)
-        end = strchr (path, '\0');
-      strncpy (buf, path, end - path);
-      buf[end - path] = 0;
+      int length = end ? end - path : strlen (path);
+      char *element = path;
+      path = end ? end + 1 : 0;
+      if (length + strlen (file_name) + 2 > __SEARCH_PATH_MAX)
+        continue;
+      strncpy (buf, element, length);
+      buf[length] = 0;
       if (__mes_debug ())
         {
           eputs (" dir: ");
           eputs (buf);
           eputs ("\n");
         }
-      if (buf[end - path] != '/')
+      if (length == 0)
+        strcpy (buf, "./");
+      else if (buf[length - 1] != '/')
         strcat (buf, "/");
       strcat (buf, file_name);
       if (!access (buf, X_OK))
@@ -60,7 +69,6 @@ search_path (char const *file_name)
             }
           return buf;
         }
-      path = end + 1;
     }
   return 0;
 }
-- 
2.43.0


From 4afb5b5e12afe38c7d397ff5db01c3dbd511d077 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:47:27 +0000
Subject: [PATCH 100/128] fix: MesCC gave a parameter that is a pointer to a
 function the type of what the function returns

---
 module/mescc/compile.scm | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index ee960bf..3532f86 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -2650,6 +2650,8 @@
        (rank+= (ast->type type info) (1+ rank))))
     ((param-decl (decl-spec-list ,type) (param-declr (array-of (ident ,name) . _)))
      (rank+= (ast->type type info) 1))
+    ((param-decl (decl-spec-list ,type) (param-declr (ftn-declr (scope (ptr-declr ,pointer . _)) . _)))
+     (rank+= (ast->type type info) (pointer->rank pointer)))
     ((param-decl ,type _) (ast->type type info))
     (_ (error "param-decl:get-type not supported:" o))))
 
-- 
2.43.0


From e614cc32f88ed0ade8a8c912236294bb616abc5f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:47:27 +0000
Subject: [PATCH 101/128] fix: MesCC called the address of a global pointer to
 a function instead of the function

---
 module/mescc/compile.scm | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 3532f86..24c82b6 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -1065,7 +1065,9 @@
                               (fold-right expr->arg info expr-list (reverse (iota (length expr-list))))))
                     (info (clone info #:allocated '() #:pushed 0 #:registers (append (reverse allocated) registers)))
                     (n (length expr-list))
-                    (info (if (not (assoc-ref locals name))
+                    (info (if (and (not (assoc-ref locals name))
+                                   (or (assoc-ref (.functions info) name)
+                                       (not (assoc-ref globals name))))
                               (begin
                                 (when (and (not (assoc name (.functions info)))
                                            (not (assoc name globals))
-- 
2.43.0


From 9cf3f722b72dd179cafa5836f1c2930ab81e74b4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:26:02 +0000
Subject: [PATCH 102/128] fix: last-pair ran past the end of an improper list

---
 src/lib.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/lib.c b/src/lib.c
index facb948..331ed47 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -145,12 +145,10 @@ equal2:
 struct scm *
 last_pair (struct scm *x)
 {
-  while (x != cell_nil)
-    {
-      if (x->cdr == cell_nil)
-        return x;
-      x = x->cdr;
-    }
+  if (x->type != TPAIR)
+    return x;
+  while (x->cdr->type == TPAIR)
+    x = x->cdr;
   return x;
 }
 
-- 
2.43.0


From 665556948d1a423b61770f505a9f6375d41b5bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:26:02 +0000
Subject: [PATCH 103/128] fix: append, append-reverse and reverse! ran past the
 end of an improper list

---
 src/core.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core.c b/src/core.c
index 6e3914f..f2acc7b 100644
--- a/src/core.c
+++ b/src/core.c
@@ -177,6 +177,8 @@ append2 (struct scm *x, struct scm *y)
   struct scm *r = cell_nil;
   while (x != cell_nil)
     {
+      if (x->type != TPAIR)
+        error (cell_symbol_not_a_pair, cons (x, cstring_to_symbol ("append2")));
       r = cons (x->car, r);
       x = x->cdr;
     }
@@ -192,6 +194,8 @@ append_reverse (struct scm *x, struct scm *y)
     error (cell_symbol_not_a_pair, cons (x, cstring_to_symbol ("append-reverse")));
   while (x != cell_nil)
     {
+      if (x->type != TPAIR)
+        error (cell_symbol_not_a_pair, cons (x, cstring_to_symbol ("append-reverse")));
       y = cons (x->car, y);
       x = x->cdr;
     }
@@ -206,6 +210,8 @@ reverse_x_ (struct scm *x, struct scm *t)
   struct scm *r = t;
   while (x != cell_nil)
     {
+      if (x->type != TPAIR)
+        error (cell_symbol_not_a_pair, cons (x, cstring_to_symbol ("core:reverse!")));
       t = x->cdr;
       x->cdr = r;
       r = x;
-- 
2.43.0


From 7bf6c579064902beebaa74acf0c410de12d3a3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:26:02 +0000
Subject: [PATCH 104/128] fix: string-ref read one character past the end of
 the string

---
 src/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string.c b/src/string.c
index 5834dd2..2ebd9a5 100644
--- a/src/string.c
+++ b/src/string.c
@@ -231,7 +231,7 @@ string_ref (struct scm *str, struct scm *k)
   assert_msg (k->type == TNUMBER, "k->type == TNUMBER");
   size_t size = str->length;
   size_t i = k->value;
-  if (i > size)
+  if (i >= size)
     error (cell_symbol_system_error, cons (make_string0 ("value out of range"), k));
   char const *p = cell_bytes (str->string);
   return make_char (p[i]);
-- 
2.43.0


From 930f4751a0816f92b4361efc65c7a09ed1701d33 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:26:02 +0000
Subject: [PATCH 105/128] fix: vector-ref and vector-set! accepted a negative
 index

---
 src/vector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vector.c b/src/vector.c
index da9d947..d1888f0 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -68,6 +68,7 @@ struct scm *
 vector_ref_ (struct scm *x, long i)
 {
   assert_msg (x->type == TVECTOR, "x->type == TVECTOR");
+  assert_msg (i >= 0, "i >= 0");
   assert_msg (i < x->length, "i < x->length");
   struct scm *e = cell_ref (x->vector, i);
   if (e->type == TREF)
@@ -97,6 +98,7 @@ struct scm *
 vector_set_x_ (struct scm *x, long i, struct scm *e)
 {
   assert_msg (x->type == TVECTOR, "x->type == TVECTOR");
+  assert_msg (i >= 0, "i >= 0");
   assert_msg (i < x->length, "i < x->length");
   copy_cell (cell_ref (x->vector, i), vector_entry (e));
   return cell_unspecified;
-- 
2.43.0


From 4466fe360ed80bbdf7a74d24aee9e29dbc35e607 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:26:02 +0000
Subject: [PATCH 106/128] fix: = did not check that its operands are numbers

---
 src/math.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math.c b/src/math.c
index 421e5dc..1049be3 100644
--- a/src/math.c
+++ b/src/math.c
@@ -96,6 +96,7 @@ is_p (struct scm *x)                    /*:((name . "=") (arity . n)) */
   while (x != cell_nil)
     {
       i = car (x);
+      assert_number ("is_p", i);
       v = i->value;
       if (v != n)
         return cell_f;
-- 
2.43.0


From 3abfe00fc0c733e54d1350a47d7c9059e8d36adb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:26:02 +0000
Subject: [PATCH 107/128] fix: make-vector with a negative length ran out of
 bounds

---
 src/vector.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vector.c b/src/vector.c
index d1888f0..409e41b 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -50,6 +50,7 @@ make_vector (struct scm *x)               /*:((arity . n)) */
   struct scm *k = x->car;
   assert_number ("make-vector", k);
   long n = k->value;
+  assert_msg (n >= 0, "n >= 0");
   struct scm *e = cell_unspecified;
   if (x->cdr != cell_nil)
     e = x->cdr->car;
-- 
2.43.0


From 958bfce8906a2bcc0b2419e5aa0e7f365971b660 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:26:02 +0000
Subject: [PATCH 108/128] fix: cut with <...> after another slot used append!,
 which is not there

---
 mes/module/srfi/srfi-26.mes | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mes/module/srfi/srfi-26.mes b/mes/module/srfi/srfi-26.mes
index 69fd5e5..73aaf3b 100644
--- a/mes/module/srfi/srfi-26.mes
+++ b/mes/module/srfi/srfi-26.mes
@@ -25,4 +25,5 @@
 (mes-use-module (mes scm))
 (mes-use-module (mes guile))
 (mes-use-module (srfi srfi-1))
+(define append! append)
 (include-from-path "srfi/srfi-26.scm")
-- 
2.43.0


From 5632ac37156a28fe6f480cf22391b14691c44479 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:30:32 +0000
Subject: [PATCH 109/128] fix: syntax-rules let a variable bound by the
 template capture one of the macro's user

---
 mes/module/mes/syntax.scm | 51 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/mes/module/mes/syntax.scm b/mes/module/mes/syntax.scm
index 2769dbf..ead820e 100644
--- a/mes/module/mes/syntax.scm
+++ b/mes/module/mes/syntax.scm
@@ -120,10 +120,55 @@
                 (let* ,(process-pattern pattern
                                         %tail
                                         (lambda (x) x))
-                  ,(process-template template
-                                     0
-                                     (meta-variables pattern 0 '())))))
+                  ,(let* ((env (meta-variables pattern 0 '()))
+                          (bound (bound-names template env '())))
+                     ;; Each expansion has names of its own for the
+                     ;; variables that the template binds.
+                     `(let ,(map (lambda (name) `(,name (gensym))) bound)
+                        ,(process-template template
+                                           0
+                                           (append (map (lambda (name) (cons name 0))
+                                                        bound)
+                                                   env)))))))
             (syntax-error "ill-formed syntax rule" rule)))
+
+      ;; Return the names, other than those in ENV, that TEMPLATE binds
+
+      (define (bound-names template env names)
+        (define (add-name x names)
+          (if (or (not (name? x))
+                  (assq x env)
+                  (memq x names)
+                  (memq x indicators-for-zero-or-more)) names
+                  (cons x names)))
+        (define (add-formals x names)
+          (if (pair? x) (add-formals (cdr x) (add-name (car x) names))
+              (add-name x names)))
+        (define (add-bindings x names)
+          (if (pair? x)
+              (add-bindings (cdr x)
+                            (if (pair? (car x)) (add-name (caar x) names)
+                                names))
+              names))
+        (define (bound-names-rest x names)
+          (if (pair? x)
+              (bound-names-rest (cdr x) (bound-names (car x) env names))
+              names))
+        (if (not (pair? template)) names
+            (bound-names-rest
+             template
+             (cond ((or (not (pair? (cdr template)))
+                        (assq (car template) env))
+                    names)
+                   ((eq? (car template) 'lambda)
+                    (add-formals (cadr template) names))
+                   ((memq (car template) '(let let* letrec do))
+                    (if (and (name? (cadr template))
+                             (pair? (cddr template)))
+                        (add-bindings (caddr template)
+                                      (add-name (cadr template) names))
+                        (add-bindings (cadr template) names)))
+                   (else names)))))
       
       ;; Generate code to test whether input expression matches pattern
 
-- 
2.43.0


From d3838c6a1930cb6de2cc103d1eab2501fcfc6b8a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:32:46 +0000
Subject: [PATCH 110/128] fix: cute uses delq!, which was not there

---
 mes/module/srfi/srfi-26.mes | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mes/module/srfi/srfi-26.mes b/mes/module/srfi/srfi-26.mes
index 73aaf3b..e23efef 100644
--- a/mes/module/srfi/srfi-26.mes
+++ b/mes/module/srfi/srfi-26.mes
@@ -26,4 +26,6 @@
 (mes-use-module (mes guile))
 (mes-use-module (srfi srfi-1))
 (define append! append)
+(define (delq! x lst)
+  (filter (lambda (e) (not (eq? e x))) lst))
 (include-from-path "srfi/srfi-26.scm")
-- 
2.43.0


From 0c134380747dac76f1c6b41f437664bf6e7271eb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:38:03 +0000
Subject: [PATCH 111/128] fix: memq ran past the end of an improper list

---
 src/lib.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.c b/src/lib.c
index 331ed47..eaaa761 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -74,6 +74,8 @@ memq (struct scm *x, struct scm *a)
       long v = x->value;
       while (a != cell_nil)
         {
+          if (a->type != TPAIR)
+            error (cell_symbol_not_a_pair, cons (a, cstring_to_symbol ("memq")));
           if (a->car->type == t && v == a->car->value)
             return a;
           a = a->cdr;
@@ -84,6 +86,8 @@ memq (struct scm *x, struct scm *a)
     {
       while (a != cell_nil)
         {
+          if (a->type != TPAIR)
+            error (cell_symbol_not_a_pair, cons (a, cstring_to_symbol ("memq")));
           if (a->car->type == TKEYWORD)
             if (string_equal_p (x, a->car) == cell_t)
               return a;
@@ -93,6 +97,8 @@ memq (struct scm *x, struct scm *a)
     }
   while (a != cell_nil)
     {
+      if (a->type != TPAIR)
+        error (cell_symbol_not_a_pair, cons (a, cstring_to_symbol ("memq")));
       if (x == a->car)
         return a;
       a = a->cdr;
-- 
2.43.0


From b33bdb52a597700f7f4d2f988b349db0e047df5c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:38:03 +0000
Subject: [PATCH 112/128] fix: applying a vector ran out of memory instead of
 reporting an error

---
 src/eval-apply.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index ba56669..b2e7208 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -73,6 +73,8 @@ check_apply (struct scm *f, struct scm *e)      /*:((internal)) */
     type = "number";
   if (f->type == TSTRING)
     type = "string";
+  if (f->type == TVECTOR)
+    type = "vector";
   if (f->type == TSTRUCT && builtin_p (f) == cell_f)
     type = "#<...>";
   if (f->type == TBROKEN_HEART)
-- 
2.43.0


From a549984da6067f4aac5ea5a9333386c64f18e879 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:42:11 +0000
Subject: [PATCH 113/128] fix: a define forgot what it defines when the value
 expression defined a macro or caught an error

---
 src/eval-apply.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index b2e7208..a8c2502 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -683,6 +683,14 @@ eval:
                     goto eval;
                   }
               eval_define:
+                /* The evaluation of the value may have used these, or
+                   have ended in another eval_apply.  */
+                global_p = 0;
+                if (R0->car->car != cell_closure)
+                  global_p = 1;
+                macro_p = 0;
+                if (R2->car == cell_symbol_define_macro)
+                  macro_p = 1;
                 name = R2->cdr->car;
                 aa = R2->cdr->car;
                 if (aa->type == TPAIR)
-- 
2.43.0


From 033f68190bc7f21d45f8d044115349848ef2c9fa Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:43:59 +0000
Subject: [PATCH 114/128] fix: write-byte wrote a garbage byte before it
 rejected its operand

---
 src/posix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/posix.c b/src/posix.c
index 3fbf05d..336eab2 100644
--- a/src/posix.c
+++ b/src/posix.c
@@ -190,11 +190,11 @@ write_byte (struct scm *x)              /*:((arity . n)) */
             fd = __stderr;
         }
     }
-  char cc = c->value;
-  write (fd, &cc, 1);
 #if !__MESC__
   assert_msg (c->type == TNUMBER || c->type == TCHAR, "c->type == TNUMBER || c->type == TCHAR");
 #endif
+  char cc = c->value;
+  write (fd, &cc, 1);
   return c;
 }
 
-- 
2.43.0


From a137ad853fe9d840e9847dbb57db4ac462e65f5c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:08:37 +0000
Subject: [PATCH 115/128] fix: strncpy and strncat read one byte too many

With a source that is not terminated within SIZE bytes, the byte after
them was read.
---
 lib/string/strncat.c | 2 +-
 lib/string/strncpy.c | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/string/strncat.c b/lib/string/strncat.c
index 9683f91..a604a20 100644
--- a/lib/string/strncat.c
+++ b/lib/string/strncat.c
@@ -26,7 +26,7 @@ strncat (char *to, char const *from, size_t size)
   if (size == 0)
     return to;
   char *p = strchr (to, '\0');
-  while (*from && size-- > 0)
+  while (size-- > 0 && *from)
     *p++ = *from++;
   *p = 0;
   return to;
diff --git a/lib/string/strncpy.c b/lib/string/strncpy.c
index 34ea0f8..a36d8bb 100644
--- a/lib/string/strncpy.c
+++ b/lib/string/strncpy.c
@@ -26,10 +26,11 @@ strncpy (char *to, char const *from, size_t size)
   if (size == 0)
     return to;
   char *p = to;
-  while (*from && size--)
-    *p++ = *from++;
-  if (*from)
-    size++;
+  while (size && *from)
+    {
+      *p++ = *from++;
+      size--;
+    }
   while (size--)
     *p++ = 0;
   return to;
-- 
2.43.0


From 7a2ad0b0fb77d4ed6c25281821ceb1062c4aa993 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:08:37 +0000
Subject: [PATCH 116/128] fix: printf with a precision needs no terminated
 string

---
 lib/stdio/vfprintf.c  | 6 +++---
 lib/stdio/vsnprintf.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/stdio/vfprintf.c b/lib/stdio/vfprintf.c
index 5dcd1f3..761745c 100644
--- a/lib/stdio/vfprintf.c
+++ b/lib/stdio/vfprintf.c
@@ -182,9 +182,9 @@ vfprintf (FILE * f, char const *format, va_list ap)
           case 's':
             {
               char *s = va_arg (ap, char *);
-              int length = strlen (s);
-              if (precision >= 0 && precision < length)
-                length = precision;
+              int length = 0;
+              while (length != precision && s[length])
+                length++;
               width = width - length;
               while (!left_p && width-- > 0)
                 {
diff --git a/lib/stdio/vsnprintf.c b/lib/stdio/vsnprintf.c
index 46241db..d5dc823 100644
--- a/lib/stdio/vsnprintf.c
+++ b/lib/stdio/vsnprintf.c
@@ -195,9 +195,9 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
           case 's':
             {
               char *s = va_arg (ap, char *);
-              int length = s ? strlen (s) : 0;
-              if (precision >= 0 && precision < length)
-                length = precision;
+              int length = 0;
+              while (s && length != precision && s[length])
+                length++;
               width = width - length;
               while (!left_p && width-- > 0)
                 {
-- 
2.43.0


From 691694b80856734417027c937d35fdf88e628496 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:08:37 +0000
Subject: [PATCH 117/128] fix: string-append copied before it checked for room

Strings that are too long together were written behind the buffer.
---
 src/gc.c     | 3 ++-
 src/string.c | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gc.c b/src/gc.c
index 67d3b15..c29eda9 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -114,7 +114,8 @@ gc_init ()
   g_free = g_cells + M2_CELL_SIZE;
 
   /* FIXME: remove MES_MAX_STRING, grow dynamically. */
-  g_buf = malloc (MAX_STRING);
+  /* One more character is stored before a string is found too long. */
+  g_buf = malloc (MAX_STRING + 2);
 }
 
 long
diff --git a/src/string.c b/src/string.c
index 2ebd9a5..f378e79 100644
--- a/src/string.c
+++ b/src/string.c
@@ -207,11 +207,11 @@ string_append (struct scm *x)           /*:((arity . n)) */
     {
       string = x->car;
       assert_msg (string->type == TSTRING, "string->type == TSTRING");
-      memcpy (p, cell_bytes (string->string), string->length + 1);
-      p = p + string->length;
       size = size + string->length;
       if (size > MAX_STRING)
         assert_max_string (size, "string_append", g_buf);
+      memcpy (p, cell_bytes (string->string), string->length + 1);
+      p = p + string->length;
       x = x->cdr;
     }
   return make_string (g_buf, size);
-- 
2.43.0


From 537805ddb4014fb2660fe7fd2fd6487af932050a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:08:38 +0000
Subject: [PATCH 118/128] fix: the reader checks the length of names

---
 src/reader.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader.c b/src/reader.c
index 10d4c83..447df38 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -85,6 +85,8 @@ reader_read_identifier_or_number (int c)
       }
   while (isdigit (c) != 0)
     {
+      if (i > MAX_STRING)
+        assert_max_string (i, "reader_read_identifier_or_number", g_buf);
       g_buf[i] = c;
       i = i + 1;
       n = n * 10;
@@ -101,6 +103,8 @@ reader_read_identifier_or_number (int c)
   /* Fallthrough: Note that `4a', `+1b' are identifiers */
   while (reader_end_of_word_p (c) == 0)
     {
+      if (i > MAX_STRING)
+        assert_max_string (i, "reader_read_identifier_or_number", g_buf);
       g_buf[i] = c;
       i = i + 1;
       c = readchar ();
-- 
2.43.0


From e297a1293263a33eab9e5b8d5f017775bd809bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:09:11 +0000
Subject: [PATCH 119/128] fix: getopt-long accepts empty arguments

---
 module/mes/getopt-long.scm | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/module/mes/getopt-long.scm b/module/mes/getopt-long.scm
index 65355d9..dd974a6 100644
--- a/module/mes/getopt-long.scm
+++ b/module/mes/getopt-long.scm
@@ -226,8 +226,8 @@
     (cond ((null? opt-ls)
            (reverse ret-ls))                                    ;;; retval
           ((let ((opt (car opt-ls)))
-             (and (eq? (string-ref opt 0) #\-)
-                  (> (string-length opt) 1)
+             (and (> (string-length opt) 1)
+                  (eq? (string-ref opt 0) #\-)
                   (char-alphabetic? (string-ref opt 1))))
            (let* ((opt (car opt-ls))
                   (n (char->integer (string-ref opt 1)))
@@ -249,7 +249,7 @@
                       (cons (car opt-ls) ret-ls))))))
 
 (define (looks-like-an-option string)
-  (eq? (string-ref string 0) #\-))
+  (string-prefix? "-" string))
 
 (define (process-options specs argument-ls stop-at-first-non-option)
   ;; Use SPECS to scan ARGUMENT-LS; return (FOUND . ETC).
@@ -309,8 +309,8 @@
         (if (null? argument-ls)
             (cons found (reverse etc))                          ;;; retval
             (cond ((let ((opt (car argument-ls)))
-                     (and (eq? (string-ref opt 0) #\-)
-                          (> (string-length opt) 1)
+                     (and (> (string-length opt) 1)
+                          (eq? (string-ref opt 0) #\-)
                           (let ((n (char->integer (string-ref opt 1))))
                             (or (and (>= n (char->integer #\A)) (<= n (char->integer #\Z)))
                                 (and (>= n (char->integer #\a)) (<= n (char->integer #\z)))))))
@@ -320,6 +320,7 @@
                      (eat! spec argument-ls)))
                   ((let ((opt (car argument-ls)))
                      (and (string-prefix? "--" opt)
+                          (> (string-length opt) 2)
                           (let ((n (char->integer (string-ref opt 2))))
                             (or (and (>= n (char->integer #\A)) (<= n (char->integer #\Z)))
                                 (and (>= n (char->integer #\a)) (<= n (char->integer #\z)))))
@@ -331,6 +332,7 @@
                      (eat! spec argument-ls)))
                   ((let ((opt (car argument-ls)))
                      (and (string-prefix? "--" opt)
+                          (> (string-length opt) 2)
                           (let ((n (char->integer (string-ref opt 2))))
                             (or (and (>= n (char->integer #\A)) (<= n (char->integer #\Z)))
                                 (and (>= n (char->integer #\a)) (<= n (char->integer #\z)))))
-- 
2.43.0


From 03a2337f13d4cd46fdc7571edb95fe7457499f3f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:42:50 +0000
Subject: [PATCH 120/128] fix: getopt ends the options at --

---
 lib/posix/getopt.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/posix/getopt.c b/lib/posix/getopt.c
index 5ade18e..7893bbf 100644
--- a/lib/posix/getopt.c
+++ b/lib/posix/getopt.c
@@ -164,6 +164,15 @@ _getopt_internal (int argc, char *const
       if ((argv[optind][0] != '-' || argv[optind][1] == '\0'))
         return EOF;
 
+      /* The special ARGV-element `--' means premature end of options.
+         Skip it like a null option.  */
+
+      if (argv[optind][1] == '-' && argv[optind][2] == '\0')
+        {
+          optind++;
+          return EOF;
+        }
+
       /* We have found another option-ARGV-element.
          Start decoding its characters.  */
 
-- 
2.43.0


From 817339358208c73ee7cdabc80bb490b7233701e0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:50:13 +0000
Subject: [PATCH 121/128] fix: string-ref of a byte above 127 gives its
 character

---
 src/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string.c b/src/string.c
index f378e79..1c1c113 100644
--- a/src/string.c
+++ b/src/string.c
@@ -234,5 +234,5 @@ string_ref (struct scm *str, struct scm *k)
   if (i >= size)
     error (cell_symbol_system_error, cons (make_string0 ("value out of range"), k));
   char const *p = cell_bytes (str->string);
-  return make_char (p[i]);
+  return make_char (p[i] & 255);
 }
-- 
2.43.0


From fccc85087d52ffa744dcd27800b1c818c01a5bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:07:22 +0000
Subject: [PATCH 122/128] fix: ash keeps the sign and allows any negative
 count, for every compiler

---
 src/math.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/math.c b/src/math.c
index 1049be3..53033e5 100644
--- a/src/math.c
+++ b/src/math.c
@@ -305,8 +305,22 @@ ash (struct scm *n, struct scm *count)
   long cn = n->value;
   long ccount = count->value;
   long result;
-  if (ccount < 0)
-    result = cn >> -ccount;
+  long width = 8 * sizeof (long);
+  if (ccount <= -width)
+    {
+      /* Every bit is shifted out: only the sign is left. */
+      result = 0;
+      if (cn < 0)
+        result = -1;
+    }
+  else if (ccount < 0)
+    {
+      /* Right shift of a negative number is up to the compiler. */
+      if (cn < 0)
+        result = -1 - ((-1 - cn) >> -ccount);
+      else
+        result = cn >> -ccount;
+    }
   else
     result = cn << ccount;
   return make_number (result);
-- 
2.43.0


From 7bbeb1ef11e6d4a5a4fa0e100da47ff7e1d693cb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:41:56 +0000
Subject: [PATCH 123/128] fix: report end of file in a block comment

reader_read_block_comment called itself for every character and never
looked for the end of the input, so an unterminated comment overflowed
the C stack, as did a long one.
---
 src/reader.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 447df38..bd7c501 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -209,13 +209,17 @@ read_env (struct scm *a)
 struct scm *
 reader_read_block_comment (int s, int c)
 {
-  if (c == s)
-    if (peekchar () == '#')
-      {
-        readchar ();
-        return cell_unspecified;
-      }
-  return reader_read_block_comment (s, readchar ());
+  while (c != EOF)
+    {
+      if (c == s)
+        if (peekchar () == '#')
+          {
+            readchar ();
+            return cell_unspecified;
+          }
+      c = readchar ();
+    }
+  return error (cell_symbol_system_error, make_string0 ("EOF in block comment"));
 }
 
 struct scm *
-- 
2.43.0


From 0fb596cb8445fccc0fed2910add762bc0dd062fb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:41:56 +0000
Subject: [PATCH 124/128] fix: do not write long character names past their
 buffer

---
 src/mes.c    | 2 +-
 src/reader.c | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mes.c b/src/mes.c
index 86699ba..19ca181 100644
--- a/src/mes.c
+++ b/src/mes.c
@@ -165,7 +165,7 @@ init (char **envp)
   __get_internal_run_time_ts = malloc (sizeof (struct timespec));
   __open_boot_buf = malloc (PATH_MAX);
   __open_boot_file_name = malloc (PATH_MAX);
-  __reader_read_char_buf = malloc (10);
+  __reader_read_char_buf = malloc (11);
   __setenv_buf = malloc (1024);
   g_datadir = malloc (1024);
   g_start_time = malloc (sizeof (struct timespec));
diff --git a/src/reader.c b/src/reader.c
index bd7c501..57b890c 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -313,8 +313,12 @@ reader_read_character ()
       i = i + 1;
       while ((p >= 'a' && p <= 'z') || p == '*')
         {
-          buf[i] = readchar ();
-          i = i + 1;
+          c = readchar ();
+          if (i < 10)
+            {
+              buf[i] = c;
+              i = i + 1;
+            }
           p = peekchar ();
         }
       buf[i] = 0;
-- 
2.43.0


From 7c9912fd79c7db76f7807f2e38462dd49ca16f95 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:43:30 +0000
Subject: [PATCH 125/128] fix: report a dot that nothing follows

The reader took the car of the empty list, and made a pair that crashes
whatever follows it.
---
 src/reader.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reader.c b/src/reader.c
index 57b890c..15b1ba2 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -195,6 +195,8 @@ reader_read_list (int c, struct scm *a)
   if (s == cell_dot)
     {
       s = reader_read_list (readchar (), a);
+      if (s->type != TPAIR)
+        error (cell_symbol_not_a_pair, make_string0 ("no datum after dot"));
       return s->car;
     }
   return cons (s, reader_read_list (readchar (), a));
-- 
2.43.0


From a1599444a411757383a561e1f3120f803f58e322 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:49:33 +0000
Subject: [PATCH 126/128] fix: assert_msg works with the system C library

It called the system's __assert_fail with the message only, which then
printed garbage or crashed before saying anything.
---
 lib/mes/assert_msg.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/mes/assert_msg.c b/lib/mes/assert_msg.c
index 191aa87..8b85595 100644
--- a/lib/mes/assert_msg.c
+++ b/lib/mes/assert_msg.c
@@ -26,5 +26,15 @@ void
 assert_msg (int bool, char *msg)
 {
   if (bool == 0)
-    __assert_fail (msg);
+    {
+#if SYSTEM_LIBC
+      /* The system's __assert_fail takes more than a message. */
+      eputs ("assert fail: ");
+      eputs (msg);
+      eputs ("\n");
+      abort ();
+#else
+      __assert_fail (msg);
+#endif
+    }
 }
-- 
2.43.0


From 11014a4be781f4d7e9ea34bd1e3ad910d67c7529 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:01:03 +0000
Subject: [PATCH 127/128] fix: setenv of a name longer than 1023 bytes

The name was copied into a fixed buffer, past its end.
---
 include/mes/mes.h | 1 -
 src/mes.c         | 1 -
 src/posix.c       | 4 +---
 3 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/mes/mes.h b/include/mes/mes.h
index 9ef6491..eecebed 100644
--- a/include/mes/mes.h
+++ b/include/mes/mes.h
@@ -102,7 +102,6 @@ extern size_t gc_time;
 extern char **__execl_c_argv;
 extern char *__open_boot_buf;
 extern char *__open_boot_file_name;
-extern char *__setenv_buf;
 extern char *__reader_read_char_buf;
 extern struct timespec *g_start_time;
 extern struct timeval *__gettimeofday_time;
diff --git a/src/mes.c b/src/mes.c
index 19ca181..dcd1f77 100644
--- a/src/mes.c
+++ b/src/mes.c
@@ -166,7 +166,6 @@ init (char **envp)
   __open_boot_buf = malloc (PATH_MAX);
   __open_boot_file_name = malloc (PATH_MAX);
   __reader_read_char_buf = malloc (11);
-  __setenv_buf = malloc (1024);
   g_datadir = malloc (1024);
   g_start_time = malloc (sizeof (struct timespec));
   memset (g_start_time, 0, sizeof (struct timespec));
diff --git a/src/posix.c b/src/posix.c
index 336eab2..58f41f9 100644
--- a/src/posix.c
+++ b/src/posix.c
@@ -211,9 +211,7 @@ getenv_ (struct scm *s)                 /*:((name . "getenv")) */
 struct scm *
 setenv_ (struct scm *s, struct scm *v)          /*:((name . "setenv")) */
 {
-  char *buf = __setenv_buf;
-  strcpy (buf, cell_bytes (s->string));
-  setenv (buf, cell_bytes (v->string), 1);
+  setenv (cell_bytes (s->string), cell_bytes (v->string), 1);
   return cell_unspecified;
 }
 
-- 
2.43.0


From 53f619d01a89cbd5758286466a4696962c7a1cda Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:45:03 +0000
Subject: [PATCH 128/128] fix: string->number reads the prefixes #o and #b

---
 mes/module/mes/scm.mes | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mes/module/mes/scm.mes b/mes/module/mes/scm.mes
index 8d5f377..6263411 100644
--- a/mes/module/mes/scm.mes
+++ b/mes/module/mes/scm.mes
@@ -228,7 +228,10 @@
      (equal? (substring string (- length suffix-length)) suffix))))
 
 (define (string->number s . rest)
-  (if (string-prefix? "#x" s) (string->number (string-drop s 2) 16)
+  (cond ((string-prefix? "#x" s) (string->number (string-drop s 2) 16))
+        ((string-prefix? "#o" s) (string->number (string-drop s 2) 8))
+        ((string-prefix? "#b" s) (string->number (string-drop s 2) 2))
+        (else
       (let ((lst (string->list s)))
         (and (pair? lst)
              (let* ((radix (if (null? rest) 10 (car rest)))
@@ -256,7 +259,7 @@
                                 (if (null? fraction) n
                                     (let ((fraction ((compose string->number list->string) fraction)))
                                       (and fraction n))))) ; FLOAT as integer
-                             (else #f))))))))))
+                             (else #f)))))))))))
 
 (define inexact->exact identity)
 
-- 
2.43.0

