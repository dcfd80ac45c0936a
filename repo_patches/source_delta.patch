From cb2c24a58a53a56d7129a33271ffb178c686e1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:42 +0000
Subject: [PATCH 1/8] fix: mul_red overflowed a 32bit subtraction for products
 in [2^43, 2^43+4095]

The documented range of mul_reduce_array and friends includes products up to
8796093026303 = 2^43+4095. For the last 4096 of them z >> 12 is 2^31, so the
conversion to int32_t wrapped and 3*x - y was a signed overflow (e.g. a[i] =
4194304, b[i] = 2097152, reported by -fsanitize=undefined). Do the subtraction
in 64 bits; the result always fits in 32 bits.
---
 src/ntt_red.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ntt_red.c b/src/ntt_red.c
index deef16f..fc48bfd 100644
--- a/src/ntt_red.c
+++ b/src/ntt_red.c
@@ -40,9 +40,8 @@ static int32_t mul_red(int32_t x, int32_t y) {
   int64_t z;
   z = (int64_t) x * y;
   assert(-8796042698752 <= z && z <= 8796093026303);
-  x = z & 4095;
-  y = z >> 12;
-  return 3 * x - y;
+  // 64bit subtraction: z >> 12 can be 2^31, which does not fit in 32bits
+  return 3 * (z & 4095) - (z >> 12);
 }
 
 #if 0
-- 
2.43.0


From a7e348c93e56dc3acfe421fb9e3c82fd0e37b127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:36 +0000
Subject: [PATCH 2/8] fix: naive product routines returned negative
 coefficients

naive_nttN_productK document a result in [0 .. Q-1], but the inverse NTTs
leave negative remainders (C's % truncates towards zero) and the final
elementwise/scalar products kept the sign.
---
 src/naive_ntt.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/naive_ntt.c b/src/naive_ntt.c
index f7fb9b6..3663116 100644
--- a/src/naive_ntt.c
+++ b/src/naive_ntt.c
@@ -64,12 +64,16 @@ void shuffle_with_table(int32_t *a, const uint16_t p[][2], uint32_t n) {
  * In-place product: a[i] = a[i] * p[i]
  * - a[i] and p[i] must be between 0 and Q-1
  * - p is assumed to be a array of 16bit constants (e.g., p[i] = psi^i mod Q)
+ * - the inverse NTTs may leave a[i] between -(Q-1) and -1: the result
+ *   is between 0 and Q-1 in this case too.
  */
 void mul_array16_naive(int32_t *a, uint32_t n, const uint16_t *p, int32_t q) {
   uint32_t i;
+  int32_t x;
 
   for (i=0; i<n; i++) {
-    a[i] = (a[i] * p[i]) % q;
+    x = (a[i] * p[i]) % q;
+    a[i] = x < 0 ? x + q : x;
   }
 }
 
@@ -92,12 +96,15 @@ void mul_array_naive(int32_t *c, uint32_t n, const int32_t *a, const int32_t *b,
 /*
  * In-place product: a[i] = a[i] * c
  * - all elements must be in the range [0 ... q-1] and c too
+ * - as above, negative elements are also accepted
  */
 void scalar_mul_array_naive(int32_t *a, uint32_t n, int32_t c, int32_t q) {
   uint32_t i;
+  int32_t x;
 
   for (i=0; i<n; i++) {
-    a[i] = (a[i] * c) % q;
+    x = (a[i] * c) % q;
+    a[i] = x < 0 ? x + q : x;
   }
 }
 
-- 
2.43.0


From 994a2307d9d8bed2ac17840a453078f5c764fc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:10 +0000
Subject: [PATCH 3/8] fix: asm routines used the undefined upper half of rsi as
 part of n

The array size is a uint32_t: the ABI leaves bits 32..63 of rsi undefined,
so a caller that tail-calls with a truncated 64bit size made every routine
run past the array.
---
 src/ntt_asm.S | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/ntt_asm.S b/src/ntt_asm.S
index 69cdf68..82b7ca7 100644
--- a/src/ntt_asm.S
+++ b/src/ntt_asm.S
@@ -130,6 +130,7 @@ not_supported:
         .balign 16
         .global _G(reduce_array_asm)
 _G(reduce_array_asm):
+        mov     esi, esi                     // n is 32bit: clear the upper half of rsi
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -166,6 +167,7 @@ loop0:
         .balign 16
         .global _G(reduce_array_asm2)
 _G(reduce_array_asm2):
+        mov     esi, esi                     // n is 32bit: clear the upper half of rsi
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -199,6 +201,7 @@ loop0b:
         .balign 16
         .global _G(reduce_array_twice_asm)
 _G(reduce_array_twice_asm):
+        mov     esi, esi                     // n is 32bit: clear the upper half of rsi
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -249,6 +252,7 @@ loop1:
         .balign 16
         .global _G(reduce_array_twice_asm2)
 _G(reduce_array_twice_asm2):
+        mov     esi, esi                     // n is 32bit: clear the upper half of rsi
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -291,6 +295,7 @@ loop1b:
         .balign 16
         .global _G(correct_asm)
 _G(correct_asm):
+        mov     esi, esi                     // n is 32bit: clear the upper half of rsi
         vmovdqa ymm3, [q_x8+rip]
         vmovdqa ymm4, [q_minus1_x8+rip]
         mov rax, rdi
@@ -337,6 +342,7 @@ loop2:
         .balign 16
         .global _G(shift_array_asm)
 _G(shift_array_asm):
+        mov     esi, esi                     // n is 32bit: clear the upper half of rsi
 	vmovdqa ymm3, [q_x8+rip]
 	vmovdqa ymm4, [half_q_x8+rip]
 	mov rax, rdi
@@ -410,6 +416,7 @@ loop_shift:
         .balign 16
         .global _G(mul_reduce_array16_asm)
 _G(mul_reduce_array16_asm):
+        mov     esi, esi                     // n is 32bit: clear the upper half of rsi
         vmovdqa ymm4, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -451,6 +458,7 @@ loop3:
         .balign 16
         .global _G(mul_reduce_array16_asm2)
 _G(mul_reduce_array16_asm2):
+        mov     esi, esi                     // n is 32bit: clear the upper half of rsi
         vmovdqa    ymm5, [perm0246+rip]
         vmovdqa    ymm6, [mask+rip]
         mov        rax, rdi
@@ -495,6 +503,7 @@ loop4:
         .balign 16
         .global _G(mul_reduce_array_asm)
 _G(mul_reduce_array_asm):
+        mov     esi, esi                     // n is 32bit: clear the upper half of rsi
         vmovdqa ymm4, [mask+rip]
         mov     rax, rdi
         lea     rsi, [rdi+4*rsi]
@@ -545,6 +554,7 @@ loop5:
         .balign 16
         .global _G(scalar_mul_reduce_array_asm)
 _G(scalar_mul_reduce_array_asm):        
+        mov     esi, esi                     // n is 32bit: clear the upper half of rsi
         vmovdqa ymm4, [mask+rip]
         mov     rax, rdi
         lea     rsi, [rdi+4*rsi]
@@ -665,6 +675,7 @@ loop6:
         .balign 16
         .global _G(ntt_red_ct_rev2std_asm)
 _G(ntt_red_ct_rev2std_asm):
+        mov     esi, esi                     // n is 32bit: clear the upper half of rsi
         mov     rax, rdi                     // rax = start of array a
         mov     r9, rsi                      // r9 = copy of the array size
         lea     rsi, [rdi+4*rsi]             // rsi = end of array a
@@ -864,6 +875,7 @@ ct_r2s_done:
         .balign 16
         .global _G(mulntt_red_ct_rev2std_asm)
 _G(mulntt_red_ct_rev2std_asm):
+        mov     esi, esi                     // n is 32bit: clear the upper half of rsi
         mov     rax, rdi                     // rax = start of array a
         mov     r9, rsi                      // r9 = copy of the array size
         lea     rsi, [rdi+4*rsi]             // rsi = end of array a
@@ -961,6 +973,7 @@ mct_r2s_size8_loop2:
         .balign 16
         .global _G(ntt_red_ct_std2rev_asm)
 _G(ntt_red_ct_std2rev_asm):
+        mov     esi, esi                     // n is 32bit: clear the upper half of rsi
         lea       r8, [rdi+4*rsi]         // r8 = end of array a
         vmovdqa   ymm4, [mask+rip]        // ymm4 = bitmask = 8 copies of 4095
 
@@ -1233,6 +1246,7 @@ ct_s2r_finish_size1:
         .balign 16
         .global _G(mulntt_red_ct_std2rev_asm)
 _G(mulntt_red_ct_std2rev_asm):
+        mov     esi, esi                     // n is 32bit: clear the upper half of rsi
         lea       r8, [rdi+4*rsi]         // r8 = end of array a
         vmovdqa   ymm4, [mask+rip]        // ymm4 = bitmask = 8 copies of 4095
 
@@ -1318,6 +1332,7 @@ mct_s2r_loop_inner:
         .balign 16
         .global _G(ntt_red_gs_rev2std_asm)
 _G(ntt_red_gs_rev2std_asm):
+        mov     esi, esi                     // n is 32bit: clear the upper half of rsi
         lea     rcx, [rdi+4*rsi]      // rcx -> end of array a
         lea     r8, [rdx+rsi]         // r8 --> multipliers for round 1
         shr     rsi, 1
@@ -1549,6 +1564,7 @@ gs_r2s_done:
         .balign 16
         .global _G(nttmul_red_gs_rev2std_asm)
 _G(nttmul_red_gs_rev2std_asm):
+        mov     esi, esi                     // n is 32bit: clear the upper half of rsi
         lea     rcx, [rdi+4*rsi]      // rcx -> end of array a
         lea     r8, [rdx+rsi]         // r8 --> multipliers for round 1
         shr     rsi, 1
@@ -1749,6 +1765,7 @@ mgs_r2s_done:
         .balign 16
         .global _G(ntt_red_gs_std2rev_asm)
 _G(ntt_red_gs_std2rev_asm):
+        mov     esi, esi                     // n is 32bit: clear the upper half of rsi
         lea      r11, [rdi+4*rsi]        // end of array a
         vmovdqa  ymm4, [mask+rip]        // bitmask
 /*
@@ -1941,6 +1958,7 @@ gs_s2r_finish_loop:
         .balign 16
         .global _G(nttmul_red_gs_std2rev_asm)
 _G(nttmul_red_gs_std2rev_asm):
+        mov     esi, esi                     // n is 32bit: clear the upper half of rsi
         lea      r11, [rdi+4*rsi]        // end of array a
         vmovdqa  ymm4, [mask+rip]        // bitmask
 /*
-- 
2.43.0


From a581e926fe931394594162a7b5757ab0e40eafa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:44 +0000
Subject: [PATCH 4/8] fix: detect overflow in interval addition and subtraction
 without relying on signed wraparound

add64, sub64 and size computed x + y, x - y with signed operands and then looked
for a wrapped result; the compiler is entitled to drop that test (gcc -O3 does),
so an overflowing interval sum produced a bogus interval instead of the
'Arithmetic overflow' error.
---
 src/intervals.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/intervals.c b/src/intervals.c
index 56869c8..1b4662d 100644
--- a/src/intervals.c
+++ b/src/intervals.c
@@ -81,7 +81,7 @@ interval_t *neg(const interval_t *a) {
 static int64_t add64(int64_t x, int64_t y) {
   int64_t z;
 
-  z = x + y;
+  z = (int64_t) ((uint64_t) x + (uint64_t) y); // wraps around
   if ((x < 0 && y < 0 && z >= 0) || (x >= 0 && y >= 0 && z < 0)) {
     fprintf(stderr, "Arithmetic overflow in %"PRId64" + %"PRId64"\n", x, y);
     exit(1);
@@ -93,7 +93,7 @@ static int64_t add64(int64_t x, int64_t y) {
 static int64_t sub64(int64_t x, int64_t y) {
   int64_t z;
 
-  z = x - y;
+  z = (int64_t) ((uint64_t) x - (uint64_t) y); // wraps around
   if ((x < 0 && y >= 0 && z >= 0) || (x >= 0 && y < 0 && z < 0)) {
     fprintf(stderr, "Arithmetic overflow in %"PRId64" - %"PRId64"\n", x, y);
     exit(1);
@@ -107,9 +107,9 @@ static int64_t sub64(int64_t x, int64_t y) {
  */
 static uint64_t size(const interval_t *a) {
   assert(a->min <= a->max);
-  // assuming 2s complement, this gives the right answer even
-  // if there's an overflow.
-  return (uint64_t) (a->max - a->min);
+  // unsigned subtraction: this gives the right answer even
+  // if a->max - a->min doesn't fit in 64bits.
+  return (uint64_t) a->max - (uint64_t) a->min;
 }
 
 /*
-- 
2.43.0


From c4c4387541a32e2c01080352d8bf553820bf9696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:52 +0000
Subject: [PATCH 5/8] fix: max_red_mul and min_red_mul accept w = 0

gcd4096(0) does not terminate and lmin(0, x) divides by zero. red(0 * x)
is 0 for every x. red_scale(0, a) reaches both functions.
---
 src/red_bounds.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/red_bounds.c b/src/red_bounds.c
index 795beb9..c427451 100644
--- a/src/red_bounds.c
+++ b/src/red_bounds.c
@@ -107,6 +107,12 @@ int64_t max_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
   
   assert(a <= b);
 
+  // red(0 * x) is 0 for any x
+  if (w == 0) {
+    *m = a;
+    return 0;
+  }
+
   // pw = |w|. 
   // If w<0, we change a <= x <= b to -b <= -x <= -a
   pw = w;
@@ -171,6 +177,12 @@ int64_t min_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
   
   assert(a <= b);
 
+  // red(0 * x) is 0 for any x
+  if (w == 0) {
+    *m = a;
+    return 0;
+  }
+
   // pw = |w|. 
   // If w<0, we change a <= x <= b to -b <= -x <= -a
   pw = w;
-- 
2.43.0


From 7489d3369358e5444dbb47679153091fcca2cc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:05 +0000
Subject: [PATCH 6/8] fix: max_red_mul_interval and min_red_mul_interval on
 asymmetric intervals

The tests that stop the search assumed |x| <= b, which is false when a < -b,
so the search could stop before the extremum: for [-20000, 0] x [4095, 4096],
the function returned 20000 but red(4095 * -19999) is 30840. The search also
started from red(0 * 0), even if 0 is not in the intervals.
---
 src/red_bounds.c | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/red_bounds.c b/src/red_bounds.c
index c427451..b004830 100644
--- a/src/red_bounds.c
+++ b/src/red_bounds.c
@@ -221,13 +221,18 @@ int64_t min_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
  * Maximum of red(w * x) for a <= x <= b and low <= w <= high.
  */
 int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, int64_t *m, int64_t *mw) {
-  int64_t r_max, x_max, w_max, r, x, w, d, l, h;
+  int64_t r_max, x_max, w_max, r, x, w, c, d, l, h;
 
   assert(a <= b && low <= high);
 
-  r_max = 0;
-  x_max = 0;
-  w_max = 0;
+  // start with a pair x_max, w_max such that a <= x_max <= b and low <= w_max <= high
+  // (w_max is 0 if that's in the interval)
+  w_max = (low > 0) ? low : (high < 0) ? high : 0;
+  x_max = a;
+  r_max = red(w_max * x_max);
+
+  // |x| <= c for any x in [a, b]
+  c = (-a > b) ? -a : b;
 
   // negative values of w: l <= w < h
   l = low < 0 ? low : 0;
@@ -235,10 +240,10 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   for (w = l; w < h;  w++) {
     assert(w < 0);
 
-    // d = min (w*x)/2^m for |x| <= b
-    // so red(w*x) <= -d + 3*4095 for |x| <= b
+    // d = min (w*x)/2^m for |x| <= c
+    // so red(w*x) <= -d + 3*4095 for |x| <= c
     // also for any w' such that w <= w' < 0
-    d = divd(w * b);
+    d = divd(w * c);
     if ( -d + 3 * 4095 <= r_max) {
       break;
     }
@@ -256,8 +261,8 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   for (w = h; w > l; w --) {
     assert(w > 0);
 
-    // min of (w*x)/2^m is -(w * b)/2^m
-    d = divd(- w * b);
+    // min of (w*x)/2^m is -(w * c)/2^m
+    d = divd(- w * c);
     if ( -d + 3 * 4095 <= r_max) {
       break;
     }
@@ -279,23 +284,28 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   * Minimum of red(x * w) for a <= x <= b and low <= w <= high
   */
 int64_t min_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, int64_t *m, int64_t *wm) {
-   int64_t r_min, x_min, w_min, r, x, w, d, l, h;
+   int64_t r_min, x_min, w_min, r, x, w, c, d, l, h;
 
    assert(a <= b && low <= high);
 
-   r_min = 0;
-   x_min = 0;
-   w_min = 0;
+   // start with a pair x_min, w_min such that a <= x_min <= b and low <= w_min <= high
+   // (w_min is 0 if that's in the interval)
+   w_min = (low > 0) ? low : (high < 0) ? high : 0;
+   x_min = a;
+   r_min = red(w_min * x_min);
+
+   // |x| <= c for any x in [a, b]
+   c = (-a > b) ? -a : b;
 
    // negative values of w
    l = low < 0 ? low : 0;
    h = high > 0 ? 0 : high + 1;
    for (w = l; w < h; w++) {
      assert(w < 0);
-     // d = max of (w * b)/2^m
-     // -b <= x ==> w * x <= -b w ==> divd(w * x) <= divd(-w * b) ==> - div(w * x) >= - d
+     // d = max of (w * x)/2^m for |x| <= c
+     // -c <= x ==> w * x <= -c w ==> divd(w * x) <= divd(-w * c) ==> - div(w * x) >= - d
      // ==> red(wx) >= -d
-     d = divd(- w * b);
+     d = divd(- w * c);
      if (-d >= r_min) {
        break;
      }
@@ -313,7 +323,7 @@ int64_t min_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
    for (w=h; w>l; w--) {
      assert(w > 0);
 
-     d = divd(w * b); // max of (w * b)/2^m for |x| <= b
+     d = divd(w * c); // max of (w * x)/2^m for |x| <= c
      if (-d >= r_min) {
        break;
      }
-- 
2.43.0


From e29e229ff6f7e6a8ce9c37065d59e3119e0c90cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:05 +0000
Subject: [PATCH 7/8] fix: min_red_mul_interval reaches w = 0 in the loops for
 w < 0 and w > 0

The assertions in these loops fail when high = 0 or low = 0.
---
 src/red_bounds.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/red_bounds.c b/src/red_bounds.c
index b004830..86dce51 100644
--- a/src/red_bounds.c
+++ b/src/red_bounds.c
@@ -299,7 +299,7 @@ int64_t min_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
 
    // negative values of w
    l = low < 0 ? low : 0;
-   h = high > 0 ? 0 : high + 1;
+   h = high >= 0 ? 0 : high + 1;
    for (w = l; w < h; w++) {
      assert(w < 0);
      // d = max of (w * x)/2^m for |x| <= c
@@ -318,7 +318,7 @@ int64_t min_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
    }
 
    // positive values of w
-   l = low < 0 ? 0 : low - 1;
+   l = low <= 0 ? 0 : low - 1;
    h = high > 0 ? high : 0;
    for (w=h; w>l; w--) {
      assert(w > 0);
-- 
2.43.0


From 7bed17a7c886863697d06ac162858d5094e8933f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:53 +0000
Subject: [PATCH 8/8] fix: document the size of the array written by
 ntt_ct_bounds and ntt_gs_bounds

Both functions store the input bound and one bound per round: log_2(n) + 1 elements.
---
 src/red_bounds.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/red_bounds.h b/src/red_bounds.h
index ca34527..8eeccd3 100644
--- a/src/red_bounds.h
+++ b/src/red_bounds.h
@@ -81,7 +81,8 @@ extern int64_t gs_bound_fixed(int64_t b, int64_t w);
  * We assume the input coefficients a[i] satisfy |a[i]| <= b0.
  *
  * The final bound is returned.
- * Bounds for each round are stored in array bounds (must be of size log_2(n))
+ * Bounds on the input and after each round are stored in array bound
+ * (must be of size log_2(n) + 1)
  */
 extern int64_t ntt_ct_bounds(int64_t b0, uint32_t n, const int16_t *p, int64_t *bound);
 
@@ -93,7 +94,8 @@ extern int64_t ntt_ct_bounds(int64_t b0, uint32_t n, const int16_t *p, int64_t *
  * We assume the input coefficients a[i] satisfy |a[i]| <= b0.
  *
  * The final bound is returned.
- * Bounds for each round are stored in array bound (must be of size log_2(n))
+ * Bounds on the input and after each round are stored in array bound
+ * (must be of size log_2(n) + 1)
  */
 extern int64_t ntt_gs_bounds(int64_t b0, uint32_t n, const int16_t *p, int64_t *bound);
 
-- 
2.43.0

