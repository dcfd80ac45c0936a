#include <stdio.h>
#include "ntt_red.h"
#include "ntt_asm.h"
int main(void) {
  int bad = 0; static int32_t a[1024], b[1024]; static int16_t p[1024];
  for (uint32_t n = 16; n <= 1024; n *= 2) {
    for (uint32_t i = 0; i < n; i++) { p[i] = (i * 37 + 11) % 6000; a[i] = b[i] = (i * 7919 + 5) % 12289; }
    for (uint32_t t = 1; t < n; t *= 2) p[t] = -4096;   // 3^-1
    p[3] = 77;
    ntt_red_ct_rev2std(a, n, p); ntt_red_ct_rev2std_asm(b, n, p);
    for (uint32_t i = 0; i < n; i++) if (a[i] != b[i]) { printf("n=%u i=%u %d %d\n", n, i, a[i], b[i]); bad = 1; break; }
  }
  return bad;
}
