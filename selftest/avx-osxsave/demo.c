#include <stdio.h>
unsigned leaf1_ecx, leaf7_ebx, xcr0;
__asm__(".text\nfake_cpuid:\n cmp $7, %eax\n je 1f\n mov leaf1_ecx(%rip), %ecx\n xor %ebx, %ebx\n xor %edx, %edx\n ret\n"
        "1: mov leaf7_ebx(%rip), %ebx\n xor %ecx, %ecx\n xor %edx, %edx\n ret\n"
        "fake_xgetbv:\n mov xcr0(%rip), %eax\n xor %edx, %edx\n ret\n.globl fake_cpuid\n.globl fake_xgetbv\n");
extern int avx2_supported(void);
int main(void) {
  int bad = 0;
  for (int m = 0; m < 32; m++) {
    leaf1_ecx = ~0u; leaf7_ebx = ~0u; xcr0 = ~0u;
    if (m & 1) leaf1_ecx &= ~(1u << 27);
    if (m & 2) leaf1_ecx &= ~(1u << 28);
    if (m & 4) leaf7_ebx &= ~(1u << 5);
    if (m & 8) xcr0 &= ~2u;
    if (m & 16) xcr0 &= ~4u;
    int r = avx2_supported() & 0xff;
    if (!!r != (m == 0)) { printf("missing bits %x: reported %d\n", m, r); bad = 1; }
  }
  return bad;
}
