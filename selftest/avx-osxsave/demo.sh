#!/bin/bash
# the feature test with cpuid/xgetbv replaced by stand-ins that report chosen feature bits
set -e
here=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
gcc -c -Dcpuid='call fake_cpuid' -Dxgetbv='call fake_xgetbv' -o "$w/a.o" "$PWD/src/ntt_asm.S"
gcc -std=gnu99 -O1 -no-pie -o "$w/d" "$here/demo.c" "$w/a.o"
"$w/d"
