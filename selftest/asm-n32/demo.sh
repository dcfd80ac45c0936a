#!/bin/bash
# assembly transform against the C one at every size
set -e
here=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
gcc -std=c99 -O1 -I"$PWD/src" -o "$w/d" "$here/demo.c" "$PWD/src/ntt_red.c" "$PWD/src/ntt_asm.S"
"$w/d"
