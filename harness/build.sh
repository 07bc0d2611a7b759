#!/bin/bash
# usage: build.sh OUTDIR [asan|scan|lib]   compiles /repo's current sources against the SDK stand-in
# clang, as for the device: it fixes the order in which arguments are evaluated, which the menu code depends on
set -e
out=$1; kind=${2:-asan}
here=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
mkdir -p "$out/obj-$kind"
FL=(-std=gnu11 -g -w -I"$here/sdk" -I"$here" -I"$REPO/src" -DHAVE_BAGL -DAPPNAME='"Ergo"' -DAPPVERSION='"0.0.5"'
    -DMAJOR_VERSION=0 -DMINOR_VERSION=0 -DPATCH_VERSION=5 -DMAX_BIP32_PATH=10 '-DUNUSED(x)=(void)x' -U_FORTIFY_SOURCE -DVERIF_HARNESS)
if [ "$kind" = lib ]; then FL+=(-DLIBDRV); fi
if [ "$kind" = scan ]; then FL+=(-O1 -DSCAN -Wl,-z,now -no-pie -fno-pie -fno-stack-protector); else FL+=(-O1 -fsanitize=address -fno-omit-frame-pointer); fi
ls -1 "$REPO"/src/*.c >/dev/null
{ find "$REPO/src" -name '*.c' | sort; ls "$here"/sdk/*.c "$here"/secp.c "$here"/devsim.c; } |
  xargs -P 8 -I{} bash -c 'f={}; o=$1/$(echo "$f" | tr "/" "_").o; shift; clang "$@" -D_GNU_SOURCE -include string.h -c "$f" -o "$o"' _ "$out/obj-$kind" "${FL[@]}"
clang "${FL[@]}" "$out/obj-$kind"/*.o -o "$out/devsim-$kind"
