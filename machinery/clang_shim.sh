#!/bin/sh
# Stands for clang in the build of ethnum-intrinsics (CLANG=...): clang-20 where
# it is installed; otherwise the LLVM of rustup's llvm-tools compiles the one
# .ll file, as clang 18 is older than the pinned rustc's LLVM and rejects its IR.
for c in /usr/bin/clang-20 /usr/lib/llvm-20/bin/clang; do
  [ -x "$c" ] && exec "$c" "$@"
done
out=
in=
while [ $# -gt 0 ]; do
  case "$1" in
    -o) out=$2; shift ;;
    *.ll) in=$1 ;;
  esac
  shift
done
[ -n "$in" ] && [ -n "$out" ] || exit 1
for b in "${RUSTUP_HOME:-/root/.rustup}"/toolchains/stable-*/lib/rustlib/*/bin \
         "${RUSTUP_HOME:-/root/.rustup}"/toolchains/nightly-*/lib/rustlib/*/bin; do
  [ -x "$b/llc" ] && [ -x "$b/opt" ] || continue
  "$b/opt" -O3 "$in" -o "$out.bc" &&
  "$b/llc" -O3 -filetype=obj -relocation-model=pic -function-sections -data-sections "$out.bc" -o "$out" && exit 0
done
exec clang -O3 -ffunction-sections -fdata-sections -fPIC -c "$in" -o "$out"
