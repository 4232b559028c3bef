#!/bin/bash
# RUSTC_WRAPPER: adds memory-access instrumentation to every target crate
# except the simulator runtime itself.  Build scripts and proc macros (built
# without --target) are left alone.
rustc="$1"; shift
crate=""; target=0; prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && crate="$a"
  [ "$a" = "--target" ] && target=1
  case "$a" in --target=*) target=1;; esac
  prev="$a"
done
if [ $target = 0 ] || [ -z "$crate" ] || [ "$crate" = "___" ]; then
  exec "$rustc" "$@"
fi
base="-Cunsafe-allow-abi-mismatch=sanitizer"
inst="-Zsanitizer=thread -Zshare-generics=no -Zexternal-clangrt -Cllvm-args=-tsan-instrument-func-entry-exit=0"
if [ "$crate" = simrt ]; then
  exec "$rustc" "$@" $base
else
  exec "$rustc" "$@" $base $inst
fi
