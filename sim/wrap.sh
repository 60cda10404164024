#!/bin/sh
# RUSTC_WRAPPER: adds the simulator's yield points to the library and to what it is made of
prev=
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then
    case "$a" in
      undname)
        exec "$@" --cfg undname_sim '-Cpasses=sancov-module function(tsan)' \
          -Cllvm-args=-sanitizer-coverage-level=3 \
          -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
          -Cllvm-args=-sanitizer-coverage-trace-loads \
          -Cllvm-args=-sanitizer-coverage-trace-stores ;;
      core|alloc|bumpalo|arrayvec|smallvec)
        exec "$@" -Cpasses=sancov-module \
          -Cllvm-args=-sanitizer-coverage-level=3 \
          -Cllvm-args=-sanitizer-coverage-trace-pc ;;
    esac
  fi
  prev="$a"
done
exec "$@"
