#!/bin/bash
# Adds the compiler's own coverage callbacks (edges, loads, stores, comparisons) to the library under
# test and to the operation catalogue; the simulator uses them as preemption points.
rc=$1; shift
case " $* " in
  *" --crate-name hmath "*|*" --crate-name hm_ops "*)
    exec "$rc" "$@" -C passes=sancov-module \
      -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-trace-pc-guard \
      -C llvm-args=-sanitizer-coverage-trace-compares \
      -C llvm-args=-sanitizer-coverage-trace-loads \
      -C llvm-args=-sanitizer-coverage-trace-stores ;;
esac
exec "$rc" "$@"
