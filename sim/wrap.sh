#!/bin/bash
# RUSTC_WRAPPER: instruments the code under test (and the thread pool it runs
# on) with a callback on every control-flow edge, and turns on its hook.
rustc="$1"; shift
name=; prev=
for a in "$@"; do [ "$prev" = --crate-name ] && name=$a; prev=$a; done
fine=()
[ -n "$SIM_FINE" ] && fine=(-Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores)
if [ -n "$SIM_ASAN" ]; then
  case "$name" in
  baokeshed|reference_impl|probe|constant_time_eq)
    # the instrumentation only: rt/asan.c stands in for its runtime
    export RUSTC_BOOTSTRAP=1
    fine+=(-Zsanitizer=address -Cllvm-args=-asan-instrumentation-with-call-threshold=0
      -Cllvm-args=-asan-use-after-return=never -Cllvm-args=-asan-instrument-dynamic-allocas=0) ;;
  esac
fi
if [ -n "$SIM_NOARCH" ] && [ "$name" = baokeshed ]; then
  # the crate as other processors get it: x86 turned off in a copy
  args=()
  for a in "$@"; do
    case "$a" in
    */src/lib.rs|src/lib.rs)
      root="$(dirname "$(dirname "$(readlink -f "$a")")")"
      copy="$CARGO_TARGET_DIR/noarch"
      rm -rf "$copy"; mkdir -p "$copy"
      for f in "$root"/*; do [ "$f" = "$root/src" ] || ln -s "$f" "$copy/"; done
      cp -r "$root/src" "$copy/src"
      find "$copy/src" -name '*.rs' -exec sed -i -E 's/target_arch *= *"x86(_64)?"/target_arch = "noarch"/g' {} +
      a="$copy/src/lib.rs" ;;
    esac
    args+=("$a")
  done
  set -- "${args[@]}"
fi
case "$name" in
baokeshed|reference_impl)
  exec "$rustc" "$@" --cfg baokeshed_sim --cap-lints allow -Cpasses=sancov-module \
    -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard "${fine[@]}" ;;
probe|constant_time_eq|simcli|rayon_core|rayon|crossbeam_deque|crossbeam_epoch|crossbeam_utils)
  [ -n "$SIM_FINE" ] && fine=()
  exec "$rustc" "$@" --cfg baokeshed_sim --cap-lints allow -Cpasses=sancov-module \
    -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard "${fine[@]}" ;;
esac
exec "$rustc" "$@"
