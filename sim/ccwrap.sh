#!/bin/bash
# CC for the C variants. NEON sources are compiled against the stand-in
# <arm_neon.h>; with SIM_EMUL512=1, AVX-512 sources against emul512.h.
dir="$(dirname "$(readlink -f "$0")")/emul"
args=(); neon=; f512=
for a in "$@"; do
  case "$a" in
  *neon.c) neon=1; args+=("$a") ;;
  -mavx512*) if [ -n "$SIM_EMUL512" ]; then f512=1; else args+=("$a"); fi ;;
  *) args+=("$a") ;;
  esac
done
[ -n "$neon" ] && args+=(-I"$dir" -Wno-psabi)
[ -n "$f512" ] && args+=(-mavx2 -include "$dir/emul512.h" -Wno-psabi)
[ -n "$SIM_FINE$SIM_ASAN" ] && exec clang "${args[@]}"
exec gcc "${args[@]}"
