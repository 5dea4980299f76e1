#!/bin/bash
# check.sh PROPERTY [--tier quick|thorough] [--case N]: build what the property needs from /repo, then decide it.
cd "$(dirname "$0")" || exit 2
export LANG=C.UTF-8 LC_ALL=C.UTF-8
unset CFLAGS CXXFLAGS LDFLAGS MAKEFLAGS
P=$1; shift
. ./checks.conf
spec=${CHECK[$P]}
[ -n "$spec" ] || { echo "no check for $P"; exit 2; }
set -- "$P" "$@"
read -r variant harness tools <<<"$spec"
main=${variant%%,*} # further variants: only the tools, as libraries (asan: as programs)
build() { make -s -j"$(nproc)" V=$1 "${@:2}"; }
all() {
  local v t targets
  for v in ${variant//,/ }; do
    targets=(); [ $v = $main ] && targets=("build/$v/$harness")
    for t in $tools; do if [ $v = asan ] && [ $v != $main ]; then targets+=("build/$v/x_$t"); else targets+=("build/$v/lib$t.so"); fi; done
    build $v "${targets[@]}" || return 1
  done
}
mkdir -p build evidence
log=build/log.$P.$$
if ! all >"$log" 2>&1; then cat "$log" >&2; rm -f "$log"; echo "build failed for $P"; exit 2; fi
rm -f "$log"
exec "build/$main/$harness" "$@"
