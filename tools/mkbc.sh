#!/bin/bash
# mkbc.sh OUT.bc BUILDDIR HARNESS.c [extra cflags...]: compile /repo's current sources + models + harness to one bitcode module.
# Repository objects are compiled once into BUILDDIR/repo (BUILDDIR is private to one check run).
set -eo pipefail
V=$(cd "$(dirname "$0")/.." && pwd); R=${DICTU_REPO:-/repo}
OUT=$1; B=$2; H=$3; shift 3
mkdir -p "$B/repo"
COMMON="-std=gnu11 -O1 -Xclang -disable-llvm-passes -g -fno-builtin -ffp-contract=off -D__NO_CTYPE -DDISABLE_HTTP -DINCLUDE_SQLITE_LIB -ftrivial-auto-var-init=pattern -emit-llvm -w"
if [ ! -f "$B/repo/.done" ]; then
  find "$R/src/vm" "$R/src/optionals" -name '*.c' | grep -v -E '/(http|sqlite3)\.c$' > "$B/repo/list"
  xargs -P8 -I{} sh -c "clang $COMMON $REPO_CFLAGS -c {} -o $B/repo/\$(echo {} | tr / _).bc" < "$B/repo/list"
  clang $COMMON -I"$V/rt" -c "$V/rt/libc.c" -o "$B/repo/rt_libc.bc"
  llvm-link "$B"/repo/*.bc -o "$B/repo.all"
  touch "$B/repo/.done"
fi
clang $COMMON "$@" -iquote "$R/src/vm" -iquote "$R/src" -iquote "$R/src/optionals" -I"$V/rt" -I"$V/harness" -c "$H" -o "$OUT.h.bc"
clang $COMMON "$@" -iquote "$R/src/vm" -I"$V/rt" -c "$V/rt/symstr.c" -o "$OUT.s.bc"
llvm-link "$B/repo.all" "$OUT.h.bc" "$OUT.s.bc" -o "$OUT.all"
opt -passes='internalize,globaldce,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg)' -internalize-public-api-list=${KEEP:-harness},wrap_copyString,wrap_takeString,copyString,takeString "$OUT.all" -o "$OUT"
rm -f "$OUT.all" "$OUT.h.bc" "$OUT.s.bc"
