#!/bin/bash
# Sensitivity runs: build csvpp from a scratch clone of /repo with a patch applied (or at a commit)
# and run checks against it.   try.sh [-c COMMIT] [-R REVERT_COMMIT]... [-p PATCH] -- C01 C02 ...
V="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
W=/tmp/vtry; SRC=$W/src
mkdir -p $W
commit=""; patch=""; rev=()
while [ $# -gt 0 ]; do case "$1" in
 -c) commit=$2; shift 2;; -p) patch=$(realpath $2); shift 2;; -R) rev+=($2); shift 2;; --) shift; break;; *) break;; esac; done
[ -d $SRC ] || git clone -q /repo $SRC
git -C $SRC fetch -q origin && git -C $SRC checkout -q -f "${commit:-$(git -C /repo rev-parse HEAD)}" && git -C $SRC clean -fdq -e target
for c in "${rev[@]}"; do git -C $SRC revert --no-commit $c || { echo "revert of $c conflicts"; git -C $SRC revert --abort; git -C $SRC reset -q --hard; exit 9; }; done
[ -n "$patch" ] && { git -C $SRC apply "$patch" || exit 9; }
[ -d $W/build ] || cp -a $V/build $W/build
VERIF_REPO=$SRC VERIF_BUILD=$W/build $V/build.sh || exit 8
mkdir -p $W/v; cp $V/known-findings.txt $W/v/ 2>/dev/null
for p in "$@"; do
  timeout 900 $V/sim/target/release/simdrive check --property $p --secs ${SECS:-25} --sut $W/build/sut/release/csvpp --simlib $V/sim/target/release/libsimlib.so --verif $W/v 2>$W/err.$p | cut -c1-${CUT:-700}
  echo "$p rc ${PIPESTATUS[0]}"
  [ -n "$SHOW" ] && tail -1 $W/err.$p | cut -c1-600
done
git -C $SRC reset -q --hard
