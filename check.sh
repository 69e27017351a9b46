#!/bin/bash
# usage: check.sh <property> <quick|thorough>
# Builds the simulator against /repo's working tree and searches for violations.
# exit 0: held on everything explored; 1: VIOLATION line printed; other: the check itself failed.
set -u
cd "$(dirname "$0")/sim" || exit 2
ROOT=$(cd .. && pwd)
. ./env.sh
export HM_SIM_ROOT=$ROOT
PROP=${1:-}; TIER=${2:-quick}
export VERIF_SEED=${VERIF_SEED:-1}
mkdir -p target "$ROOT/evidence" "$ROOT/replays"

build() {
  exec 9>target/.hm_lock && flock 9
  # cargo goes by time stamps; the contents decide
  local sum
  sum=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$(cat target/.hm_sum 2>/dev/null)" != "$sum" ]; then
    rm -f target/.hm_sum
    cargo clean --offline -q -p hmath >/dev/null 2>&1
    (cd probe && cargo clean --offline -q --target-dir ../target/probe -p hmath >/dev/null 2>&1)
  fi
  if ! cargo build --offline -q >target/.hm_build.log 2>&1; then
    # once more from nothing
    cargo clean --offline -q >/dev/null 2>&1; mkdir -p target
    if ! cargo build --offline -q >target/.hm_build.log 2>&1; then
      grep -E '^(error|warning: unused)' -A6 target/.hm_build.log | head -60 >&2
      echo "check.sh: the simulator does not build against /repo" >&2
      return 1
    fi
  fi
  echo "$sum" >target/.hm_sum
  exec 9>&-
}

build || exit 2

if [ "$PROP" = setup ]; then exit 0; fi

if [ "$PROP" = C01 ]; then
  if ! (cd probe && cargo build --offline -q --target-dir ../target/probe >../target/.hm_probe.log 2>&1); then
    if grep -qE 'cannot be (sent|shared) between threads safely' target/.hm_probe.log; then
      R=$ROOT/replays/C01-probe.txt
      cp target/.hm_probe.log "$R"
      target/debug/hm_sim check C01 quick 8 >/dev/null 2>&1   # evidence of what else was looked at
      grep -E 'between threads safely' "$R" | head -3
      echo "VIOLATION property=C01 replay=$R"
      exit 1
    fi
    cat target/.hm_probe.log >&2
    exit 2
  fi
fi

exec target/debug/hm_sim check "$PROP" "$TIER"
