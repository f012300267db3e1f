#!/bin/bash
# usage: check.sh ID [--case KEY | --shards N]     (VERIF_TIER=thorough for the deep exploration)
# exit 0: held on everything explored, 1: violated, 2: no answer
d=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
mkdir -p "$d/work" "$d/target"
if ! "$d/build.sh" >"$d/target/build-$1.log" 2>&1; then
  tail -n 12 "$d/target/build-$1.log"
  echo "ENGINE-ERROR $1: the checker does not build against /repo"
  exit 2
fi
exec "$d/target/mc/debug/check" "$@"
