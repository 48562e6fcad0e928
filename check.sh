#!/bin/bash
# check.sh ID [quick|thorough]: builds the simulation from /repo's working
# tree and decides property ID. Exit 0 held, 1 violation, anything else error.
cd "$(dirname "$0")" || exit 2
V=$(pwd)
tier=${2:-${VERIF_TIER:-quick}}
mkdir -p .work
exec 9>.work/lock
flock 9
out=$(./build.sh 2>&1) || { echo "$out" >&2; exit 2; }
cp .work/harness .work/harness.$$ || exit 2
flock -u 9
trap 'rm -f "$V/.work/harness.$$"' EXIT
.work/harness.$$ check -prop "$1" -tier "$tier" -seed "${VERIF_SEED:-1}" -verif "$V" -work "$V/.work"
