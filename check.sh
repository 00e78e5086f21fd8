#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuild from /repo and decide one property.
V="$(cd "$(dirname "$0")" && pwd)"
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
case $tier in quick) budget=${BUDGET:-25} ;; *) tier=thorough; budget=${BUDGET:-600} ;; esac
export BUILD=${BUILD:-$V/.build}
mkdir -p "$V/evidence" "$V/replays" "$BUILD"
rm -f "$V/evidence/$prop.json"
exec 9> "$BUILD/.lock"
flock 9
log="$BUILD/build.log"
if ! bash "$V/build.sh" > "$log" 2>&1; then
	cat "$log" >&2
	echo "check error: the simulation could not be built from the tree under test" >&2
	exit 3
fi
cp "$BUILD/runner" "$BUILD/runner.$$"
exec 9>&-
trap 'rm -f "$BUILD/runner.$$"' EXIT
"$BUILD/runner.$$" check -prop "$prop" -seed "$seed" -tier "$tier" -budget "$budget" -verif "$V" -out "${OUT:-$V}"
