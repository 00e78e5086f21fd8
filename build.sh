#!/bin/bash
# Builds the simulation runner from the current tree of /repo (or $REPO) into
# /verif/.build (or $BUILD). Nothing in /repo is written.
set -e
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod
V="$(cd "$(dirname "$0")" && pwd)"
REPO=${REPO:-/repo}
BUILD=${BUILD:-$V/.build}
mkdir -p "$BUILD"
cd "$V/tools"
go build -o "$BUILD/instr" ./instr
"$BUILD/instr" "$REPO" "$BUILD/joy5" "$V/sim/shim/shims.txt"
{
	cat "$V/sim/go.mod"
	echo "require github.com/nareix/joy5 v0.0.0"
	echo "replace github.com/nareix/joy5 => $BUILD/joy5"
	grep -v '^module\|^go ' "$REPO/go.mod"
} > "$BUILD/sim.mod"
cp "$REPO/go.sum" "$BUILD/sim.sum"
cd "$V/sim"
go build -modfile="$BUILD/sim.mod" -o "$BUILD/runner" ./cmd/runner
