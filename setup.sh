#!/bin/bash
# Compiles the monitors once so that a broken toolchain shows before any check.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p "$here/evidence"
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp "$here/harness/go.mod" "$here/harness/go.sum" "$work/"
cd "$here/harness"
go build -modfile="$work/go.mod" -mod=mod -o "$work/" ./cmd/...
echo setup ok
