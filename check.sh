#!/bin/bash
# check.sh <property> [--replay <file>]
# Builds the monitors against the working tree of /repo and runs one of them.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
id=${1:?usage: check.sh <property> [--replay file]}
shift
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
seed=${VERIF_SEED:-1}
tier=${VERIF_TIER:-quick}

flags=()
case $id in
  C01|C02|C03|C04|C05|C06|C07|C23) cmd=lang ;;
  C08) cmd=steps; flags=(-cover -covermode=atomic -coverpkg=github.com/wenerme/go-miniquery/...,mqverif/cmd/steps) ;;
  C09) cmd=state ;;
  C10) cmd=state; flags=(-race) ;;
  C11|C12|C13|C14|C15|C16) cmd=gormdb ;;
  C17|C18|C19|C20|C21|C22) cmd=entdb ;;
  *) echo "unknown property $id"; exit 3 ;;
esac

work=$(mktemp -d "${TMPDIR:-/tmp}/mqbuild-XXXXXX") || exit 3
trap 'rm -rf "$work"' EXIT
# a private copy of the module files: the build never writes into /verif or /repo
sed "s#=> /repo#=> $repo#" "$here/harness/go.mod" > "$work/go.mod"
cat "$here/harness/go.sum" "$repo/go.sum" 2>/dev/null | sort -u > "$work/go.sum"
if ! (cd "$here/harness" && go build -modfile="$work/go.mod" -mod=mod "${flags[@]}" -o "$work/$cmd" "./cmd/$cmd") > "$work/build.log" 2>&1; then
  echo "ERROR $id: the harness does not build against $repo"
  cat "$work/build.log"
  exit 3
fi
args=(-check "$id" -tier "$tier" -seed "$seed" -verif "$here")
[ "${1:-}" = --replay ] && args+=(-replay "$2")
[ -n "${VERIF_N:-}" ] && args+=(-n "$VERIF_N")
export TMPDIR=$work GOCOVERDIR=$work
"$work/$cmd" "${args[@]}"
exit $?
