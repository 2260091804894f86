#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [--replay FILE] [--cases N]
# Builds the harness against the current tree of /repo and runs one check.
set -u
prop=${1:?property}
tier=${VERIF_TIER:-quick}
shift
case "${1:-}" in quick|thorough) tier=$1; shift ;; esac
verif=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
seed=${VERIF_SEED:-1}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
real_home=${HOME:-/root}
export GOPATH=${GOPATH:-/root/go}
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=${GOMODCACHE:-$GOPATH/pkg/mod}
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local

scratch=$(mktemp -d /tmp/yisp-check.XXXXXX) || exit 2
cleanup() { chmod -R u+w "$scratch" 2>/dev/null; rm -rf "$scratch"; }
trap cleanup EXIT
trap 'exit 2' INT TERM
export HOME="$scratch/home" # the go command keeps counters in it

{
  printf '{"Replace": {'
  sep=
  for f in "$verif"/harness/*.go; do
    printf '%s"%s/zz_verif/vh/%s": "%s"' "$sep" "$repo" "$(basename "$f")" "$f"
    sep=', '
  done
  printf '}}\n'
} > "$scratch/overlay.json"
mkdir -p "$scratch/bin" "$scratch/home"

race=
[ "$prop" = C16 ] && race=-race
cd "$repo" || exit 2
if ! go build -buildvcs=false $race -overlay "$scratch/overlay.json" -o "$scratch/bin/vh" ./zz_verif/vh 2>"$scratch/build.log"; then
  cat "$scratch/build.log" >&2
  echo "the harness does not build" >&2
  exit 2
fi
if ! go build -buildvcs=false -o "$scratch/bin/yisp" . 2>"$scratch/build.log"; then
  cat "$scratch/build.log" >&2
  echo "yisp does not build" >&2
  exit 2
fi
cd "$scratch" || exit 2
export VH_REAL_HOME="$real_home" VH_REPO="$repo" TMPDIR="$scratch"
"$scratch/bin/vh" run -prop "$prop" -tier "$tier" -seed "$seed" -bin "$scratch/bin" -verif "$verif" -scratch "$scratch" "$@"
