#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough] [suite:case]
# Builds the monitors against the repository's current working tree in a scratch
# directory and runs the ones of a property.
set -u
export VERIF_DIR=${VERIF_DIR:-$(cd "$(dirname "$0")" && pwd)}
export VERIF_REPO=${VERIF_REPO:-/repo}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GOOS GOARCH GOCOVERDIR GORACE GODEBUG GOMEMLIMIT GOGC GOMAXPROCS
prop=$1 tier=${2:-${VERIF_TIER:-quick}} only=${3:-}
W=$(mktemp -d) || exit 2
[ -n "${MON_KEEP:-}" ] || trap 'rm -rf "$W"' EXIT
export TMPDIR=$W
sed "s#=> /repo#=> $VERIF_REPO#" "$VERIF_DIR/harness/go.mod" >"$W/go.mod"
cp "$VERIF_DIR/harness/go.sum" "$W/go.sum"
cd "$VERIF_DIR/harness" || exit 2
build() { go build -modfile="$W/go.mod" "$@" . ; }
flags=(-cover -covermode=set -coverpkg=github.com/ipfs/go-ipld-git,verif/harness)
build "${flags[@]}" -o "$W/mon" || { echo "HARNESS-ERROR: build failed" >&2; exit 2; }
if [ "$prop" = C16 ]; then
  build -race -o "$W/mon-race" || { echo "HARNESS-ERROR: race build failed" >&2; exit 2; }
  export MON_RACE_BIN=$W/mon-race
fi
if [ "$prop" = C22 ]; then
  # run the repository's generator and build once more with its output
  mkdir "$W/gen" && cp "$VERIF_REPO/go.mod" "$W/repo.mod" && cp "$VERIF_REPO/go.sum" "$W/repo.sum"
  if (cd "$VERIF_REPO" && go run -modfile="$W/repo.mod" ./gen "$W/gen") >"$W/gen.log" 2>&1 && ls "$W/gen"/*.go >>"$W/gen.log" 2>&1; then
    { printf '{"Replace":{'; sep=
      for f in "$W/gen"/*.go; do printf '%s"%s/%s":"%s"' "$sep" "$VERIF_REPO" "$(basename "$f")" "$f"; sep=,; done
      printf '}}\n'; } >"$W/overlay.json"
    if build -overlay="$W/overlay.json" -o "$W/mon-gen" >>"$W/gen.log" 2>&1; then export MON_GEN_BIN=$W/mon-gen; else export MON_GEN_FAIL=$W/gen.log; fi
  else
    export MON_GEN_FAIL=$W/gen.log
  fi
fi
if [ "$prop" = C25 ]; then
  # a 32-bit build, and one with a standard library whose clock and environment can be turned
  GOARCH=386 CGO_ENABLED=0 build -o "$W/mon-386" || { echo "HARNESS-ERROR: 32-bit build failed" >&2; exit 2; }
  python3 "$VERIF_DIR/tools/ambient.py" "$(go env GOROOT)" "$W/ambient" || { echo "HARNESS-ERROR: the standard library could not be instrumented" >&2; exit 2; }
  CGO_ENABLED=0 build -tags ambient -ldflags=-checklinkname=0 -overlay="$W/ambient/overlay.json" -o "$W/mon-ambient" || { echo "HARNESS-ERROR: instrumented build failed" >&2; exit 2; }
  export MON_386_BIN=$W/mon-386 MON_AMBIENT_BIN=$W/mon-ambient
fi
mkdir "$W/cov" && export GOCOVERDIR=$W/cov
"$W/mon" check "$prop" "$tier" $only
