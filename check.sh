#!/bin/bash
# check.sh PROPERTY: builds the tool from /repo's working tree and the harness,
# then decides the property. Exit 0 held, 1 violated, anything else no answer.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
PROP=${1:?usage: check.sh PROPERTY}
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/dbrverif.XXXXXX") || exit 3
trap 'rm -rf "$SCRATCH"' EXIT
# the module files are copied, so that no build can rewrite /repo's
cp "$REPO/go.mod" "$SCRATCH/repo.mod" && cp "$REPO/go.sum" "$SCRATCH/repo.sum" || exit 3
build() { (cd "$REPO" && go build -modfile="$SCRATCH/repo.mod" "$@") >"$SCRATCH/build.log" 2>&1; }
fail() { cat "$SCRATCH/build.log" >&2; echo "$1 does not build" >&2; exit 3; }
# overlay FILE...: lays files of /verif/inproc into /repo as ./cmd/verifinproc
overlay() {
  local f sep=""
  printf '{"Replace":{'
  for f in "$@"; do printf '%s"%s/cmd/verifinproc/%s":"%s/inproc/%s"' "$sep" "$REPO" "$f" "$HERE" "$f"; sep=","; done
  printf '}}\n'
}
build -o "$SCRATCH/db-recovery" ./cmd/db-recovery || fail "the tool"
INPROC=""
case $PROP in
C20|C21|C22)
  # the in-process driver; C22 runs under the race detector (which also checks pointer arithmetic)
  RACE=""; [ "$PROP" = C22 ] && RACE="-race"
  if [ "$PROP" = C20 ]; then overlay main.go codec.go codec_le.go; else overlay main.go nocodec.go; fi >"$SCRATCH/overlay.json"
  if ! build $RACE -overlay "$SCRATCH/overlay.json" -o "$SCRATCH/inproc" ./cmd/verifinproc; then
    [ "$PROP" = C20 ] || fail "the in-process driver"
    overlay main.go codec.go >"$SCRATCH/overlay.json"
    build $RACE -overlay "$SCRATCH/overlay.json" -o "$SCRATCH/inproc" ./cmd/verifinproc || fail "the in-process driver"
  fi
  INPROC="$SCRATCH/inproc" ;;
esac
(cd "$HERE/harness" && go build -o "$SCRATCH/harness" .) || exit 3
export VERIF_CLI="$SCRATCH/db-recovery" VERIF_SCRATCH="$SCRATCH/cases" VERIF_ROOT="$HERE" VERIF_REPO="$REPO" VERIF_INPROC="$INPROC"
mkdir "$SCRATCH/cases"
"$SCRATCH/harness" "$PROP"
