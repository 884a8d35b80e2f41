#!/bin/bash
# Warms the build caches; every check builds what it needs again.
cd "$(dirname "$0")" || exit 1
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
T=$(mktemp -d "${TMPDIR:-/tmp}/dbrverif.XXXXXX") || exit 1
trap 'rm -rf "$T"' EXIT
cp "$REPO/go.mod" "$T/repo.mod" && cp "$REPO/go.sum" "$T/repo.sum" || exit 1
(cd harness && go build -o "$T/harness" .) || exit 1
(cd "$REPO" && go build -modfile="$T/repo.mod" -o "$T/cli" ./cmd/db-recovery && go build -race -modfile="$T/repo.mod" -o "$T/clirace" ./cmd/db-recovery) || exit 1
echo "setup done"
