#!/bin/bash
# usage: check.sh setup | check.sh <property> [quick|thorough] | check.sh replay <file>
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=vendor CGO_ENABLED=0
bin=$here/bin/gosym
build() {
	mkdir -p "$here/bin" && (cd "$here/gosym" && go build -o "$bin.$$" . && mv -f "$bin.$$" "$bin") || exit 2
}
stale() {
	[ ! -x "$bin" ] || [ -n "$(find "$here/gosym" -name '*.go' -newer "$bin" -print -quit)" ]
}
repo=${VERIF_REPO:-/repo}
case ${1:-} in
setup) build ;;
replay) stale && build; exec "$bin" -verif "$here" -repo "$repo" -replay "$2" ;;
"") sed -n 2p "$0"; exit 2 ;;
*) stale && build; exec "$bin" -verif "$here" -repo "$repo" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" ;;
esac
