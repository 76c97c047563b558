#!/bin/bash
# check.sh ID: runs the static check of one property against /repo.
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=vendor CGO_ENABLED=0
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
bin=.bin/sa
if [ ! -x $bin ] || [ -n "$(find sa -name '*.go' -newer $bin -print -quit)" ]; then
	mkdir -p .bin && (cd sa && go build -o ../.bin/sa.$$ . && mv ../.bin/sa.$$ ../.bin/sa) || { echo "cannot build the analyser" >&2; exit 2; }
fi
[ "$1" = setup ] && exit 0
[ "$2" = thorough ] && export VERIF_TIER=thorough
exec $bin -prop "$1" -repo "${VERIF_REPO:-/repo}" -evidence evidence -known KNOWN_FINDINGS.txt
