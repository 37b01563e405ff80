#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough]   (run.sh build: only builds the checker)
# Builds the checker from /verif/checker and decides one property on /repo.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=vendor GOWORK=off GOPROXY=off GOTOOLCHAIN=local
[ -n "$HOME" ] || export HOME=/root
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
if ! (cd "$here/checker" && go build -o "$tmp/chk" . ) >"$tmp/log" 2>&1; then
	cat "$tmp/log" >&2
	echo "the checker does not build" >&2
	exit 2
fi
[ "$1" = build ] && exit 0
unset GOFLAGS
mkdir -p "$here/evidence"
"$tmp/chk" -repo "${VERIF_REPO:-/repo}" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -evidence "$here/evidence"
