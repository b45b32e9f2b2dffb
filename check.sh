#!/bin/bash
# Usage: check.sh <property> [quick|thorough]; check.sh --build
# Builds the analyser when needed and runs one rule on /repo's current source.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
bin="$here/checker/bin/vpcheck"
build() {
	mkdir -p "$here/checker/bin" || return 1
	local tmp="$bin.$$"
	(cd "$here/checker" && GOFLAGS=-mod=vendor GOPROXY=off go build -o "$tmp" .) && mv -f "$tmp" "$bin"
}
if [ ! -x "$bin" ] || [ -n "$(find "$here/checker" -name '*.go' -newer "$bin" -print -quit)" ]; then
	build || { echo "cannot build the analyser"; exit 3; }
fi
[ "$1" = "--build" ] && exit 0
exec "$bin" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo "${VP_REPO:-/repo}" -evidence "${VP_EVIDENCE:-$here/evidence}" -known "$here/known-findings.txt"
