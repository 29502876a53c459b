#!/bin/bash
# Checks that the checker builds against /repo; the checks rebuild it themselves.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
tmp="$(mktemp -d /tmp/mcsetup.XXXXXX)" || exit 2
trap 'rm -rf "$tmp"' EXIT
cp -r "$here/mc/." "$tmp/src" && cd "$tmp/src" && go build -o "$tmp/mc" .
