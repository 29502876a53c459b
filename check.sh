#!/bin/bash
# usage: check.sh ID [quick|thorough] [-only CASE]
# Builds the checker against /repo's current tree and runs one property check.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
export VERIF_DIR="$here"
id="$1"; tier="${2:-quick}"; shift; shift || true
tmp="$(mktemp -d /tmp/mcbuild.XXXXXX)" || exit 2
trap 'rm -rf "$tmp"' EXIT
cp -r "$here/mc/." "$tmp/src" || exit 2
if ! (cd "$tmp/src" && go build -o "$tmp/mc" . ) ; then
  echo "checker does not build against /repo" >&2
  exit 2
fi
export TMPDIR="$tmp"
"$tmp/mc" -tier "$tier" "$@" "$id"
