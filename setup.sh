#!/bin/bash
# setup.sh: build the symbolic executor and the native replay driver once, from
# the committed files only (checks rebuild them; this warms the build cache).
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
work="$(mktemp -d /tmp/gosym-setup.XXXXXX)"
trap 'rm -rf "$work"' EXIT
(cd "$here/engine" && go build -o "$work/gosym" .)
(cd "$here/harness" && go build -o "$work/replay" ./cmd/... )
echo "setup ok"
