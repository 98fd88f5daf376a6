#!/bin/bash
# check.sh PROPERTY quick|thorough: build the engine and decide one property
# on /repo's current working tree.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GONOSUMCHECK=1 GONOSUMDB='*'
work="$(mktemp -d /tmp/gosym-check.XXXXXX)" || exit 2
trap 'rm -rf "$work"' EXIT
(cd "$here/engine" && go build -o "$work/gosym" .) || exit 2
export TMPDIR="$work"
"$work/gosym" -dir "$here/harness" -evidence "$here/evidence" -prop "$1" -tier "${2:-quick}"
exit $?
