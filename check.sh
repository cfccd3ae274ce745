#!/bin/bash
# check.sh ID [quick|thorough]: decides one property against /repo as it is now
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
tmp=$(mktemp -d /tmp/vh.XXXXXX) || exit 2
trap 'case "$tmp" in /tmp/vh.*) rm -rf "$tmp";; esac' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
cd "$here/harness" || exit 2
if ! out=$(go build -o "$tmp/vh" . 2>&1); then
	echo "$out" >&2
	echo "the harness does not build against /repo" >&2
	exit 2
fi
cd "$here" || exit 2
VERIF_DIR=$here "$tmp/vh" check "$id" "$tier"
