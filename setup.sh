#!/bin/bash
# builds the harness once (a check builds its own) and parses the specification
set -e
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
cd "$here/harness"
go build -o /dev/null .
cd "$here/spec"
for f in *.tla; do tla-sany "$f" >/dev/null; done
