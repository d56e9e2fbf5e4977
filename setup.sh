#!/bin/bash
# Builds the harness once, which fills the build cache and shows that it builds.
# Every check builds it again from /repo's working tree.
set -e
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=1
s=$(mktemp -d /tmp/verif-XXXXXX)
trap 'rm -rf "$s"' EXIT
cp -r "$here/harness" "$s/src"
cd "$s/src"
go test -c -vet=off -tags verif -o "$s/h.test" .
