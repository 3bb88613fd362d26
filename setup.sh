#!/bin/bash
# builds the harness once (warms the build cache)
set -u
cd "$(dirname "$0")/harness" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
d="$(mktemp -d /tmp/verif-build.XXXXXX)" || exit 2
trap 'rm -rf "$d"' EXIT
go test -c -o "$d/props.test" ./props
