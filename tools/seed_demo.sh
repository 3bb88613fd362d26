#!/bin/bash
# builds the program beside this file against the working tree in $PWD and runs it
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d /tmp/demo.XXXXXX)" || exit 3
trap 'rm -rf "$d"' EXIT
cp "$here"/*.go "$d"/ && cp "$repo/go.sum" "$d/go.sum" || exit 3
cat > "$d/go.mod" <<M
module demo

go 1.26

require github.com/zhiqiangxu/qrpc v0.0.0

require go.uber.org/zap v1.21.0

require github.com/go-kit/kit v0.9.0

replace github.com/zhiqiangxu/qrpc => $repo
M
cd "$d" || exit 3
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GONOSUMCHECK=1
go build -o demo . || exit 3
timeout 200 ./demo
