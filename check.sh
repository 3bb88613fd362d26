#!/bin/bash
# check.sh <property> [flags of the runner]: builds the harness from /repo's
# working tree and decides one property. VERIF_SEED and VERIF_TIER are read.
# check.sh <property> -replay <file> replays a counterexample.
set -u
id="$1"; shift
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS="-mod=mod"
bin="$(mktemp -d /tmp/verif-build.XXXXXX)" || exit 2
trap 'rm -rf "$bin"' EXIT
export TMPDIR="$bin"
race=""
case " D01 " in *" $id "*) race="-race" ;; esac
export VERIF_HARNESS="$here/harness"
cd "$here/harness" || exit 2
# go.sum is put back so that a build never leaves a change behind
if ! go test -c $race -o "$bin/props.test" ./props >"$bin/log" 2>&1; then
  cat "$bin/log" >&2
  echo "ERROR: the harness does not build against /repo" >&2
  exit 2
fi
"$bin/props.test" -prop "$id" -out "$here/out" -evidence "$here/evidence" -known "$here/KNOWN_FINDINGS" "$@"
