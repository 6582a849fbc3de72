#!/bin/bash
# Runs TestDemo from demo_test.go beside this file against the code in the current directory.
dir=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root} GOPATH=${GOPATH:-/root/go} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
{
  echo '{"Replace": {'
  for f in "$repo"/*_test.go; do echo "\"$f\": \"\","; done
  echo "\"$repo/zz_demo_test.go\": \"$dir/demo_test.go\""
  echo '}}'
} > "$tmp/overlay.json"
timeout 240 go test -overlay "$tmp/overlay.json" -vet=off -count=1 -run '^TestDemo$' . > "$tmp/out" 2>&1
rc=$?
tail -30 "$tmp/out"
exit $rc
