#!/bin/bash
# check.sh ID...      build the analyzer from /verif/analyzer and decide the properties on /repo's working tree.
# check.sh --build    only build (setup).
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}"
export PATH=/usr/local/bin:/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GO111MODULE=on CGO_ENABLED=1
unset GOROOT
out=$(mktemp -d) || exit 2
trap 'rm -rf "$out"' EXIT
id=${1:-}
fail() {
  echo "$1"
  [ "$id" = "--build" ] && exit 1
  echo "VIOLATION property=$id replay=none"
  exit 1
}
cp -r "$here/analyzer" "$out/src" || fail "cannot copy the analyzer"
( cd "$out/src" && go build -o "$out/glv" . ) || fail "the analyzer does not build"
[ "$id" = "--build" ] && { echo built; exit 0; }
"$out/glv" -repo /repo -verif "$here" -prop "$id"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then fail "the analyzer ended with status $rc"; fi
exit $rc
