#!/bin/bash
# Builds and runs sim/cmd/driver.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export VSIM_HOME=$here GOFLAGS=-buildvcs=false GOTOOLCHAIN=local GOPROXY=off GOWORK=off
mkdir -p "$here/build" || exit 2
bin=$(mktemp "$here/build/driver-XXXXXX") || exit 2
(cd "$here/sim" && go build -o "$bin" ./cmd/driver) || { rm -f "$bin"; exit 2; }
"$bin" "$@"
rc=$?
rm -f "$bin"
exit $rc
