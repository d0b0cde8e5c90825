#!/bin/bash
# Builds the framework once and runs its self-tests (offline).
here=$(cd "$(dirname "$0")" && pwd) || exit 2
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOFLAGS=-buildvcs=false GOTOOLCHAIN=local GOPROXY=off GOWORK=off
cd "$here/sim" || exit 1
go vet ./simrt/... ./simatomic ./touch ./cmd/simgen ./cmd/driver || exit 1
go build -o /dev/null ./cmd/driver || exit 1
cd "$here" && ./selftest.sh || exit 1
echo ok
