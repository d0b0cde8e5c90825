#!/bin/bash
# Self-test of the simulator: small concurrent programs run once by the Go runtime and on many
# seeded schedules by the simulator, with and without the race detector, must agree.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOFLAGS=-buildvcs=false GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1
mkdir -p "$here/build" || exit 2
out=$(mktemp -d "$here/build/selftest-XXXXXX") || exit 2
trap 'rm -rf "$out"' EXIT
cd "$here/sim" || exit 1
go run -race ./cmd/selftest native > "$out/native.json" || exit 1
go run ./cmd/simgen -out "$out" -mod "$here/sim" -pkg vsim/selftest -prefix vsim/selftest || exit 1
go build -modfile="$out/go.mod" -overlay "$out/overlay.json" -o "$out/plain" ./cmd/selftest || exit 1
# As in the driver (raceEnv): every object must be made known to the race detector.
case $(go env GOVERSION) in go1.26*|go1.27*) export GOEXPERIMENT=nosizespecializedmalloc;; esac
go build -race -modfile="$out/go.mod" -overlay "$out/overlay.json" \
	-gcflags='vsim/simrt/...=-race=false -l' -o "$out/race" ./cmd/selftest || exit 1
unset GOEXPERIMENT
"$out/plain" simulated "$out/native.json" || exit 1
"$out/race" simulated "$out/native.json" || exit 1
