#!/bin/bash
# setup.sh: builds the checker and warms the build cache of replay binaries.
set -e
cd "$(dirname "$0")"
export GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod GOTOOLCHAIN=local
mkdir -p bin/gocache evidence replay
(cd engine && go build -o ../bin/vx .)
./bin/vx warm || true
