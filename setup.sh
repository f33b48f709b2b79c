#!/bin/bash
# builds the verifier (also done by ./check when needed) and warms the build cache
cd "$(dirname "$0")" || exit 1
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS= HOME=${HOME:-/root}
mkdir -p bin evidence
(cd govc && GOWORK=off go build -mod=mod -o ../bin/govc .)
