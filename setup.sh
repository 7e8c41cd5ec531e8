#!/bin/bash
# builds the verifier once (warms the build cache) and checks that the solvers are there
cd "$(dirname "$0")/govc" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=-mod=mod HOME=${HOME:-/root}
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
go build -o "$T/govc" . && z3 --version && cvc5 --version | head -1
