#!/bin/bash
# check.sh PROPERTY: builds the verifier from /verif/govc and checks the property against /repo's working tree
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=-mod=mod HOME=${HOME:-/root}
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
(cd govc && go build -o "$T/govc" .) || exit 2
"$T/govc" check "$1"
