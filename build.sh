#!/bin/bash
# builds the verifier offline into /verif/bin
set -e
cd "$(dirname "$0")/tool"
mkdir -p ../bin
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -o ../bin/govc .
