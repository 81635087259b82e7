#!/bin/bash
# builds the deductive verifier into /verif/.build/dv (offline, from the module cache)
cd "$(dirname "$0")/dv" || exit 1
mkdir -p ../.build
GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off go build -o ../.build/dv.new . && mv ../.build/dv.new ../.build/dv
