#!/bin/bash
# builds the symbolic execution engine from the committed sources, offline
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
mkdir -p bin evidence replays
cd engine && go build -o ../bin/gosym .
