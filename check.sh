#!/bin/bash
# check.sh PROPERTY quick|thorough: decide one property by symbolic execution of /repo
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
[ -x bin/gosym ] || ./setup.sh || exit 2
exec bin/gosym check -property "$1" -tier "$2"
