#!/bin/bash
cd "$(dirname "$0")/engine" || exit 2
export HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0
mkdir -p ../bin && env -u GOROOT /usr/local/bin/go build -o ../bin/gosym . && echo built
