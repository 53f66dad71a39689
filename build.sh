#!/bin/bash
# Builds the analyser from its committed source, offline.
set -e
cd "$(dirname "$0")/engine"
export GOFLAGS= GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0
if [ ! -x bin/verif ] || [ -n "$(find . -name '*.go' -newer bin/verif -print -quit)" ]; then
	go build -mod=vendor -o bin/verif.new . && mv bin/verif.new bin/verif
fi
