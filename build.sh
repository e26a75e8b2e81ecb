#!/bin/bash
# Builds the analyser from the committed files, offline.
cd "$(dirname "$0")/checker" || exit 2
mkdir -p ../bin
export GOPROXY=off GOWORK=off CGO_ENABLED=0 GOTOOLCHAIN=local
GOFLAGS=-mod=vendor exec go build -o ../bin/ck .
