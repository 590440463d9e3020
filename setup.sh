#!/bin/sh
# Builds the analyzer from the committed files, offline.
set -e
cd "$(dirname "$0")/analyzer"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
mkdir -p ../bin
go build -o ../bin/analyzer .
