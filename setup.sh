#!/bin/bash
# Builds the analyzer (offline; only cached Go modules) into /verif/bin.
set -e
cd "$(dirname "$0")/analyzer"
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0
mkdir -p ../bin
go build -o ../bin/gostlsa .
