#!/bin/bash
# Builds the symbolic engine from the committed files (offline).
set -e
cd "$(dirname "$0")/engine"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
mkdir -p ../bin
go build -o ../bin/engine.new .
mv ../bin/engine.new ../bin/engine
