#!/bin/bash
# Builds the analyser from the committed sources (vendored modules, no network).
set -e
cd "$(dirname "$0")/vstat"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= HOME="${HOME:-/root}"
mkdir -p ../bin
go build -mod=vendor -o ../bin/vstat.$$ .
mv -f ../bin/vstat.$$ ../bin/vstat
