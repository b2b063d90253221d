#!/bin/bash
# Builds the analyzer from the committed sources, offline.
set -e
cd "$(dirname "$0")"
. ./env.sh
cd analyzer
mkdir -p bin
go build -o bin/goyacc golang.org/x/tools/cmd/goyacc
go build -o bin/an.tmp.$$ .
mv -f bin/an.tmp.$$ bin/an
