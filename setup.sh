#!/bin/bash
# Builds the verifier from the committed sources, offline.
set -e
cd "$(dirname "$0")"
. ./env.sh
mkdir -p bin
cd gocv
go build -o ../bin/gocv .
