#!/bin/bash
# Builds the checker from the committed sources, offline.
set -e
cd "$(dirname "$0")/checker"
. ./env.sh
mkdir -p ../bin
go build -o ../bin/kfcheck .
