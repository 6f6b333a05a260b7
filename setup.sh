#!/bin/bash
# Builds the analyzer from the committed files, offline.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin evidence
cd analyzer && go build -mod=vendor -o ../bin/vsa .
