#!/bin/sh
# setup.sh: builds the verifier from the committed sources
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin evidence
cd gvc && go build -o ../bin/gvc .
