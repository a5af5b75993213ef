#!/bin/bash
# builds the verifier from its committed source
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin evidence
cd gvc && go build -o ../bin/gvc .
