#!/bin/bash
# usage: run.sh PROPERTY — decides one property against /repo's current working tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
[ -x bin/gvc ] && [ -z "$(find gvc -name '*.go' -newer bin/gvc -print -quit)" ] || ./setup.sh || exit 2
exec bin/gvc check "$1"
