#!/bin/bash
# usage: check.sh ID quick|thorough     (setup: check.sh --setup)
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GOTOOLCHAIN=local GOWORK=off
mkdir -p bin evidence replays
if ! (cd engine && go build -o ../bin/gosym.$$ . && mv -f ../bin/gosym.$$ ../bin/gosym); then
    echo "the engine does not build" >&2
    [ -x bin/gosym ] || exit 3
fi
[ "$1" = --setup ] && exit 0
exec ./bin/gosym run "$1" "${2:-quick}"
