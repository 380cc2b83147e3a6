#!/bin/bash
# run.sh setup | run.sh Cxx [quick|thorough] [harness...] | run.sh replay FILE
cd "$(dirname "$0")" || exit 2
export VH_VERIF="$PWD"
. /opt/vp/env.sh
export GOSUMDB=off GONOSUMDB='*' GOFLAGS=-mod=mod
mkdir -p build evidence
src=$(cat engine/*.go engine/go.mod | sha256sum | cut -c1-16)
bin=build/vengine-$src
if [ ! -x "$bin" ]; then
  (cd engine && go build -o "../$bin.$$" . && mv "../$bin.$$" "../$bin") || { echo "the engine does not build"; exit 2; }
fi
case "$1" in
  setup) exit 0;;
  replay) exec "$bin" replay "$2";;
  *) p=$1; t=${2:-${VERIF_TIER:-quick}}; shift; shift; exec "$bin" check "$p" "$t" "$@";;
esac
