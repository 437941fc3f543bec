#!/bin/bash
# usage: check.sh <property>            run the check (VERIF_TIER=quick|thorough, VERIF_SEED)
#        check.sh build                 build the engine
#        check.sh replay <property> F   re-run a recorded counterexample natively
cd "$(dirname "$0")" || exit 2
V=$PWD
export PATH=/opt/veriftools/go1.27.3/bin:/opt/veriftools/bin:$PATH
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0
export HOME=${HOME:-/root}
build() {
  mkdir -p "$V/bin"
  if [ ! -x "$V/bin/engine" ] || [ -n "$(find "$V/engine" -name '*.go' -newer "$V/bin/engine" -print -quit)" ]; then
    (cd engine && go build -o "$V/bin/engine.tmp.$$" . && mv "$V/bin/engine.tmp.$$" "$V/bin/engine") || { echo "engine build failed" >&2; exit 2; }
  fi
}
build
case "$1" in
  build) exit 0 ;;
  replay) exec "$V/bin/engine" -prop "$2" -repo "${VERIF_REPO:-/repo}" -verif "$V" -replay "$3" ;;
  *) p=$1; shift; exec "$V/bin/engine" -prop "$p" -repo "${VERIF_REPO:-/repo}" -verif "$V" "$@" ;;
esac
