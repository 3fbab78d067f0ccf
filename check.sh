#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decides one property for /repo's working tree
# check.sh replay FILE                 replays a recorded counterexample
# check.sh setup                       builds the engine
set -u
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod
export HOME=${HOME:-/root}
mkdir -p "$here/.build" || exit 2
(cd "$here/engine" && go build -o "$here/.build/vsym" .) || { echo "engine does not build"; exit 2; }
case "${1:-}" in
  setup) exit 0 ;;
  replay) exec "$here/.build/vsym" replay "$2" ;;
  "") echo "usage: check.sh PROPERTY [quick|thorough]"; exit 2 ;;
  *) exec "$here/.build/vsym" check -verif "$here" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" ;;
esac
