#!/bin/bash
# run.sh PROPERTY [quick|thorough] [engine flags]   decide one property
# run.sh setup                                      build the engine
# run.sh replay FILE                                replay a recorded violation natively
export PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod
V="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$V/bin" "$V/evidence"
( cd "$V/engine" && go build -o "$V/bin/verif.$$" . && mv -f "$V/bin/verif.$$" "$V/bin/verif" ) || { echo "ERROR: the engine does not build"; exit 2; }
case "$1" in
setup) exit 0 ;;
replay) exec "$V/bin/verif" replay -verif "$V" -file "$2" ;;
selftest) shift; exec "$V/bin/verif" selftest -verif "$V" "$@" ;;
esac
P="$1"; T="${2:-quick}"; shift; shift
exec "$V/bin/verif" run -verif "$V" -prop "$P" -tier "$T" "$@"
