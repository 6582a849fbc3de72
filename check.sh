#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   or   check.sh setup
# Sets the offline Go environment, (re)builds the verifier and runs one check on /repo.
cd "$(dirname "$0")" || exit 2
export PATH=/opt/veriftools/go1.27.3/bin:/opt/veriftools/bin:$PATH
export HOME=${HOME:-/root} GOPATH=/root/go GOCACHE=/root/.cache/go-build GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GOSUMDB=off
VERIF=$PWD
export VERIF_SEED=${VERIF_SEED:-1}
build() { (cd gv && go build -o ../bin/gv .) || exit 2; }
if [ "$1" = setup ]; then mkdir -p bin evidence; build; exit 0; fi
[ -x bin/gv ] || { mkdir -p bin; build; }
VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_TIER
exec bin/gv -repo "${VERIF_REPO:-/repo}" -verif "$VERIF" -tier "$VERIF_TIER" -check "$1"
