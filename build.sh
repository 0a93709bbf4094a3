#!/bin/bash
# Builds the simulator against /repo's working tree, once as shipped and once with the library's own assertions (tag debug).
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
mkdir -p .build
[ -w "$(dirname "$GOCACHE")" ] || export GOCACHE="$PWD/.build/gocache"
cd sim
go build -o ../.build/cpsim .
go build -tags debug -o ../.build/cpsim-debug .
# ... and once with a yield point before every statement of the library (tag preempt), for the scheduler of threads.go
rm -f ../.build/cpsim-preempt
if (cd ../inst && go run . /repo ../.build/inst); then
	go build -tags preempt -overlay ../.build/inst/overlay.json -o ../.build/cpsim-preempt . || echo "no preemptible build"
fi
