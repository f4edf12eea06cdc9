#!/bin/bash
# record_old.sh COMMIT: write /verif/old with histories of the library as it was at COMMIT (run in a
# private copy of /repo; the committed files were made with the library as it was found, 84d5fb2).
set -e
git -C /repo checkout -q "$1" -- .
mkdir -p /verif/old
cd /verif/harness
. /opt/vp/env.sh 2>/dev/null || true
VERIF_RECORD=/verif/old VERIF_OUT=/tmp/old_trace.nd VERIF_SEED=1 VERIF_TIER=quick GOFLAGS=-mod=readonly go test -count=1 -run TestSystemRecord .
