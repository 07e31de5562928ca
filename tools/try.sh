#!/bin/bash
# try.sh ID PROP [time]: run a check against a scratch copy of /repo with the planted change
ID=$1; P=$2; T=${3:-25}
rm -rf /tmp/try/repo; mkdir -p /tmp/try
git clone -q /repo /tmp/try/repo
git -C /tmp/try/repo apply /verif/seeded/$ID/patch.diff || exit 3
cd /verif && VERIF_REPO=/tmp/try/repo VERIF_BUILD=/tmp/try/build VERIF_EVIDENCE=/tmp/try/evidence python3 check.py $P --time $T 2>&1 | tail -${4:-6} | cut -c1-400
