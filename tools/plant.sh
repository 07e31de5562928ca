#!/bin/bash
# plant.sh ID [--keep]: with the change already made in /tmp/pl/repo (a copy of
# /repo with its build), store the patch and confirm it: builds, stable tests
# pass, demo fails with it and passes without it.
ID=$1
D=/verif/seeded/$ID
mkdir -p $D
cp /verif/tools/demo/lib.sh $D/
rm -rf $D/compat; cp -r /verif/compat $D/compat
git -C /tmp/pl/repo diff > $D/patch.diff
git -C /tmp/pl/repo diff --stat | tail -2
git -C /repo apply --check $D/patch.diff || exit 1
echo "== demo with change"; (cd /tmp/pl/repo && timeout 300 bash $D/demo.sh > /tmp/pl/d1 2>&1; echo "exit $?"; tail -3 /tmp/pl/d1 | cut -c1-300)
git -C /tmp/pl/repo stash -q
echo "== demo without"; (cd /tmp/pl/repo && timeout 300 bash $D/demo.sh > /tmp/pl/d0 2>&1; echo "exit $?"; tail -3 /tmp/pl/d0| cut -c1-300)
git -C /tmp/pl/repo stash pop -q
