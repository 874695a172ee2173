#!/bin/bash
# seedtry.sh ID [nocheck]: applies seeded/ID to a scratch clone, runs its demo on both trees and the property's check on the patched one
ID=$1; D=/verif/seeded/$ID; S=/tmp/sr.$ID
rm -rf "$S"; git clone -q /repo "$S" || exit 2
PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
(cd "$S" && timeout 300 bash "$D/demo.sh" >/tmp/seedtry.$ID.clean 2>&1); echo "$ID demo on unchanged: $?"
git -C "$S" apply "$D/patch.diff" || { echo "$ID: patch does not apply"; exit 2; }
(cd "$S" && timeout 300 bash "$D/demo.sh" >/tmp/seedtry.$ID.bug 2>&1); echo "$ID demo on patched: $?  $(tail -1 /tmp/seedtry.$ID.bug | cut -c1-150)"
if [ "$2" != nocheck ]; then
  VF_REPO=$S VF_BUILD=/tmp/sb.$ID VERIF_SEED=1 VF_EVIDENCE=/tmp/ev.$ID python3 /verif/run.py $PROP quick >/tmp/seedtry.$ID.check 2>&1; echo "$ID check: $?  $(grep VIOLATION /tmp/seedtry.$ID.check | head -2 | cut -c1-220)"
fi
rm -rf "/tmp/sr.$ID" "/tmp/sb.$ID"
