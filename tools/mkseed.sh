#!/bin/bash
# mkseed.sh ID: record the current change of a scratch worktree /tmp/mk as /verif/seeded/ID/patch.diff, and add the demo helpers
ID=$1; S=/verif/seeded/$ID; mkdir -p "$S"
git -C /tmp/mk diff > "$S/patch.diff"; git -C /tmp/mk checkout -q -- .
cp /verif/tools/demo.h "$S/demo.h"; cp /verif/tools/demo.sh "$S/demo.sh"
