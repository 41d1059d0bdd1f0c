#!/bin/bash
# Usage: seed_check.sh ID  - takes /tmp/sr's working-tree change as seeded/ID/patch.diff (if there is one), then runs the demo on both trees
# (through REPO substitution by bind of cwd) and the property's quick check on the changed tree.
set -u
ID=$1; S=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
if [ -n "$(git -C /tmp/sr status --porcelain -uno)" ]; then git -C /tmp/sr diff > $S/patch.diff; fi
git -C /tmp/sr checkout -q -- .
(cd /tmp/sr && bash $S/demo.sh > /tmp/seedtmp/$ID.clean 2>&1); echo "demo clean: $?"
git -C /tmp/sr apply $S/patch.diff || exit 1
(cd /tmp/sr && bash $S/demo.sh > /tmp/seedtmp/$ID.bad 2>&1); echo "demo patched: $?"
VP_REPO=/tmp/sr VP_BUILD=/tmp/seedtmp/build /verif/check $P quick 2>&1 | tail -4
git -C /tmp/sr checkout -q -- .
