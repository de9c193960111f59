#!/bin/bash
# mkseed.sh ID PROPERTY NEEDS BREAKS < check.mjs : records the uncommitted change of the scratch
# copy /tmp/wt as seeded/ID with a demonstration made of tools/demo and the given check.mjs.
set -e
ID=$1; D=/verif/seeded/$1; mkdir -p "$D"
git -C /tmp/wt diff > "$D/patch.diff"
test -s "$D/patch.diff"
K=${KIND:-instr}
if [ "$K" = instr ]; then cp /verif/tools/demo/{demo.sh,demo.mjs,main.rs,demo.lock,demo.toml} "$D/"; else cp /verif/tools/demo-$K/* "$D/"; fi
if [ "$K" = oxide ]; then cat > "$D/check.rs"; else cat > "$D/check.mjs"; fi

ID="$1" P="$2" N="$3" B="$4" python3 - <<'P' > "$D/meta.json"
import json,os
print(json.dumps({"property":os.environ['P'],"needs":os.environ['N'],"what_it_breaks":os.environ['B']},indent=1))
P
