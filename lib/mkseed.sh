#!/bin/bash
# mkseed.sh <seed-id> <property> <demo.cpp> <needs> <breaks> [flags]: records the edits made in the scratch copy /tmp/seedrepo as a planted bug and confirms it.
set -eu
ID=$1 PROP=$2 DEMO=$3 NEEDS=$4 BREAKS=$5
T=/verif/seeded/$ID
mkdir -p "$T"
git -C /tmp/seedrepo diff > /tmp/seed.diff
[ -s /tmp/seed.diff ] || { echo "no edits"; exit 1; }
cp /tmp/seed.diff "$T/patch.diff"
[ "$DEMO" -ef "$T/demo.cpp" ] || cp "$DEMO" "$T/demo.cpp"
cp /verif/lib/seed_template/demo.sh "$T/demo.sh"; rm -rf "$T/stubs"; cp -r /verif/stubs "$T/stubs"
[ -n "${6:-}" ] && echo "$6" > "$T/flags"
PROP="$PROP" NEEDS="$NEEDS" BREAKS="$BREAKS" python3 - > "$T/meta.json" <<'P'
import json,os
print(json.dumps({"property":os.environ["PROP"],"needs":os.environ["NEEDS"],"what_it_breaks":os.environ["BREAKS"]},indent=1))
P
(cd /tmp/seedrepo && bash "$T/demo.sh") > /tmp/seed.patched 2>&1 && { echo "DEMO PASSES WITH PATCH"; tail -5 /tmp/seed.patched; exit 1; } || { echo "patched: rc nonzero, ok:"; tail -3 /tmp/seed.patched; }
git -C /tmp/seedrepo checkout -q -- .
(cd /tmp/seedrepo && bash "$T/demo.sh") > /tmp/seed.clean 2>&1 && echo "clean: ok" || { echo "DEMO FAILS WITHOUT PATCH"; tail -5 /tmp/seed.clean; exit 1; }
