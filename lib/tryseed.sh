#!/bin/bash
# tryseed.sh <seed-id> [property]: run the property's check against a scratch copy carrying the planted bug.
ID=$1; PROP=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
rm -rf /tmp/tryrepo.$ID; mkdir /tmp/tryrepo.$ID; cp -r /repo/include /repo/src /tmp/tryrepo.$ID/
(cd /tmp/tryrepo.$ID && patch -s -p1 < /verif/seeded/$ID/patch.diff) || exit 9
cd /verif && EDIE_REPO=/tmp/tryrepo.$ID EDIE_NOEVID=1 python3 check.py $PROP > /tmp/try.$ID.log 2>&1; rc=$?
echo "$ID $PROP rc=$rc $(grep -m1 VIOLATION /tmp/try.$ID.log)"
rm -rf /tmp/tryrepo.$ID
