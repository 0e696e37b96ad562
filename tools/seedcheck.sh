#!/bin/bash
# tools/seedcheck.sh [ids...]: run each seeded change's own check on a scratch copy of /repo with the change applied
cd /verif
[ $# = 0 ] && set -- $(ls seeded)
one() { id=$1; P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
R=/tmp/sb-$id; rm -rf "$R"; mkdir "$R"; cp -a /repo/. "$R/"; git -C "$R" checkout -q -- .; git -C "$R" apply /verif/seeded/$id/patch.diff || echo "$id PATCH FAILS"
V=/tmp/sv-$id; rm -rf "$V"; mkdir "$V"; cp -a /verif/*.py /verif/*.json* /verif/pyvc /verif/rac /verif/contracts "$V/"
SALIB_REPO=$R python3 "$V/check.py" $P > /tmp/sc-$id.txt 2>&1; echo "$id $P exit $? $(grep -c no-failing-input /tmp/sc-$id.txt) $(head -1 /tmp/sc-$id.txt | cut -c1-60) $(grep -B1 -m1 VIOLATION /tmp/sc-$id.txt | head -1 | cut -c1-110)"
rm -rf "$R" "$V"; }
export -f one
printf "%s\n" "$@" | xargs -P 3 -I{} bash -c 'one {}'
