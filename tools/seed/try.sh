#!/bin/bash
# try.sh id [prop]: run the property's quick check against the patched repo copy
id=$1; D=/verif/seeded/$id; P=${2:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
cd /repo && git apply $D/patch.diff || exit 1
cd /verif; VERIF_SEED=1 python3 check.py $P quick > /tmp/seed/$id.chk 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$id $P rc=$rc $(grep -m1 VIOLATION /tmp/seed/$id.chk) $(grep -v VIOLATION /tmp/seed/$id.chk | tail -2 | cut -c1-200)"
