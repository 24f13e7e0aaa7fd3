#!/bin/bash
# mk.sh id property "needs" "breaks" : takes diff from /tmp/wt, demo from /tmp/seed/<id>.cpp (+ first line // FLAGS: ... // SRC: ...)
set -e
id=$1; D=/verif/seeded/$id
rm -rf $D; mkdir -p $D
git -C /tmp/wt diff > $D/patch.diff
test -s $D/patch.diff
cp /tmp/seed/$id.cpp $D/demo.cpp
cp -r /verif/stubs $D/stubs
FL=$(sed -n 's,^// FLAGS: ,,p' $D/demo.cpp); SRC=$(sed -n 's,^// SRC: ,,p' $D/demo.cpp)
cat > $D/demo.sh <<X
#!/bin/bash
# run in the repository: exit 0 when the property holds for this scenario
H=\$(cd "\$(dirname "\$0")" && pwd)
T=\$(mktemp -d) || exit 2
trap 'rm -rf "\$T"' EXIT
I="-I\$H/stubs"
for d in ecl_*/include; do I="\$I -I\$d"; done
g++ -std=gnu++14 -g -w -pthread \$I $FL "\$H/demo.cpp" $SRC -o "\$T/demo" -lrt || exit 2
cd "\$T" && timeout 100 ./demo
X
chmod +x $D/demo.sh
python3 - "$@" <<'P'
import json,sys
id,p,n,b=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open('/verif/seeded/%s/meta.json'%id,'w'),indent=1)
P
# verify
(cd /repo && bash $D/demo.sh >/tmp/seed/$id.ok 2>&1) && a=0 || a=$?
(cd /tmp/wt && bash $D/demo.sh >/tmp/seed/$id.bad 2>&1) && b=0 || b=$?
echo "$id demo clean=$a patched=$b  $(tail -1 /tmp/seed/$id.bad)"
if [ $a != 0 ]; then tail -5 /tmp/seed/$id.ok; fi
(cd /tmp/wt && git checkout -q -- .)
