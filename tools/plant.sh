#!/bin/bash
# plant.sh ID PROP "needs" "what it breaks": turns the uncommitted change in /repo
# into seeded/ID (demo.cpp must be there already), confirms it, runs the check.
ID=$1; PROP=$2; D=/verif/seeded/$ID
cd /repo || exit 2
git diff > $D/patch.diff; [ -s $D/patch.diff ] || { echo "no change in /repo"; exit 2; }
cat > $D/demo.sh <<'S'
#!/bin/bash
# Exit 0 when the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf -- "$W"' EXIT
g++ -std=gnu++17 -O1 -w -DPDFMM_SHARED -I/repo/_build/src -I/repo/_build/src/pdfmm -I/repo/src -I/repo/3rdparty -I/usr/include/freetype2 -I/usr/include/libxml2 \
  "$D/demo.cpp" -o "$W/demo" /repo/_build/target/libpdfmm.so /repo/_build/target/libpdfmm_private.a -Wl,-rpath,/repo/_build/target -lcrypto -lfontconfig -lfreetype -lxml2 -lpng -ltiff -ljpeg -lidn -lz -lpthread || exit 2
cd "$W" && timeout 250 ./demo
S
python3 - "$D" "$PROP" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
bash /opt/vp/test.sh /tmp/plant.json > /tmp/plant.log 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/plant.json'))
print('tests failing with the patch:', [x for x in b['stable'] if x not in t['passed']])"
bash $D/demo.sh; echo "demo with patch: $? (wanted nonzero)"
/verif/check $PROP 2>&1 | tail -8; 
git checkout -q -- .; bash /opt/vp/build.sh > /dev/null 2>&1
bash $D/demo.sh; echo "demo without: $? (wanted 0)"
