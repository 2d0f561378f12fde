#!/bin/bash
# mkseed.sh ID PROPERTY NEEDS WHAT [components]: takes the change in the scratch worktree /tmp/wt and /tmp/ID.cpp
# as the demonstration, verifies that the demonstration separates the two trees, writes seeded/ID
set +e
id=$1; prop=$2; needs=$3; what=$4; comps=$5
d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/wt diff > $d/patch.diff
cp /tmp/$id.cpp $d/demo.cpp
rm -rf $d/kit; cp -r /verif/demo_kit $d/kit; rm -f $d/kit/mkseed.sh
python3 - "$d" "$prop" "$needs" "$what" <<'P'
import json,sys
d,p,n,w=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(d+"/meta.json","w"),indent=1)
P
cat > $d/demo.sh <<P
#!/bin/bash
# exit 0: the property holds; nonzero: it is broken (builds the library of the current directory's tree)
here=\$(cd "\$(dirname "\$0")" && pwd)
work=\$(mktemp -d) || exit 2
trap 'rm -rf "\$work"' EXIT
python3 "\$here/kit/build.py" "\$here/demo.cpp" "\$work/demo" $comps || exit 3
cd "\$work"
for i in 1 2 3; do timeout 60 ./demo || exit 1; done
exit 0
P
chmod +x $d/demo.sh
if [ -z "$SKIP" ]; then
(cd /repo && bash $d/demo.sh > /tmp/seed_clean.log 2>&1; echo "clean rc $?"; tail -3 /tmp/seed_clean.log)
(cd /tmp/wt && bash $d/demo.sh > /tmp/seed_bug.log 2>&1; echo "bug rc $?"; tail -3 /tmp/seed_bug.log)
fi
git -C /tmp/wt checkout -q -- .
