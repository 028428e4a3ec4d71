#!/bin/bash
# verify_bug.sh ID : demo passes on the clean tree; with the patch: builds, stable tests pass, demo fails, check of its property reports
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 9; }
T=/tmp/vb_$1; mkdir -p $T; cp $D/* $T/
bash $T/demo.sh >/tmp/vb_$1.clean 2>&1; echo "clean demo rc=$?"
git apply $D/patch.diff || { echo "does not apply"; exit 8; }
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/vb_$1.json 2>&1 | tail -1; fi
bash $T/demo.sh >/tmp/vb_$1.bug 2>&1; echo "bug demo rc=$?"
cd /verif; bash check.sh $P quick | grep -E "VIOLATION|obligations|FAIL|KNOWN" ; echo "check rc=${PIPESTATUS[0]}"
git -C /repo checkout -- .; [ -z "$NOTEST" ] && bash /opt/vp/build.sh >/dev/null 2>&1; rm -r $T; exit 0
