#!/bin/bash
# seedtest.sh ID...   try planted bugs in private copies of /repo and /verif (mount namespace):
# builds, stable tests, demo with and without the patch, the property's quick check.
one() {
  id=$1; W=/tmp/w/$id; rm -rf "$W"; mkdir -p "$W"
  cp -a /repo "$W/repo"; cp -a /verif "$W/verif"
  unshare -m bash -c '
    id=$1; W=$2; mount --bind $W/repo /repo; mount --bind $W/verif /verif; cd /repo
    D=$W/demo; mkdir $D; cp /verif/seeded/$id/* $D/; rm -f $D/*.diff $D/meta.json
    P=$(python3 -c "import json;print(json.load(open(\"/verif/seeded/$id/meta.json\"))[\"property\"])")
    if [ -z "$NODEMO" ]; then bash /opt/vp/build.sh >$W/build0.log 2>&1; bash $D/demo.sh >$W/demo0.log 2>&1; d0=$?; fi
    git apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; exit; }
    if [ -z "$NODEMO" ]; then
    bash /opt/vp/build.sh >$W/build.log 2>&1 || { echo "$id: does not build"; exit; }
    bash $D/demo.sh >$W/demo.log 2>&1; d1=$?
    fi
    if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh $W/t.json >$W/test.log 2>&1
    t=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\"));t=json.load(open(\"$W/t.json\"))
print(sorted(set(b[\"stable\"])-set(t[\"passed\"])) or \"pass\")"); fi
    cd /verif; for p in ${CHECKS:-$P}; do VERIF_SEED=1 python3 check.py $p >$W/check.$p.log 2>&1; r="$r $p=$?"; done
    echo "$id: demo $d0/$d1 tests $t checks$r $(grep -h -m1 VIOLATION $W/check.*.log)"
  ' _ "$id" "$W" 2>&1 | tee /tmp/w/$id.out
  rm -rf "$W/repo" "$W/verif"
}
for i in "$@"; do one $i; done
