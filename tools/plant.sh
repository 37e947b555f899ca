#!/bin/bash
# plant.sh ID [check...]: confirm a planted bug (build, stable tests, demo) and run the checks on it
id=$1; shift; S=/verif/seeded/$id
cd /repo || exit 2
[ -z "$(git status --short)" ] || { echo "repo dirty"; exit 2; }
D=$(mktemp -d); cp -r $S/. $D/; rm -f $D/*.diff $D/meta.json
bash /opt/vp/build.sh >/dev/null 2>&1
bash $D/demo.sh >/tmp/demo_clean.log 2>&1; echo "$id demo clean rc=$?"
git apply $S/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .; rm -rf "$D"' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD FAILED
[ -n "$NOTEST" ] || bash /verif/tools/tst.sh | head -1
bash $D/demo.sh >/tmp/demo_bug.log 2>&1; echo "$id demo patched rc=$?"
for c in "$@"; do
  (cd /verif; VERIF_SEED=1 timeout 900 bash run.sh $c quick > /tmp/chk_$id.log 2>&1; echo "$id $c rc=$? $(grep -c VIOLATION /tmp/chk_$id.log) violations"; grep -A1 -m1 VIOLATION /tmp/chk_$id.log | cut -c1-250)
done
