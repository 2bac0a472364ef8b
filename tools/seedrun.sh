#!/bin/bash
# seedrun.sh <seed id> [checks...]: shows that a planted change builds, passes the tests, is exposed by its demo and
# (for the listed checks) whether it is caught. Works on /repo's tree and always restores it.
id=$1; shift
d=/verif/seeded/$id
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NODEMO" ]; then
bash "$d/demo.sh" >/tmp/w/demo0.log 2>&1; echo "$id demo clean rc=$? (want 0)"
fi
git apply "$d/patch.diff" || { echo "patch does not apply"; exit 2; }
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >/tmp/w/build.log 2>&1; echo "$id build rc=$?"
bash /opt/vp/test.sh /tmp/w/t.json >/tmp/w/test.log 2>&1; grep -o '"failed": *\[[^]]*\]' /tmp/w/t.json || head -c 300 /tmp/w/t.json
bash "$d/demo.sh" >/tmp/w/demo1.log 2>&1; echo "$id demo patched rc=$? (want nonzero): $(tail -1 /tmp/w/demo1.log | cut -c1-160)"
fi
for c in "$@"; do
  ( cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick ./check.sh "$c" >/tmp/w/check-$c.log 2>&1; echo "$id check $c rc=$?: $(tail -2 /tmp/w/check-$c.log | cut -c1-220 | tr '\n' '|')" )
done
