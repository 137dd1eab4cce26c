#!/bin/bash
# bug.sh <id> [checks...]: applies seeded/<id>/patch.diff to /repo, builds, runs the
# tests, the demo and the checks (all by default), and undoes it.
cd /verif || exit 2
d=/verif/seeded/$1
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
id=$1; shift
if [ -n "$NODEMO" ]; then :; else (cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo.out 2>&1; echo "demo clean: $?"); fi
git -C /repo apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/bug.build 2>&1 || { echo "does not build"; tail -20 /tmp/bug.build; exit 2; }
bash /opt/vp/test.sh /tmp/bug.json 2>/dev/null | tail -1
[ -n "$NODEMO" ] || (cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo.out 2>&1; echo "demo patched: $?"; tail -3 /tmp/demo.out)
for c in ${@:-$(python3 -c "import json;print(*[x['property'] for x in json.load(open('MANIFEST.json'))['checks']])")}; do
  timeout 900 bash check.sh $c quick >/tmp/bug.$c 2>&1; r=$?
  [ $r = 0 ] || echo "$c: exit $r $(grep -c VIOLATION /tmp/bug.$c) violations: $(sed -n 2p /tmp/bug.$c | cut -c1-150)"
done
