#!/bin/bash
# plant.sh ID: confirm a planted bug in /repo (applied and undone here): builds, passes the stable tests, demo fails with it and passes without
d=/verif/seeded/$1
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
bash $d/demo.sh >/tmp/plant.out 2>&1 && echo "demo clean: ok" || { echo "demo clean: FAILS"; tail -20 /tmp/plant.out; }
git apply $d/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/plant.out 2>&1 && echo "build ok" || { echo "BUILD FAILS"; tail -20 /tmp/plant.out; }
bash /opt/vp/test.sh /tmp/plant.json 2>&1 | tail -1
bash $d/demo.sh >/tmp/plant.out 2>&1 && { echo "demo bug: PASSES (bad)"; } || { echo "demo bug: fails as it must"; tail -5 /tmp/plant.out; }
if [ -n "$2" ]; then bash /verif/tools/check.sh $2 | tail -5; fi
git -C /repo checkout -- . ; rm -f /tmp/plant.json
