#!/bin/bash
# seed.sh NAME PROPERTY: vets /verif/seeded/NAME (made from the diff in the scratch copy /tmp/sr when patch.diff is missing):
# applies, builds, passes the stable tests, demo passes without and fails with it; then runs the check.
N=$1; P=$2; S=/verif/seeded/$N
cd /repo && [ -z "$(git status --short)" ] || { echo "repo not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NODEMO" ]; then bash $S/demo.sh >/tmp/demo0.log 2>&1 && echo "demo clean: ok" || { echo "demo fails on clean tree"; tail -20 /tmp/demo0.log; exit 1; }; fi
git apply $S/patch.diff || exit 1
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo "no build"; tail /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1; python3 /tmp/cmp.py
git status --short
fi
if [ -z "$NODEMO" ]; then bash $S/demo.sh >/tmp/demo1.log 2>&1 && { echo "DEMO PASSES WITH BUG"; } || { echo "demo with bug: fails (good)"; tail -4 /tmp/demo1.log; }; fi
for p in ${P//,/ }; do bash /tmp/r.sh $p 2>&1 | grep -E "^(VIOL|OK|INCON|  )" | cut -c1-250; done
