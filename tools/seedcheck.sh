#!/bin/bash
# tools/seedcheck.sh ID [notest] : validates a planted bug in a scratch copy mounted over /repo (private mount namespace):
# the demo on the clean tree, build, stable tests, the demo and the property's check with the patch.
set -u
ID=$1; D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
SC=/tmp/seedrepo
[ -d $SC ] || cp -a /repo $SC
git -C $SC checkout -q -- . ; git -C $SC fetch -q /repo HEAD 2>/dev/null; git -C $SC reset -q --hard $(git -C /repo rev-parse HEAD)
export ID D P SC NOTEST=${2:-}
unshare -rm bash -c '
mount --bind $SC /repo
cd /repo
bash /opt/vp/build.sh >/tmp/sc.build 2>&1 || { echo "CLEAN BUILD FAILED"; tail -5 /tmp/sc.build; exit 1; }
bash $D/demo.sh >/tmp/sc.demo0 2>&1; echo "demo clean: $?"
git apply $D/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
if [ -z "$NOTEST" ]; then
  bash /opt/vp/test.sh /tmp/sc.out.json >/tmp/sc.test 2>&1
  python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json"))["stable"]; o=json.load(open("/tmp/sc.out.json")); s=set(o["passed"])
m=[t for t in b if t not in s]
print("stable tests:", len(b)-len(m), "of", len(b), m[:5])
P
else bash /opt/vp/build.sh >/tmp/sc.build 2>&1 || { echo "BUILD FAILED"; tail -5 /tmp/sc.build; }; fi
bash $D/demo.sh >/tmp/sc.demo1 2>&1; echo "demo patched: $? $(tail -2 /tmp/sc.demo1 | cut -c1-200)"
cd /verif; cp -a evidence /tmp/sc.evidence; node check.mjs $P | tail -6 | cut -c1-260; cp -a /tmp/sc.evidence/. evidence/; rm -rf /tmp/sc.evidence
cd /repo; git checkout -q -- .
'
