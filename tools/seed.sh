#!/bin/bash
# seed.sh ID [check...]: try a planted bug: apply to /repo, (build + tests unless NOTEST=1), demo, checks; then undo.
ID=$1; shift
D=/verif/seeded/$ID
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
mkdir -p /tmp/seeddemo && rm -rf /tmp/seeddemo/* && cp -r $D/* /tmp/seeddemo/ 
bash /tmp/seeddemo/demo.sh >/tmp/seeddemo.out 2>&1 && echo "demo clean: ok" || { echo "demo clean: FAILS"; tail -5 /tmp/seeddemo.out; }
git apply $D/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NOTEST" ]; then
  bash /opt/vp/build.sh >/tmp/seedbuild.out 2>&1 || echo "BUILD FAILS"
  bash /opt/vp/test.sh /tmp/seedtest.json >/dev/null 2>&1; python3 -c "
import json;d=json.load(open('/tmp/seedtest.json'));print('tests:',{k:(len(v) if hasattr(v,'__len__') else v) for k,v in d.items()})"
fi
bash /tmp/seeddemo/demo.sh >/tmp/seeddemo.out 2>&1 && echo "demo patched: PASSES (bad)" || echo "demo patched: fails (good)"
tail -2 /tmp/seeddemo.out
for c in "$@"; do (cd /verif; python3 check.py $c quick 2>&1 | grep -v "^built\|^shrunk" | cut -c1-300; echo "$c exit ${PIPESTATUS[0]}"); done
