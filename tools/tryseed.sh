#!/bin/bash
# tools/tryseed.sh ID...: build, tests and demo of planted changes in /repo, undone afterwards
V=$(cd "$(dirname "$0")/.." && pwd); cd /repo
for id in "$@"; do
  git checkout -q -- . && git apply "$V/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  if bash /opt/vp/build.sh > /tmp/ts.log 2>&1; then
    bash /opt/vp/test.sh /tmp/ts.json > /tmp/ts2.log 2>&1
    t=$(python3 -c "import json;r=json.load(open('/tmp/ts.json'));b=json.load(open('/opt/vp/BASELINE.json'))['stable'];print([x for x in b if x not in r['passed']])")
    bash "$V/seeded/$id/demo.sh" > /tmp/ts3.log 2>&1; echo "$id demo rc=$? failing stable tests=$t $(tail -1 /tmp/ts3.log)"
  else echo "$id does not build"; fi
done
git checkout -q -- .
bash /opt/vp/build.sh > /tmp/ts.log 2>&1
for id in "$@"; do bash "$V/seeded/$id/demo.sh" > /tmp/ts3.log 2>&1 || echo "$id demo fails on the unchanged tree: $(tail -3 /tmp/ts3.log)"; done
