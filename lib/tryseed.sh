#!/bin/bash
# tryseed.sh ID...: author's tool: applies a planted change to /repo, builds and tests, runs the demo and the property's check, undoes it.
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
  bash /opt/vp/build.sh >/dev/null 2>&1
  bash $d/demo.sh >/tmp/demo_ok.log 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /verif/lib/repotest.sh >/tmp/seedtest.log 2>&1; t=$?
  bash $d/demo.sh >/tmp/demo_bad.log 2>&1; b=$?
  cd /verif; python3 check.py $prop >/tmp/seedcheck_$id.log 2>&1; c=$?
  git -C /repo checkout -q -- .
  echo "$id prop=$prop demo-clean=$a(0) tests=$t(0: $(tail -1 /tmp/seedtest.log)) demo-patched=$b(!0) check=$c(1) $(grep -m1 -A1 VIOLATION /tmp/seedcheck_$id.log | tail -1 | cut -c1-140)"
done
cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1
