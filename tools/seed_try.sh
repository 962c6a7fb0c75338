#!/bin/bash
# seed_try.sh ID [tests]: demo on the clean tree, then with the patch, (tests), then restore
d=/verif/seeded/$1
cd /repo || exit 2
[ -z "$(git status --short)" ] || { echo "repo not clean"; exit 2; }
bash "$d/demo.sh" >/tmp/seed_clean.log 2>&1; echo "clean rc=$?"
git apply "$d/patch.diff" || exit 2
grep -l "__pythran__\|boost" $(git diff --name-only) >/dev/null 2>&1 && bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1
timeout 300 bash "$d/demo.sh" >/tmp/seed_bug.log 2>&1; echo "patched rc=$?"
[ "$2" = tests ] && bash /opt/vp/test.sh /tmp/seed_t.json 2>&1 | tail -1
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
(cd /verif && timeout 900 python3 check.py "$prop" 2>&1 | grep -v "^note\|^      " | tail -5)
git checkout -q -- .
