#!/bin/bash
# tools/seed.sh ID            verify seeded/ID in a scratch copy: applies, builds, tests, demo both ways
# tools/seed.sh ID check      and run its property's quick check on /repo with the patch applied
set -u
id=$1; S=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
base=$(bash /opt/vp/test.sh /tmp/seed_base.json 2>/dev/null | tail -1)
(cd /repo && bash "$S/demo.sh" >/tmp/seed_demo0.log 2>&1); d0=$?
git -C /repo apply "$S/patch.diff" || { echo "$id: does not apply"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1 || echo "$id: BUILD FAILS"
t=$(bash /opt/vp/test.sh /tmp/seed_t.json 2>/dev/null | tail -1)
(cd /repo && timeout 300 bash "$S/demo.sh" >/tmp/seed_demo1.log 2>&1); d1=$?
r=""
if [ "${2:-}" = check ]; then
  cd /verif; timeout 900 python3 check.py "$prop" quick >/tmp/seed_check.log 2>&1; r="check=$? $(grep -c ^VIOLATION /tmp/seed_check.log) $(grep -A1 ^VIOLATION /tmp/seed_check.log | grep obligation | head -2 | tr -s ' ' | tr '\n' ';')"
fi
ok=OK; [ "$d0" = 0 ] && [ "$d1" != 0 ] && [ "$t" = "$base" ] || ok=BAD
echo "$id $prop $ok demo $d0/$d1 tests [$t] $r"
