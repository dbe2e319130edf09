#!/bin/bash
# usage: plant.sh ID...   Confirms planted bugs: the patch applies, builds, passes the
# stable tests; the demonstration passes without it and fails with it; and whether
# the property's quick check reports it.  /repo must be clean; it is restored.
. /opt/vp/env.sh
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  echo "== $id ($prop)"
  t=$(mktemp -d /tmp/demo-XXXXXX); cp -r "$d"/. "$t"/; rm -f "$t"/*.diff "$t"/meta.json
  (cd /repo && bash "$t/demo.sh" >"$t/out0" 2>&1) && echo "demo clean: ok" || { echo "DEMO FAILS ON CLEAN TREE"; tail -5 "$t/out0"; }
  git -C /repo apply "$d/patch.diff" || { echo "PATCH DOES NOT APPLY"; continue; }
  /tmp/t.sh | tail -3
  (cd /repo && bash "$t/demo.sh" >"$t/out1" 2>&1) && echo "DEMO DOES NOT FAIL WITH PATCH" || { echo "demo patched: fails (ok)"; tail -3 "$t/out1"; }
  if [ -z "$NOCHECK" ]; then
  /verif/run.sh $prop >"$t/chk" 2>&1; rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop " "$t/chk"; then echo "CAUGHT by $prop"; grep -m1 ^VIOLATION "$t/chk" | cut -c1-200; else echo "MISSED by $prop rc=$rc"; tail -3 "$t/chk"; fi
  fi
  git -C /repo checkout -q -- .
  rm -rf "$t"
done
