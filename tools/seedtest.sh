#!/bin/bash
# seedtest.sh NAME [check]: confirm a seed in a scratch copy (builds, stable tests pass, demo 0 -> nonzero);
# with "check": apply to /repo, run its property's check, undo.
n=$1; s=/verif/seeded/$n
p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
if [ "$2" != check ]; then
  sc=/tmp/sc_$n; rm -rf "$sc"; cp -a /repo "$sc" && git -C "$sc" checkout -q -- . || exit 3
  (cd "$sc" && bash "$s/demo.sh" >/tmp/seed_$n.log 2>&1); a=$?
  git -C "$sc" apply "$s/patch.diff" || { echo "$n: patch does not apply"; exit 3; }
  (cd "$sc" && cargo test --offline -p protox-parse >/tmp/seedt_$n.log 2>&1); t=$?
  (cd "$sc" && bash "$s/demo.sh" >>/tmp/seed_$n.log 2>&1); b=$?
  echo "$n ($p): demo clean=$a patched=$b tests=$t"
  [ $a = 0 ] && [ $b != 0 ] || tail -5 /tmp/seed_$n.log
  [ $t = 0 ] || grep -E "^test .*FAILED|^error" /tmp/seedt_$n.log | head
  rm -rf "$sc"
else
  git -C /repo apply "$s/patch.diff" || exit 3
  (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 tools/check.py $p > /tmp/seedc_$n.log 2>&1); r=$?
  git -C /repo checkout -q -- .
  echo "$n ($p): rc $r $(grep VIOLATION /tmp/seedc_$n.log)"
  grep -E "^(FAILED|INPUT|UNDECIDED|note)" /tmp/seedc_$n.log | cut -c1-300 | head -8
fi
