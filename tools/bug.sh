#!/bin/bash
# dev: bug.sh ID...: confirm a planted bug in a scratch copy, then see whether the property's check catches it
set -u
W=/tmp/bw; mkdir -p $W/vp
[ -d $W/repo ] || { cp -a /repo $W/repo; rm -rf $W/repo/_build; }
for f in build.sh test.sh env.sh results.py utpp_case_runner.cc BASELINE.json; do sed "s#/repo#$W/repo#g; s#/opt/vp#$W/vp#g" /opt/vp/$f > $W/vp/$f; done
for ID in "$@"; do
  B=/verif/seeded/$ID
  H=$(git -C /repo rev-parse HEAD)
  git -C $W/repo checkout -q -- . ; git -C $W/repo fetch -q /repo main && git -C $W/repo reset -q --hard $H || { echo "$ID: cannot refresh"; continue; }
  bash $W/vp/build.sh >$W/b0.log 2>&1 || { echo "$ID: clean build failed"; continue; }
  (cd $W/repo && timeout 300 bash $B/demo.sh >$W/d0.log 2>&1); r0=$?
  git -C $W/repo apply $B/patch.diff || { echo "$ID: patch does not apply"; continue; }
  bash $W/vp/build.sh >$W/b1.log 2>&1 || { echo "$ID: patched build failed"; git -C $W/repo checkout -q -- .; continue; }
  (cd $W/repo && timeout 300 bash $B/demo.sh >$W/d1.log 2>&1); r1=$?
  bash $W/vp/test.sh $W/out.json >$W/t.log 2>&1
  miss=$(python3 -c "
import json
b=json.load(open('$W/vp/BASELINE.json'));o=json.load(open('$W/out.json'))
print(len(set(b['stable'])-set(o['passed'])), sorted(set(b['stable'])-set(o['passed']))[:3])")
  git -C $W/repo checkout -q -- .
  P=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
  if [ -n "${SKIPCHECK:-}" ]; then echo "$ID: demo clean=$r0 patched=$r1 (tail: $(tail -n1 $W/d1.log | cut -c1-100)) tests missing: $miss"; continue; fi
  git -C /repo apply $B/patch.diff
  s=$(date +%s); (cd /verif && VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 check.py $P quick >$W/c.log 2>&1); rc=$?; e=$(date +%s)
  git -C /repo checkout -q -- .
  echo "$ID ($P): demo clean=$r0 patched=$r1 ($(tail -n1 $W/d1.log | cut -c1-100)) tests missing: $miss | check rc=$rc $((e-s))s: $(grep VIOLATION $W/c.log | head -1)"
done
