#!/bin/bash
# tryseed.sh ID...: applies each planted bug in /repo, builds, runs the tests, its demo and its property's check.
for id in "$@"; do
  S=/verif/seeded/$id
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 1; }
  bash /opt/vp/build.sh >/tmp/ts.log 2>&1
  T=$(mktemp -d); cp $S/* $T/; rm -f $T/*.diff $T/meta.json
  (cd /repo && bash $T/demo.sh >/tmp/ts.demo0 2>&1); d0=$?
  git -C /repo apply $S/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/ts.log 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/ts.json >/dev/null 2>&1
  t=$(python3 -c "import json;d=json.load(open('/tmp/ts.json'));print(len(d['passed']),d['failed'])")
  [ -n "$CC" ] && { bash /opt/vp/test_cc.sh /tmp/tscc.json >/dev/null 2>&1; c=$(python3 -c "import json;d=json.load(open('/tmp/tscc.json'));print(len(d['passed']),d['failed'])"); }
  (cd /repo && bash $T/demo.sh >/tmp/ts.demo1 2>&1); d1=$?
  rm -rf "$T"
  if [ -z "$NOCHECK" ]; then
  s=$SECONDS; (cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 -B sim/check.py $P >/tmp/ts.check-$id 2>&1); k=$?; s=$((SECONDS-s)); fi
  [ -z "$NOCHECK" ] && python3 - $id "$(grep -m1 '^class:' /tmp/ts.check-$id | cut -c8-)" <<'P'
import json, sys
p = '/verif/tools/caught.json'
d = json.load(open(p))
d[sys.argv[1]] = sys.argv[2] or 'missed'
json.dump(d, open(p, 'w'), indent=1, sort_keys=True)
P
  git -C /repo checkout -q -- .; git -C /repo clean -fdq src
  echo "$id [$P]: demo clean=$d0 build=$b tests=$t cc=$c demo bug=$d1 check=$k (${s}s) $(grep -m1 '^class:' /tmp/ts.check-$id)"
done
bash /opt/vp/build.sh >/tmp/ts.log 2>&1
