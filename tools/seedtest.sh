#!/bin/bash
# seedtest.sh ID...: runs each demo on the clean tree and with the patch; with CHECK=1 also the property's quick check on the patched tree.
for id in "$@"; do
  d=/verif/seeded/$id
  cp -r $d /tmp/seeddemo.$$; rm -f /tmp/seeddemo.$$/patch.diff
  (cd /repo && bash /tmp/seeddemo.$$/demo.sh > /tmp/seed-$id.clean 2>&1); c=$?
  git -C /repo apply $d/patch.diff || echo "$id: patch does not apply"
  (cd /repo && bash /tmp/seeddemo.$$/demo.sh > /tmp/seed-$id.bug 2>&1); b=$?
  k=-
  if [ -n "$CHECK" ]; then
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p > /tmp/seed-$id.check 2>&1; k=$?
    grep -q "^VIOLATION property=$p" /tmp/seed-$id.check || k="$k(no line)"
  fi
  git -C /repo checkout -- .
  rm -rf /tmp/seeddemo.$$
  echo "$id: clean=$c bug=$b check=$k"
done
