#!/bin/bash
# applies each planted bug (or those given) to /repo, runs its check, undoes it; prints one line for each
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  s=$(date +%s)
  timeout 900 python3 check.py $p quick > /tmp/bug-$d.out 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$d $p exit=$r $(($(date +%s) - s))s $(grep -a -m1 counterexample /tmp/bug-$d.out | cut -c1-260) $(grep -a -m1 'no answer' /tmp/bug-$d.out | cut -c1-200)"
done
