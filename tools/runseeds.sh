#!/bin/bash
# runseeds.sh [ids...]: applies each planted bug to a scratch copy and runs its property's check there
cd /verif || exit 1
ids=${*:-$(ls seeded)}
export VX_BUILD=/tmp/vxbuild
[ -d /tmp/seedrepo ] || cp -a /repo /tmp/seedrepo
for i in $ids; do
  git -C /tmp/seedrepo fetch -q /repo && git -C /tmp/seedrepo reset -q --hard FETCH_HEAD
  git -C /tmp/seedrepo apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  out=$(VX_REPO=/tmp/seedrepo python3 check.py $p quick 2>&1); rc=$?
  echo "$i $p rc=$rc $(echo "$out" | grep -c no-failing-input) $(echo "$out" | grep -E 'failing input|failed obl|VIOL' | cut -c1-200 | tr '\n' ' ')"
done
git -C /tmp/seedrepo reset -q --hard FETCH_HEAD
