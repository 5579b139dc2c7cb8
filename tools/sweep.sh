#!/bin/bash
# sweep.sh [ID...]: runs the property's check against each planted bug, in a scratch copy
cd "$(dirname "$0")/.."
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
one() {
  b=$1; d=$(mktemp -d /tmp/sweep.XXXXXX)
  git clone -q /repo $d/repo && git -C $d/repo apply $PWD/seeded/$b/patch.diff
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  o=$(SA_REPO=$d/repo SA_NOWRITE=1 timeout 900 python3 check.py $p 2>&1); rc=$?
  echo "$b $p rc=$rc $(echo "$o" | grep -c '^VIOLATION') $(echo "$o" | tail -1 | cut -c1-150)"
  rm -rf "$d"
}
export -f one
printf '%s\n' $ids | xargs -P 8 -I{} bash -c 'one {}'
