#!/bin/bash
# Runs the check of each planted bug (all, or those named) on scratch copies, several at a time.
# usage: trybugs.sh [-a PROPS] [id ...]
cd /verif/seeded; ids="$*"; [ -z "$ids" ] && ids=$(ls)
one() {
  id=$1; d=$(mktemp -d /tmp/try.XXXXXX); cp -a /repo $d/repo
  if ! git -C $d/repo apply /verif/seeded/$id/patch.diff 2>/dev/null; then echo "$id: patch does not apply"; rm -rf "$d"; return; fi
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  FLATE_REPO=$d/repo timeout 900 /verif/bin/analyzer -property $p -tier quick -out $d/ev > $d/out 2>&1; rc=$?
  echo "$id: $p exit $rc; $(grep -m1 '\] ' $d/out | cut -c1-170)"
  rm -rf "$d"
}
export -f one
echo $ids | tr ' ' '\n' | xargs -P ${J:-2} -I{} bash -c 'one {}'
