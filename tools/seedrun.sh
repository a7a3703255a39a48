#!/bin/bash
# seedrun.sh [ID...]: run the property's quick check against each planted bug, in a scratch copy of /repo
V=$(cd "$(dirname "$0")/.." && pwd)
cd "$V" || exit 2
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls seeded))
one() {
  id=$1; p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  w=$(mktemp -d /tmp/seedrun.XXXXXX); cp -a /repo $w/repo; git -C $w/repo apply $V/seeded/$id/patch.diff || echo "APPLY FAILED $id"
  mkdir -p $w/verif/evidence; cp -a $V/harness $V/bin $w/verif/
  s=$(date +%s); (cd $w/verif && timeout 900 bin/gosym -repo $w/repo -verif $w/verif -prop $p -tier quick) > $w/out 2>&1; rc=$?
  e=$(date +%s)
  echo "$id $p rc=$rc $((e-s))s $(grep -m1 VIOLATION $w/out) $(grep -m1 -i 'label\|assert' $w/out | cut -c1-150)"
  rm -rf $w
}
export -f one; export V
printf '%s\n' "${ids[@]}" | xargs -P ${J:-3} -I{} bash -c 'one {}'
