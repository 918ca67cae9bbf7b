#!/bin/bash
# runseeds.sh [seed ids]: run the check of each planted bug on a scratch copy that has it
cd /verif
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
one() {
  id=$1; pid=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  d=/tmp/rs.$id; rm -rf $d; mkdir $d; cp -r /repo/viscid $d/; cp -r /repo/.git $d/.git 2>/dev/null
  (cd $d && git apply --include='viscid/*' /verif/seeded/$id/patch.diff) || echo "$id: PATCH FAILS"
  VERIF_REPO=$d bin/check $pid > $d/out 2>&1; echo "$id $pid rc=$?"
  rm -rf $d
}
export -f one
echo $ids | tr ' ' '\n' | xargs -P 3 -I{} bash -c 'one {}'
