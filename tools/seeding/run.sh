#!/bin/bash
# run.sh ID...: run the property's check against the seeded bug in a scratch copy
for id in "$@"; do
  r=/tmp/seed/run.$id; rm -rf $r; cp -a /repo $r
  git -C $r apply /verif/seeded/$id/patch.diff || { echo $id APPLY FAIL; continue; }
  p=${PROP:-$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
  s=$(date +%s)
  ZZ_REPO=$r timeout 900 bash /verif/check.sh $p quick >/tmp/seed/out.$id.$p 2>&1; rc=$?
  echo "$id $p rc=$rc $(($(date +%s)-s))s $(grep -a VIOLATION /tmp/seed/out.$id.$p|head -1|cut -c1-100)"
  rm -rf $r
done
