#!/bin/bash
# try.sh <seeded id> [property...]: runs checks against a scratch copy of /repo with the planted bug (development aid)
id=$1; shift
d=/tmp/try.$id.$$; mkdir -p $d; cp -a /repo/. $d/ --no-target-directory 2>/dev/null; rm -rf "$d/_build"
git -C $d apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; rm -rf "$d"; exit 3; }
props=${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
for p in $props; do
  out=$(cd /verif && REDSEA_REPO=$d REDSEA_EVIDENCE=/tmp/ev.$$ timeout 900 python3 check.py $p 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$out" | grep -v '^ ' | head -${L:-1} | cut -c1-200)"
done
rm -rf "$d" /tmp/ev.$$
