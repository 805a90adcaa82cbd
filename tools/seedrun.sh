#!/bin/bash
# Development aid: seedrun.sh [ID...]: each planted bug against its property's quick check, in copies under /tmp.
V=/tmp/seedverif; R=/tmp/seedrepo2
[ -d $R ] || cp -a /repo $R
mkdir -p $V; rsync -a --delete --exclude build --exclude work --exclude .git --exclude seeded /verif/ $V/
sed -i "s#\"/repo\"#\"$R\"#" $V/harness/Cargo.toml
cd /verif/seeded
for b in ${@:-*}; do
  git -C $R checkout -q -- . && git -C $R apply /verif/seeded/$b/patch.diff || { echo "$b DOES NOT APPLY"; continue; }
  p=${PROP:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")}
  for q in $p; do
  t=$(date +%s); (cd $V && VERIF_SEED=${SEED:-1} VERIF_TIER=quick python3 run.py $q quick) > /tmp/seedrun.$b.$q.log 2>&1; rc=$?
  echo "$b $q rc=$rc $(( $(date +%s)-t ))s $(grep -c '^VIOLATION property' /tmp/seedrun.$b.$q.log) $(grep -m1 -i 'panicked\|no answer\|differ\|expected\|but' /tmp/seedrun.$b.$q.log | cut -c1-160)"
  done
done
git -C $R checkout -q -- .
