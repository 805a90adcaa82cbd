#!/bin/bash
# Development aid: try.sh PATCH|- "ID..." [run.py tier]: a patch (or none) against checks, in copies under /tmp.
V=/tmp/tryverif; R=/tmp/tryrepo
[ -d $R ] || cp -a /repo $R
mkdir -p $V; rsync -a --delete --exclude build --exclude work --exclude .git --exclude seeded /verif/ $V/
sed -i "s#\"/repo\"#\"$R\"#" $V/harness/Cargo.toml
git -C $R checkout -q -- .
[ "$1" = - ] || git -C $R apply $(realpath $1) || exit 9
for q in $2; do
  t=$(date +%s); (cd $V && VERIF_SEED=${SEED:-1} VERIF_TIER=${3:-quick} python3 run.py $q ${3:-quick}) > /tmp/try.$q.log 2>&1; rc=$?
  echo "$q rc=$rc $(( $(date +%s)-t ))s $(grep -m1 -A3 '^VIOLATION' /tmp/try.$q.log | cut -c1-300)"
done
git -C $R checkout -q -- .
