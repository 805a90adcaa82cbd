#!/bin/bash
# t.sh ID [args]
mkdir -p /verif/work/dbg$1; id=$1; shift
/verif/build/native/release/magog-monitor run $id --work /verif/work/dbg$id "$@"; echo rc=$?
python3 - <<P
import json
d=json.load(open('/verif/work/dbg$id/result.json'))
print({k:d[k] for k in ('cases','evaluations','distinct_nontrivial','worker_s','slow','missing','time_cap_hit')})
print(d['categories'])
for v in d['violations'][:2]: print('VIOL',v['index'],v['message'][:400])
for v in d['harness'][:2]: print('HARN',v['index'],v['message'][:400])
P
