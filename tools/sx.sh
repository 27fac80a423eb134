#!/bin/bash
# dev helper: sx.sh ENTRY [symex args]
O=/verif/build/out-dev; rm -rf /verif/build/out-dev; mkdir -p $O
IR=$(ls -t /verif/build/ir/debug/deps/harness-*.ll | head -1)
E=$1; shift
/usr/bin/time -f "wall %e rss %MK" /verif/engine/target/release/symex $IR $E $O "$@"; echo "exit $?"
python3 - <<'P'
import json,glob
T={};V=[];R={};S=[];CH={}
for f in glob.glob('/verif/build/out-dev/part-*.json'):
    d=json.load(open(f))
    for k,v in d.items():
        if isinstance(v,(int,float)) and not isinstance(v,bool): T[k]=T.get(k,0)+v
    V+=d['violations']; S+=d['samples']
    for k,v in d['reach'].items(): R[k]=R.get(k,0)+v
    for k,v in d['check_ids'].items(): CH[k]=CH.get(k,0)+v
print({k:(round(v,2) if isinstance(v,float) else v) for k,v in T.items()})
print('reach',R); print('checks',CH)
for v in V: print('VIOL',v['id'],v.get('what','')[:200],v['inputs'])
P
