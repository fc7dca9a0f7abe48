#!/bin/bash
# runseeds.sh [id...]: own property's check against each seeded bug (scratch copies; authoring aid)
cd /verif/seeded; L="$@"; [ -n "$L" ] || L=$(ls)
one() { b=$1; p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
 d=$(mktemp -d); cp -a /repo $d/r; cp -a /verif $d/v; git -C $d/r apply /verif/seeded/$b/patch.diff || echo BAD
 s=$(date +%s); o=$(cd $d/v && VERIF_REPO=$d/r VERIF_SEED=1 VERIF_TIER=quick python3-vt vf/check.py $p 2>&1); rc=$?
 m=$(python3 -c "
import json
try: r=json.load(open('$d/v/evidence/replay/$p.json')); print((r.get('found_by') or '-'), '|', [x['name'] for x in r.get('failed_obligations',[])][:1] or r.get('failed_obligation'), '|', str(r.get('message'))[:110].replace(chr(10),' '))
except Exception as e: print('none')")
 echo "$b rc=$rc $(( $(date +%s)-s ))s ${o:0:60} ${o##*replay*json} $m"; rm -rf "$d"; }
export -f one
echo $L | tr ' ' '\n' | xargs -P 4 -I{} bash -c 'one {}'
