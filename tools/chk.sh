#!/bin/bash
# tools/chk.sh PROP FILE SED: the whole check on a scratch copy with FILE (below src/fpfind) edited
P=$1; F=$2; shift 2; D=/tmp/chk.$$; mkdir -p $D; cp -a /repo/src $D/src
[ -n "$F" ] && sed -i -E "$@" $D/src/fpfind/$F; (cd $D && diff -ru /repo/src src | grep '^[-+]' | grep -v '^+++\|^---')
cp -a /verif $D/verif; cd $D/verif; VERIF_REPO=$D timeout 900 python3-vt vf/check.py $P 2>&1 | cut -c1-300 | tail -3; echo "exit ${PIPESTATUS[0]}"
python3 -c "
import json;d=json.load(open('$D/verif/evidence/$P.json'));c=d['coverage'];print({k:c.get(k) for k in ('obligations','discharged','bounded_symbolic_search','evaluations','prover_error')},len(c.get('undecided',[])),len(c.get('failed',[])),d['wall_s'])
try: r=json.load(open('$D/verif/evidence/replay/$P.json')); print(r.get('found_by'), str(r.get('message'))[:200]) if d['violations'] else None
except Exception: pass"
rm -rf "$D"
