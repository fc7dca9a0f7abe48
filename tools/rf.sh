#!/bin/bash
# tools/rf.sh PROP DIFF...: the whole check on a scratch copy with behaviour-preserving edits applied (must stay quiet)
P=$1; shift
for d in "$@"; do
D=/tmp/rfx.$$; mkdir -p $D; cp -a /repo $D/repo; cp -a /verif $D/verif
git -C $D/repo apply /verif/tools/refactors/$d.diff || echo "does not apply: $d"
cd $D/verif; t=$(date +%s); o=$(VERIF_REPO=$D/repo VERIF_SEED=1 timeout 900 python3-vt vf/check.py $P 2>&1 | tail -1 | cut -c1-220); echo "$P $d: $o ($(( $(date +%s) - t )) s)"
python3 -c "
import json;d=json.load(open('$D/verif/evidence/$P.json'));c=d['coverage'];print('   ',len(c.get('undecided',[])),len(c.get('failed',[])),[str(x)[:160] for x in c.get('undecided',[])[:3]],str(c.get('prover_error'))[:300])"
cd /; rm -rf "$D"; done
