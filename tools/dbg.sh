#!/bin/bash
# tools/dbg.sh PROP [job substring]: prover output for people, condensed
cd /verif/vf && VF_DEBUG=1 timeout 900 python3-vt prove.py "$1" ${TIER:-quick} "${2:-}" 2>&1 | grep -v ^RESULT | cut -c1-${W:-700} | head -${H:-60}
