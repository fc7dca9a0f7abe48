#!/bin/bash
# tools/rfp.sh PROP DIFF [job]: prover only, on a scratch copy with a behaviour-preserving edit applied
P=$1; d=$2; D=/tmp/rfp.$$; mkdir -p $D; cp -a /repo/src $D/src; (cd $D && patch -s -p1 < /verif/tools/refactors/$d.diff)
export VERIF_REPO=$D; cd /verif; W=${W:-300} tools/dbg.sh $P "${3:-}" | grep -v "^read.*obl=" | tail -${H:-14}; rm -rf "$D"
