#!/bin/bash
# tools/mut.sh PROP FILE SED...: run the prover on a scratch copy with FILE edited (prover only, for people)
P=$1; F=$2; shift 2; D=/tmp/mut.$$; mkdir -p $D; cp -a /repo/src $D/src
sed -i -E "$@" $D/src/fpfind/$F; (cd $D && diff -ru /repo/src src | grep '^[-+]' | grep -v '^+++\|^---')
export VERIF_REPO=$D; cd /verif; W=${W:-300} tools/dbg.sh $P "${J:-}" | grep -v "^read.*obl=\|^time" | head -${H:-14}; rm -rf "$D"
