#!/bin/bash
# tools/cmut.sh PROP SED-E: prover only on freqcd.c edited
D=/tmp/cmut.$$; mkdir -p $D/src/fpfind/lib; cp /repo/src/fpfind/freqcd.c $D/src/fpfind/; P=$1; shift
sed -i -E "$@" $D/src/fpfind/freqcd.c; diff /repo/src/fpfind/freqcd.c $D/src/fpfind/freqcd.c | grep '^[<>]' | cut -c1-120
VF_DEBUG=1 VERIF_REPO=$D python3-vt /verif/vf/cfreq/prove.py $P | grep -v ^RESULT | grep -v '^ ' | cut -c1-${W:-220}; rm -rf "$D"
