#!/bin/bash
# mut.sh module file 'sed-expr' [functions]: run the generator on a mutated scratch copy
d=$(mktemp -d /tmp/mut.XXXX); cp -a /repo/src $d/src
sed -i "$3" $d/src/$2; diff -rq /repo/src $d/src >/dev/null && echo "NO CHANGE"
cd /verif; VERIF_REPO=$d python3-vt vcg/verify.py $1 "${@:4}" | cut -c1-${W:-260} | grep -v ^verified; rm -rf $d
