#!/bin/bash
# mkbug.sh ID PROPERTY  (with the change made in /tmp/plant/repo): saves the diff; demo.sh and meta.json written separately
S=${PLANT:-/tmp/plant}/repo; D=/verif/seeded/$1; mkdir -p $D
cd $S && git diff > $D/patch.diff && git checkout -q -- . && wc -l $D/patch.diff
