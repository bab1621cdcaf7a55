#!/bin/bash
# plant.sh ID CHECK...: validate /verif/seeded/ID in a scratch copy of /repo and run checks against it
set -u
ID=$1; shift
S=${PLANT:-/tmp/plant}; D=/verif/seeded/$ID
mkdir -p $S
if [ ! -d $S/repo ]; then cp -a /repo $S/repo; fi
cd $S/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
. /opt/vp/env.sh 2>/dev/null
b() { cargo build --workspace --offline >$S/build.log 2>&1; }
b || { echo "base build failed"; tail -5 $S/build.log; exit 2; }
rm -rf $S/demo; mkdir $S/demo; cp -a $D/. $S/demo/; rm -f $S/demo/*.diff $S/demo/meta.json
# demo.sh runs with cwd /repo: scratch copy is bind-free, so demos use $PWD
( cd $S/repo && timeout 300 bash $S/demo/demo.sh >$S/demo0.log 2>&1 ); r0=$?
git apply $D/patch.diff || { echo "patch does not apply"; exit 2; }
b || { echo "patched build failed"; tail -20 $S/build.log; git checkout -q -- .; exit 2; }
( cd $S/repo && timeout 300 bash $S/demo/demo.sh >$S/demo1.log 2>&1 ); r1=$?
cargo test --workspace --offline --no-fail-fast >$S/test.log 2>&1
echo "demo unpatched=$r0 patched=$r1; tests: $(grep -E '^test result' $S/test.log | awk '{p+=$4; f+=$6} END {print p" passed "f" failed"}')"
for c in "$@"; do ( cd /verif && SA_REPO=$S/repo SA_BUILD=$S/sabuild python3 sa/run.py $c | grep -v KNOWN | cut -c1-300 | tail -4 ); done
cd $S/repo && git checkout -q -- .
