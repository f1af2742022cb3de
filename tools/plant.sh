#!/bin/bash
# plant.sh ID: confirm a planted bug in the scratch copy /tmp/w (built from /repo):
# demo passes without, patch applies, builds, stable tests pass, demo fails with it.
# The edit is taken from /tmp/w's working tree when it differs from HEAD, else from seeded/ID/patch.diff.
id=$1; d=/verif/seeded/$id; mkdir -p $d
[ -d /tmp/w ] || { cp -a /repo /tmp/w; }
mkdir -p /tmp/vpw; sed 's#/repo#/tmp/w#g' /opt/vp/env.sh > /tmp/vpw/env.sh
. /tmp/vpw/env.sh
cd /tmp/w || exit 1
if [ -n "$(git status --porcelain -uno)" ]; then git diff > $d/patch.diff; git checkout -q -- .; fi
[ -s $d/patch.diff ] || { echo "no patch"; exit 1; }
git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
t=$(mktemp -d); cp $d/demo* $t/ 
b() { cargo test --workspace --no-run --offline --locked > /tmp/vpw/build.log 2>&1; }
b || { echo "base build failed"; exit 1; }
bash $t/demo.sh > /tmp/vpw/demo0.log 2>&1; r0=$?
git apply $d/patch.diff || { echo "does not apply"; exit 1; }
b || { echo "patched build failed"; grep -E '^error' -A5 /tmp/vpw/build.log | head -20; git checkout -q -- .; exit 1; }
bash $t/demo.sh > /tmp/vpw/demo1.log 2>&1; r1=$?
timeout -k 10 840 cargo nextest run --workspace --no-fail-fast --offline --locked --tool-config-file vp:/opt/vp/nextest.toml > /tmp/vpw/test.log 2>&1; r2=$?
git checkout -q -- .
rm -r "$t"
echo "$id: demo base=$r0 (want 0) patched=$r1 (want nonzero) tests=$r2 (want 0)"
[ $r0 = 0 ] || tail -5 /tmp/vpw/demo0.log
[ $r1 != 0 ] && tail -2 /tmp/vpw/demo1.log
[ $r2 = 0 ] || grep -E 'FAIL|failed' /tmp/vpw/test.log | head -5
[ $r0 = 0 ] && [ $r1 != 0 ] && [ $r2 = 0 ]
