#!/bin/bash
# tools/seed_try.sh ID: builds, tests and demonstrates the planted bug ID in a scratch copy of /repo, and runs its
# property's quick check against that copy (VERIF_REPO). The sandbox's own build scripts name /repo, so the scratch
# copy is built with the same CMake project and other directories.
id=$1; d=/verif/seeded/$id; S=$(mktemp -d /tmp/seed.XXXXXX)
trap 'rm -rf "$S"' EXIT
git clone -q /repo $S/repo || exit 9
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
(cd $S/repo && bash $d/demo.sh > $S/demo0.log 2>&1); echo "demo clean: $? (want 0)"
git -C $S/repo apply $d/patch.diff || exit 8
cmake -S /opt/vp/cmake -B $S/b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DREPO=$S/repo > $S/log 2>&1 && ninja -C $S/b > $S/log 2>&1 || { tail -20 $S/log; echo "BUILD FAILED"; }
$S/b/modbus_tests 2>&1 | tail -2
(cd $S/repo && bash $d/demo.sh > $S/demo1.log 2>&1); echo "demo patched: $? (want nonzero)"; tail -3 $S/demo1.log
[ -n "$UP" ] && bash /verif/tools/upstream_tests.sh $S/repo
for p in ${2:-$prop}; do
VERIF_REPO=$S/repo timeout 900 python3 ${VERIF:-/verif}/checks/run.py $p quick 2> $S/err | tail -3 | cut -c1-400; done
