#!/bin/bash
# plant.sh <id>: confirms /verif/seeded/<id> in a scratch copy of /repo:
# applies, builds, passes the stable tests, demo passes without and fails with it.
set -u
id=$1; S=/verif/seeded/$id; W=/tmp/plant
[ -d $W ] || { cp -a /repo $W; }
git -C $W checkout -q -- . ; git -C $W fetch -q /repo HEAD && git -C $W reset -q --hard FETCH_HEAD
fail=0
( cd $W && CARGO_TARGET_DIR=$W/target bash $S/demo.sh > /tmp/plant.base 2>&1 ) || { echo "$id: demo fails on base"; tail -5 /tmp/plant.base; fail=1; }
git -C $W apply $S/patch.diff || { echo "$id: patch does not apply"; exit 1; }
( cd $W && CARGO_TARGET_DIR=$W/target cargo test --workspace --all-features --offline > /tmp/plant.test 2>&1 ) || { echo "$id: tests fail"; grep -E "FAILED|error" /tmp/plant.test | head; fail=1; }
( cd $W && CARGO_TARGET_DIR=$W/target bash $S/demo.sh > /tmp/plant.bug 2>&1 ) && { echo "$id: demo passes with the bug"; fail=1; }
git -C $W checkout -q -- .
tail -2 /tmp/plant.bug | cut -c1-200
[ $fail = 0 ] && echo "$id: confirmed"
