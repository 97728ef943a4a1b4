#!/bin/bash
# tryseed.sh ID... : in a scratch copy of /repo: patch applies, builds, passes the stable tests, demo passes without and fails with it
. /opt/vp/env.sh
D=/tmp/seedrepo
rm -rf /tmp/seedrepo; cp -a /repo /tmp/seedrepo
for id in "$@"; do
  cd $D && git checkout -q -- . 
  s=/verif/seeded/$id
  bash $s/demo.sh > /tmp/seed.out 2>&1 || { echo "$id: DEMO FAILS ON CLEAN TREE: $(tail -3 /tmp/seed.out)"; continue; }
  git apply $s/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
  (cargo nextest run --workspace --lib --bins --tests --locked --offline --no-fail-fast; cargo test --workspace --doc --no-fail-fast --locked --offline) > /tmp/seed.test 2>&1; rc=$?
  bash $s/demo.sh > /tmp/seed.out 2>&1 && { echo "$id: DEMO PASSES WITH PATCH"; continue; }
  echo "$id: tests rc=$rc $(grep -E '^test .*FAILED|^ +FAIL ' /tmp/seed.test | head -5 | tr '\n' ';') demo fails: $(grep -v '^note' /tmp/seed.out | tail -2 | tr '\n' ' ' | cut -c1-200)"
done
rm -rf /tmp/seedrepo
