#!/bin/bash
# tools/seed.sh ID...: (re)assemble seeded/ID from its patch.diff, main.rs and meta.json, and
# confirm it: demo passes on the tree, fails with the patch; the 108 stable tests pass with it.
V=/verif
for id in "$@"; do
  d=$V/seeded/$id
  mkdir -p "$d/kit/demo/src" "$d/kit/stubs" "$d/kit/tonbo-full"
  cp -r $V/stubs/aisle "$d/kit/stubs/"; rm -rf "$d/kit/stubs/aisle/target"
  cp $V/tonbo-full/{Cargo.toml,build.rs} "$d/kit/tonbo-full/"
  [ -f $V/tonbo-full/Cargo.lock ] && cp $V/tonbo-full/Cargo.lock "$d/kit/tonbo-full/"
  sed -e 's/tonbo-verif-harness/demo/; s/^name = "vh"/name = "demo"/; /^opt-level/,$d' $V/harness/Cargo.toml > "$d/kit/demo/Cargo.toml"
  sed 's/tonbo-verif-harness/demo/' $V/harness/Cargo.lock > "$d/kit/demo/Cargo.lock"
  cp $V/harness/src/{driver,profile,simexec,simfs}.rs "$d/kit/demo/src/"
  cp $V/tools/kit/demo.sh "$d/demo.sh"
  [ "$NOCHECK" ] && continue
  cd /repo
  git diff --quiet || { echo "repo dirty"; exit 1; }
  bash "$d/demo.sh" > /tmp/seed.clean 2>&1; a=$?
  git apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  bash "$d/demo.sh" > /tmp/seed.bug 2>&1; b=$?
  t=$(bash /tmp/w/slice.sh)
  f=""; [ "$FULL" ] && f=$(bash /tmp/w/full.sh | tail -8)
  git checkout -q -- .
  echo "$id: clean rc=$a bug rc=$b ($(tail -1 /tmp/seed.bug | cut -c1-160)) tests $t $f"
done
