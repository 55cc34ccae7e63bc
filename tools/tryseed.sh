#!/bin/bash
# tryseed.sh DIR...: does each planted bug apply, build, pass the tests, and does its demo tell it?
for d in "$@"; do
  d=$(realpath "$d")
  w=$(mktemp -d /tmp/seedXXXXXX)
  cp -a /repo "$w/repo"; cd "$w/repo" || exit 1
  sh -c "cd $w/repo && bash $d/demo.sh" > "$w/clean.log" 2>&1; clean=$?
  git apply "$d/patch.diff" || { echo "$d: does not apply"; continue; }
  RUSTUP_TOOLCHAIN=nightly CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only cargo test --workspace --no-fail-fast --offline > "$w/test.log" 2>&1; t=$?
  p=$(grep -E '^test .* ok$' "$w/test.log" | wc -l)
  sh -c "cd $w/repo && bash $d/demo.sh" > "$w/bug.log" 2>&1; bug=$?
  echo "$(basename $d): clean=$clean tests=$t ($p ok) with-bug=$bug"
  [ $clean = 0 ] || tail -20 "$w/clean.log"
  [ $t = 0 ] || grep -E 'FAILED|error|panicked' "$w/test.log" | head
  tail -2 "$w/bug.log"
  rm -rf "$w"
done
