#!/bin/bash
# usage: tryseeds.sh id... : confirms each planted bug in a scratch copy of /repo: applies, builds,
# passes the stable tests, and its demonstration passes without and fails with it.
w=$(mktemp -d /tmp/tryseeds.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
for id in "$@"; do
    d=/verif/seeded/$id
    cd "$w/repo" || exit 1
    git checkout -q -- .
    touch src/*.rs src/*/*.rs
    rm -rf "$w/demo"; mkdir "$w/demo"; cp "$d"/* "$w/demo/"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
    bash "$w/demo/demo.sh" > "$w/log0" 2>&1; clean=$?
    git apply "$d/patch.diff" || { echo "$id: DOES NOT APPLY"; continue; }
    touch src/*.rs src/*/*.rs
    CARGO_TARGET_DIR=$w/repo/target cargo build --offline --workspace > "$w/logb" 2>&1 || { echo "$id: DOES NOT BUILD"; tail -20 "$w/logb"; continue; }
    CARGO_TARGET_DIR=$w/repo/target cargo test --offline --workspace --no-fail-fast > "$w/logt" 2>&1; t=$?
    n=$(grep -c '^test .* ok$' "$w/logt")
    bash "$w/demo/demo.sh" > "$w/log1" 2>&1; bad=$?
    verdict=ok
    [ $clean = 0 ] && [ $bad != 0 ] && [ "$n" = 17 ] || verdict=BAD
    echo "$id: $verdict clean=$clean patched=$bad tests=$n($t) :: $(grep -v '^$' "$w/log1" | head -3 | tr '\n' ' ' | cut -c1-200)"
    [ $clean = 0 ] || tail -5 "$w/log0"
done
