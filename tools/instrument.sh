#!/bin/bash
# tools/instrument.sh REPO: builds mc/target/release/mcinst, the model checker on a copy of REPO's sources in which
# the crate mc/mcstd stands for std, so that locks, atomics and threads are scheduling points.
set -e
repo=$1
mc="$(cd "$(dirname "$0")/../mc" && pwd)"
out="$mc/target/inst"
mkdir -p "$out/new/src" "$out/mc"
find "$repo" -maxdepth 1 -type f -not -name '.*' -not -name Cargo.lock -exec cp {} "$out/new/" \;
(cd "$repo" && find src -name '*.rs') | while read -r f; do
    mkdir -p "$out/new/$(dirname "$f")"
    sed -E 's/(^|[^A-Za-z0-9_])(::)?std::/\1mcstd::/g' "$repo/$f" >"$out/new/$f"
done
sed -i "s|^\[dependencies\]\$|[dependencies]\nmcstd = { path = \"$mc/mcstd\" }|" "$out/new/Cargo.toml"
grep -q mcstd "$out/new/Cargo.toml"
# Only what has changed is written, for the sake of the build.
mkdir -p "$out/code"
if ! diff -r "$out/new" "$out/code" >/dev/null; then
    find "$out/code" -mindepth 1 -delete
    cp -r "$out/new/." "$out/code/"
fi
find "$out/new" -delete
cat >"$out/manifest" <<EOF
$(sed -e '/^\[dependencies\]/i [[bin]]\nname = "mcinst"\npath = "'"$mc"'/src/main.rs"\n' \
    -e 's|^reCTBN = .*|reCTBN = { path = "'"$out"'/code" }|' -e 's|path = "vendor/|path = "'"$mc"'/vendor/|' "$mc/Cargo.toml")
EOF
cmp -s "$out/manifest" "$out/mc/Cargo.toml" || cp "$out/manifest" "$out/mc/Cargo.toml"
[ -f "$out/mc/Cargo.lock" ] || cp "$mc/Cargo.lock" "$out/mc/Cargo.lock"
cd "$out/mc" && CARGO_TARGET_DIR="$mc/target" cargo build --release --offline
