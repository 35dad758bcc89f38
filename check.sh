#!/bin/bash
# Builds the model checker against /repo's working tree and runs the check of one property:
#   check.sh C07 [--tier quick|thorough] [--replay FILE]
#   check.sh --build
here="$(cd "$(dirname "$0")" && pwd)"
repo=$(sed -n 's/^reCTBN = { path = "\(.*\)" }$/\1/p' "$here/mc/Cargo.toml")
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/mc/target"
log="$(mktemp)"
trap 'rm -f "$log"' EXIT
bin=mc
# The schedules of code which synchronises threads itself: std::sync and std::thread are taken over in a copy.
if [[ "$1" = C18 || "$1" = C22 ]] && sed 's|//.*||' $(find "$repo/src" -name '*.rs') | grep -qE '\b(sync|thread|hint)::|\b(sync|thread|hint)\}|\b(Mutex|RwLock|Condvar|OnceLock|LazyLock|Atomic[A-Z][a-z0-9]+)\b'; then
    "$here/tools/instrument.sh" "$repo" >"$log" 2>&1 && bin=mcinst || { echo "check.sh: without scheduling points at std::sync and std::thread: $(grep -m1 -E '^error|failed' "$log")" >&2; }
fi
if [ $bin = mc ] && ! (cd "$here/mc" && cargo build --release --offline --locked) >"$log" 2>&1; then
    grep -A15 '^error' "$log" >&2 || tail -40 "$log" >&2
    echo "check.sh: the build failed" >&2
    exit 2
fi
[ "$1" = --build ] && exit 0
"$here/mc/target/release/$bin" "$@" --root "$here"
