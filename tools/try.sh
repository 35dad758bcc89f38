#!/bin/bash
# tools/try.sh SLOT PATCH|none [--tests] CHECK...: applies a change to a scratch copy of /repo and runs
# checks against it, from a scratch copy of /verif. Needs nothing but /repo and /verif.
src=${VERIF_SRC:-/verif}
slot=/tmp/mw/$1; patch=$2; shift 2
if [ ! -d $slot ]; then
    mkdir -p $slot/verif
    cp -a /repo $slot/repo
    cp -a $src/mc $slot/verif/mc
fi
rsync -a --delete --exclude target $src/mc/ $slot/verif/mc/ 2>/dev/null || { rm -rf "$slot/verif/mc/src"; cp -a $src/mc/src $slot/verif/mc/; cp -a $src/mc/vendor $slot/verif/mc/; cp $src/mc/Cargo.* $slot/verif/mc/; }
mkdir -p $slot/verif/tools; cp $src/tools/instrument.sh $slot/verif/tools/
cp $src/check.sh $src/known_findings.txt $slot/verif/
sed -i "s|path = \"/repo\"|path = \"$slot/repo\"|" $slot/verif/mc/Cargo.toml
cd $slot/repo && git checkout -q -- . && git clean -fdq src
if [ "$patch" != none ]; then git apply "$patch" || exit 3; fi
if [ "$1" = --tests ]; then
    shift
    if CARGO_NET_OFFLINE=true cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >$slot/tests.log 2>&1; then echo "tests pass"; else echo "TESTS FAIL: $(grep -E '^error(:|\[)|^test .*FAILED' $slot/tests.log | head -6 | tr '\n' ' ')"; fi
fi
cd $slot/verif
for c in "$@"; do
    timeout 900 ./check.sh $c >$slot/out.log 2>&1; rc=$?
    echo "$c rc=$rc $(grep -v VIOLATION $slot/out.log | grep -E "^$c: " | head -1 | cut -c1-300)"
done
