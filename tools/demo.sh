#!/bin/bash
# run with cwd /repo: appends demo_test.rs (a test module) to the source file named in TARGET, in a scratch copy, and runs it
D=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" PATH="${HOME:-/root}/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=1.86.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=
S=$(mktemp -d); trap 'rm -rf "$S"' EXIT
cp -a /repo/src /repo/Cargo.toml /repo/data "$S"/ 2>/dev/null
cp /repo/Cargo.lock "$S"/ 2>/dev/null || cp /opt/vp/Cargo.lock "$S"/
for f in /repo/README.md /repo/s2gpp /repo/scripts; do [ -e "$f" ] && cp -a "$f" "$S"/; done
mkdir -p "$S/target"; [ -d /repo/target/debug ] && cp -a /repo/target/debug "$S/target/debug"
cd "$S" || exit 2
cat "$D/demo_test.rs" >> "$S/$(cat "$D/TARGET")"
timeout 280 cargo test --lib --offline --features ndarray-linalg/openblas-system verif_demo -- --test-threads 1 > "$S/log" 2>&1; rc=$?
tail -25 "$S/log"
grep -q "test result: ok. [1-9]" "$S/log" && exit 0
grep -q "test result: FAILED\|panicked\|SIGABRT" "$S/log" && exit 1
[ $rc -eq 124 ] && exit 1
echo "demo did not build"; exit 3
