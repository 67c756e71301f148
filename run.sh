#!/bin/bash
# usage: run.sh setup | check ID [options] | replay FILE | ...
# Builds the harness and the tool (from /repo's working tree), then runs the harness.
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
build=${VERIF_BUILD:-$here/.build}
mkdir -p "$build"
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTUP_AUTO_INSTALL=0
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_CACHE_AUTO_CLEAN_FREQUENCY=never
unset RUSTC_WRAPPER RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_INCREMENTAL
unset VERIF_TIMEOUT CARGO_CALL_STACK_RUSTC_WRAPPER CARGO_CALL_STACK_UNSPPORTED_NIGHTLY RUST_LOG

fail() { echo "run.sh: $*" >&2; exit 2; }

(
    flock 9
    CARGO_INCREMENTAL=0 cargo build -q --offline --manifest-path "$here/harness/Cargo.toml" \
        --target-dir "$build/harness" >"$build/harness.log" 2>&1 \
        || { cat "$build/harness.log" >&2; exit 1; }

    # debug assertions stay on; some optimization because the tool is run many thousands of times
    stamp=$(cd "$repo" && cat Cargo.toml Cargo.lock && find src -type f | LC_ALL=C sort | xargs sha256sum)
    stamp=$(printf '%s %s' "$repo" "$stamp" | sha256sum)
    if [ "$stamp" != "$(cat "$build/tool.stamp" 2>/dev/null)" ]; then
        # do not trust modification times
        for d in "$build"/tool/debug/.fingerprint/cargo-call-stack-*; do
            [ -d "$d" ] && rm -rf "$d"
        done
        : >"$build/tool.stamp"
    fi
    CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only \
        cargo build -q --offline --manifest-path "$repo/Cargo.toml" --bin cargo-call-stack \
        --target-dir "$build/tool" >"$build/tool.log" 2>&1 \
        || { cat "$build/tool.log" >&2; exit 1; }
    echo "$stamp" >"$build/tool.stamp"
) 9>"$build/lock" || fail "build failed"

[ "$1" = setup ] && exit 0
cd "$here" || exit 2
export VERIF_DIR=$here VERIF_REPO=$repo
export VERIF_TOOL=$build/tool/debug/cargo-call-stack VERIF_SHIM=$build/harness/debug/shim
exec "$build/harness/debug/verif" "$@"
