#!/bin/bash
# check.sh ID        the check of one property (VERIF_SEED, VERIF_TIER; see MANIFEST.json)
# check.sh build     builds the harness only
# check.sh replay F  runs one saved case again
# Always rebuilds from /repo's working tree.  Exit: 0 holds, 1 VIOLATION, 2-4 error of the check.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUST_BACKTRACE=0 RUSTC_WRAPPER=
unset RUSTFLAGS RUSTDOCFLAGS CARGO_TARGET_DIR CARGO_INCREMENTAL CARGO_ENCODED_RUSTFLAGS
unset CARGO_PROFILE_DEV_DEBUG
log=$(mktemp)
log2=$(mktemp)
trap 'rm -f "$log" "$log2"' EXIT
# the coverage-guided searcher: the same harness over an instrumented build of the crate
RUSTC_WRAPPER=$here/tools/sancov.sh \
    cargo build --release --offline --locked --manifest-path "$here/fuzz/Cargo.toml" >"$log2" 2>&1 &
fuzz=$!
if ! cargo build --release --offline --locked --manifest-path "$here/harness/Cargo.toml" >"$log" 2>&1; then
    cat "$log" >&2
    echo "HARNESS-ERROR: the harness does not build against /repo" >&2
    kill $fuzz 2>/dev/null
    exit 3
fi
if ! wait $fuzz; then
    cat "$log2" >&2
    echo "HARNESS-ERROR: the coverage-guided searcher does not build against /repo" >&2
    exit 3
fi
elv=$here/harness/target/release/elv
case $1 in
build)
    "$elv" probes ;;
replay)
    "$elv" replay "$2" ;;
*)
    "$elv" check "$1" ;;
esac
