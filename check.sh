#!/bin/bash
# check.sh build              build the harness against /repo's current working tree
# check.sh <property> [tier]  build it, then run one property's check (exit 0 held, 1 violated, 2 no answer)
# check.sh replay <file>      build it, then run one recorded counterexample again
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$here"
export VERIF_SEED="${VERIF_SEED:-1}"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:$HOME/.cargo/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
export CARGO_TARGET_DIR="$here/harness/target"
mkdir -p "$here/evidence" "$here/replays" "$CARGO_TARGET_DIR"

build() {
    # cargo judges staleness by mtime, which misses files put back with an old one: judge by content
    local now
    now=$( (cd /repo && cat Cargo.toml && find src -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
    (
        flock 9
        if [ "$(cat "$CARGO_TARGET_DIR/repo.sha256" 2>/dev/null)" != "$now" ]; then
            rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/parquet-format-safe-* "$CARGO_TARGET_DIR"/release/.fingerprint/pfs-harness-*
        fi
        cd "$here/harness" && cargo build --release --locked --offline >"$CARGO_TARGET_DIR/build.log" 2>&1 || exit 1
        echo "$now" >"$CARGO_TARGET_DIR/repo.sha256"
    ) 9>"$CARGO_TARGET_DIR/lock"
}

if ! build; then
    tail -50 "$CARGO_TARGET_DIR/build.log" >&2
    echo "the harness does not build against /repo" >&2
    exit 2
fi
bin="$CARGO_TARGET_DIR/release/pfs-harness"
case "${1:?usage: check.sh build | <property> [quick|thorough] | replay <file>}" in
build) exit 0 ;;
replay) exec "$bin" replay "${2:?}" ;;
*) exec "$bin" check "$1" --tier "$VERIF_TIER" --seed "$VERIF_SEED" ;;
esac
