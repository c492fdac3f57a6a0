#!/bin/bash
# check.sh <property> [--replay FILE]   runs one check (VERIF_SEED, VERIF_TIER)
# check.sh --build                      builds every check
# Builds the harness against /repo's working tree first. Exit 0: held, 1: violated
# (with a VIOLATION line), anything else: an error of the check itself.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export RUSTUP_TOOLCHAIN=stable
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$here/harness/target"
export CARGO_INCREMENTAL=0
export RUSTFLAGS="--cfg quantmath_verif -Awarnings"
unset CARGO_PROFILE_DEV_DEBUG CARGO_ENCODED_RUSTFLAGS
case ":$PATH:" in *:/root/.cargo/bin:*) ;; *) PATH="/root/.cargo/bin:$PATH" ;; esac

id="${1:?usage: check.sh <property>}"
shift
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence" "$here/replays"

# cargo decides what is fresh by time stamps; decide by content instead
stamp="$CARGO_TARGET_DIR/.repo-content"
content="$(cd /repo && find Cargo.toml src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)"

build() {
    (
        flock 9
        if [ "$(cat "$stamp" 2>/dev/null)" != "$content" ]; then
            rm -f "$stamp"
            rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/quantmath-*
        fi
        cd "$here/harness" && cargo build --offline --quiet "$@" >"$CARGO_TARGET_DIR/build.log" 2>&1 || exit 1
        echo "$content" >"$stamp"
    ) 9>"$CARGO_TARGET_DIR/.lock"
}

if [ "$id" = "--build" ]; then
    build --bins
    code=$?
    [ $code -eq 0 ] || { tail -40 "$CARGO_TARGET_DIR/build.log"; exit 2; }
    exit 0
fi

bin="$(echo "$id" | tr 'A-Z' 'a-z')"
rm -f "$here/evidence/$id.json"
if ! build --bin "$bin"; then
    echo "ERROR: the harness does not build against /repo"
    tail -40 "$CARGO_TARGET_DIR/build.log"
    exit 2
fi
cd "$here" && exec "$CARGO_TARGET_DIR/debug/$bin" "$@"
