# Sourced or run in /verif: builds the harness from /repo's current tree into ./target
# (never into /repo). A changed tree always forces the crate to be rebuilt, whatever its mtimes.
: "${CARGO_TARGET_DIR:=$PWD/target}"; export CARGO_TARGET_DIR
mkdir -p "$CARGO_TARGET_DIR"
sum=$( { find /repo/src /repo/Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum)
if [ "$sum" != "$(cat "$CARGO_TARGET_DIR/repo.sum" 2>/dev/null)" ]; then
    cargo clean --offline --profile release -p chronologic --manifest-path harness/Cargo.toml >/dev/null 2>&1
    cargo clean --offline --profile plain -p chronologic --manifest-path harness/Cargo.toml >/dev/null 2>&1
fi
build_one() { cargo build --profile "$1" --offline --locked --manifest-path harness/Cargo.toml >"$CARGO_TARGET_DIR/build.log" 2>&1; }
if ! { build_one release && build_one plain; }; then
    echo "the harness does not build:" >&2
    grep -E -A8 '^error' "$CARGO_TARGET_DIR/build.log" | head -60 >&2
    false
else
    echo "$sum" >"$CARGO_TARGET_DIR/repo.sum"
fi
