#!/bin/bash
# Builds the model checker against /repo's current tree and runs it.
#   run.sh build | check <property> quick|thorough | replay <file> | list
cd /verif/harness || exit 2
export CARGO_TARGET_DIR=/verif/target CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg rtbvh_mc" RUST_BACKTRACE=0
unset CARGO_BUILD_TARGET RUSTC_WRAPPER
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.lock"
flock 9
# Timestamps do not tell reliably that sources changed (copies, checkouts), their contents do
sum=$(cd /repo && find src rtbvh_ffi/src shared/src Cargo.toml rtbvh_ffi/Cargo.toml shared/Cargo.toml -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum)
if [ "$sum" != "$(cat "$CARGO_TARGET_DIR/.sources" 2>/dev/null)" ]; then
    rm -f "$CARGO_TARGET_DIR/.sources"
    cargo clean --offline -p rtbvh -p rtbvh_ffi_lib -p shared >/dev/null 2>&1
fi
log="$CARGO_TARGET_DIR/.build.log"
if ! cargo build --offline >"$log" 2>&1; then
    tail -n 40 "$log" >&2
    echo "the model checker does not build against /repo" >&2
    exit 2
fi
echo "$sum" >"$CARGO_TARGET_DIR/.sources"
bin="$CARGO_TARGET_DIR/debug/mc"
[ "$1" = build ] && exit 0
# Others may rebuild while this runs
mkdir -p "$CARGO_TARGET_DIR/mcrun"
copy=$(mktemp "$CARGO_TARGET_DIR/mcrun/mc.XXXXXX") || exit 2
cp "$bin" "$copy" && chmod +x "$copy" || exit 2
flock -u 9
exec 9>&-
export MC_ROOT=/verif
"$copy" "$@"
code=$?
rm -f "$copy"
exit $code
