#!/bin/bash
# Builds the simulator against /repo's current working tree: build.sh [std|libm]
feat=${1:-std}
export HOME=/root PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_INCREMENTAL
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/sim" || exit 2
case $feat in std) dir=target ;; *) dir=target-$feat ;; esac
# Cargo trusts file times; this does not: sources that differ from the last build are rebuilt.
stamp=$( { find /repo/mlx9064x -path /repo/mlx9064x/target -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.md' \) -print0; find src Cargo.toml -type f -print0; } | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$stamp" != "$(cat $dir/stamp 2>/dev/null)" ]; then
    [ -d $dir ] && cargo clean --release --offline --target-dir $dir -p mlx9064x -p camsim >/dev/null 2>&1
    rm -f "$here/sim/$dir/stamp"
fi
log=$(cargo build --release --offline --target-dir $dir --no-default-features --features "$feat" 2>&1) || { echo "$log" >&2; exit 2; }
echo "$stamp" > $dir/stamp
echo "$here/sim/$dir/release/camsim"
