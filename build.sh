#!/bin/bash
# Builds the simulator against the delegation program in /repo's current working tree.
# Nothing is written to /repo. Content-addressed staleness guard: file times are not trusted.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.84.1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$here/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR" || exit 3
exec 9>"$CARGO_TARGET_DIR/.dsim-lock" && flock 9
stamp="$CARGO_TARGET_DIR/.dsim-stamp"
now=$( (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum
        cd "$here/dsim" && find . -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
if [ -f "$stamp" ] && [ "$(cat "$stamp")" = "$now" ] && [ -x "$CARGO_TARGET_DIR/debug/dsim" ]; then
  exit 0
fi
/bin/rm -f "$stamp"
cd "$here/dsim" || exit 3
cargo clean --offline -p magicblock-delegation-program -p dsim >/dev/null 2>&1
cargo build --offline --locked >"$CARGO_TARGET_DIR/.dsim-build.log" 2>&1 || { tail -60 "$CARGO_TARGET_DIR/.dsim-build.log" >&2; echo "ERROR: build failed" >&2; exit 3; }
echo "$now" >"$stamp"
