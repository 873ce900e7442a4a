#!/bin/bash
# miri_run.sh ARGS...   the harness, interpreted by Miri (MIRIFLAGS from the caller)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
N="$(ls -d /root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu 2>/dev/null | head -1)"
C="$(ls -d /root/.rustup/toolchains/1.81-x86_64-unknown-linux-gnu 2>/dev/null | head -1)"
HERE="$(cd "$(dirname "$0")/.." && pwd)"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC RUSTC_WRAPPER
export CARGO="$C/bin/cargo" RUSTUP_TOOLCHAIN=nightly MIRI_SYSROOT=/root/.cache/miri CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
exec "$N/bin/cargo-miri" miri run -q ${FEAT:-} --offline --locked --manifest-path "$HERE/harness/Cargo.toml" --target-dir "$HERE/target/hm" -- "$@"
