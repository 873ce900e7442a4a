#!/bin/bash
# check.sh <property> [quick|thorough]   decide one property on /repo's current working tree
# check.sh replay <file>                 run the case recorded in a replay file again
# check.sh setup                         build everything once
# Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Anything else: the check failed to run.
set -u
VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export RUSTUP_TOOLCHAIN=1.81 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_BUILD_TARGET_DIR RUSTC 2>/dev/null
export VERIF_SEED="${VERIF_SEED:-1}"
ID="${1:?property}"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
case "$VERIF_TIER" in quick|thorough) ;; *) VERIF_TIER=quick;; esac
T="$VERIF_DIR/target"
H="$VERIF_DIR/harness"
mkdir -p "$T" "$VERIF_DIR/evidence" "$VERIF_DIR/replays"

# Build output is reused only when it was made from the very same sources, whatever their time stamps say.
tree_hash() {
    ( cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' \) -print0 |
        LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1 )
}
fresh() { # fresh <target dir> <manifest> <packages...>
    local d="$1" m="$2"; shift 2
    local h; h="$(tree_hash)"
    if [ -d "$d" ] && [ "$(cat "$d/.tree" 2>/dev/null)" != "$h" ]; then
        local p
        for p in "$@"; do
            find "$d" -maxdepth 5 -type d -path "*/.fingerprint/$p-*" -prune -exec /bin/rm -rf -- {} +
        done
    fi
    mkdir -p "$d"; echo "$h" >"$d/.tree"
}
run_build() { # run_build <name> <command...>
    local log="$T/build-$1.log"; shift
    if ! "$@" >"$log" 2>&1; then
        echo "build failed: $*" >&2; tail -40 "$log" >&2; exit 3
    fi
}
FEAT=
LIBS="atsc vsri wavbrro harness"
build_harness() {
    fresh "$T/h" "$H/Cargo.toml" $LIBS
    local b=(cargo build --offline --locked --profile checked --manifest-path "$H/Cargo.toml" --target-dir "$T/h")
    # only C40 and C41 need the library's inner building blocks: a change to those shapes must not silence the rest
    case "$WHAT" in
        C40|C41) run_build harness "${b[@]}";;
        *) "${b[@]}" >"$T/build-harness.log" 2>&1 || { export FEAT=--no-default-features; run_build harness "${b[@]}" $FEAT; };;
    esac
    HARNESS="$T/h/checked/harness"
}
build_release_harness() {
    fresh "$T/hr" "$H/Cargo.toml" $LIBS
    run_build harness-release cargo build --offline --locked --release $FEAT --manifest-path "$H/Cargo.toml" --target-dir "$T/hr"
    export HARNESS_RELEASE="$T/hr/release/harness"
}
build_bins() {
    fresh "$T/bin" /repo/Cargo.toml atsc vsri wavbrro csv-compressor tools
    run_build bins cargo build --offline --locked --release --bins --manifest-path /repo/Cargo.toml --target-dir "$T/bin"
    export ATSC_BIN="$T/bin/release"
}
NIGHTLY="$(rustup which rustc --toolchain nightly 2>/dev/null)"
TRIPLE=x86_64-unknown-linux-gnu
build_asan_harness() {
    fresh "$T/ha" "$H/Cargo.toml" $LIBS
    if RUSTC="$NIGHTLY" RUSTFLAGS="-Zsanitizer=address" cargo build --offline --locked --release --target $TRIPLE $FEAT \
        --manifest-path "$H/Cargo.toml" --target-dir "$T/ha" >"$T/build-asan.log" 2>&1; then
        export HARNESS_ASAN="$T/ha/$TRIPLE/release/harness"
    else
        echo "AddressSanitizer build failed" >&2; tail -30 "$T/build-asan.log" >&2; exit 3
    fi
}
build_asan_bins() {
    fresh "$T/bina" /repo/Cargo.toml atsc vsri wavbrro csv-compressor tools
    if RUSTC="$NIGHTLY" RUSTFLAGS="-Zsanitizer=address" CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16 cargo build --offline --locked --release --target $TRIPLE \
        --bin atsc --manifest-path /repo/Cargo.toml --target-dir "$T/bina" >"$T/build-asan-bin.log" 2>&1; then
        export ATSC_ASAN="$T/bina/$TRIPLE/release/atsc"
    else
        echo "AddressSanitizer build failed" >&2; tail -30 "$T/build-asan-bin.log" >&2; exit 3
    fi
}
# Miri needs its prebuilt standard library; without it the Miri phase is counted as unavailable, not as passed or failed
build_miri() {
    fresh "$T/hm" "$H/Cargo.toml" $LIBS
    if MIRIFLAGS="-Zmiri-disable-isolation" timeout 600 "$VERIF_DIR/tools/miri_run.sh" ubwork 1 7 0 tiny >"$T/build-miri.log" 2>&1; then
        export MIRI_RUN="$VERIF_DIR/tools/miri_run.sh"
    else
        echo "Miri is not usable here (see $T/build-miri.log)" >&2
    fi
}
# a clock that jumps, for a process that must not care; without it that process runs on the real clock
build_timeshim() {
    if gcc -O1 -shared -fPIC -o "$T/timeshim.so" "$VERIF_DIR/tools/timeshim.c" >"$T/build-timeshim.log" 2>&1; then
        export TIMESHIM="$T/timeshim.so"
    fi
}
# calls on files that fail, are cut short, take long or are the last of a process; without it those phases are left out
build_ioshim() {
    if gcc -O1 -shared -fPIC -o "$T/ioshim.so" "$VERIF_DIR/tools/ioshim.c" -ldl >"$T/build-ioshim.log" 2>&1; then
        export IOSHIM="$T/ioshim.so"
    fi
}
exec 9>"$T/.lock"; flock 9

WHAT="$ID"
if [ "$ID" = setup ]; then
    build_harness; build_bins; build_release_harness; build_asan_harness; build_asan_bins; build_miri
    exit 0
fi
if [ "$ID" = replay ]; then
    WHAT="$(sed -n 's/.*"property":"\([A-Z0-9]*\)".*/\1/p' "${2:?file}" | head -1)"
    VERIF_TIER=quick
fi
build_harness
case "$WHAT" in
    C11) build_bins; build_asan_bins;;
    C18|C19|C20|C21|C24|C25|C29|C30|C31|C32|C33|C36|C38|C39|C42|C45) build_bins;;
    C08) build_miri; build_timeshim;;
    C26) build_release_harness; build_asan_harness; build_miri;;
esac
case "$WHAT" in C21|C31|C32|C45) build_ioshim;; esac
flock -u 9

# 9p and overlay file systems are slow for many small files: work in memory where there is some
SCRATCH="$(mktemp -d "${TMPDIR:-/tmp}/atsc-verif.XXXXXXXX")" || exit 3
export SCRATCH
[ -n "$SCRATCH" ] || exit 3
trap '/bin/rm -rf -- "$SCRATCH"' EXIT
if [ "$ID" = replay ]; then
    "$HARNESS" replay "$2"; exit $?
fi
"$HARNESS" "$ID"
rc=$?
exit $rc
