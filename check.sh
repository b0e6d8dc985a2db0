#!/bin/bash
# check.sh --setup            build everything
# check.sh ID [quick|thorough]  decide one property (exit 0 held / 1 VIOLATION)
# check.sh --replay FILE      run one recorded case again
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
export VH_ROOT=$here
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTFLAGS= RUSTC_WRAPPER=
unset CARGO_PROFILE_DEV_DEBUG
target=${VH_TARGET:-$here/target}
export CARGO_TARGET_DIR=$target
seed=${VERIF_SEED:-1}
case $seed in ''|*[!0-9]*) seed=1;; esac

build() {
    mkdir -p "$target"
    # cargo notices changed files by their time stamps; a copied tree may carry old ones
    local now
    now=$(find /repo -path /repo/target -prune -o -path /repo/.git -prune -o -type f \
        \( -name '*.rs' -o -name 'Cargo.*' -o -name '*.sh' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    if [ -f "$target/repo.stamp" ] && [ "$(cat "$target/repo.stamp")" != "$now" ]; then
        for p in varisat varisat-formula varisat-dimacs varisat-internal-proof varisat-checker varisat-lrat; do
            cargo clean --offline --manifest-path harness/Cargo.toml --profile checked -p $p >/dev/null 2>&1
            cargo clean --offline --manifest-path harness/Cargo.toml --release -p $p >/dev/null 2>&1
        done
        rm -rf "$target/cli" "$target/miri"
        for p in varisat varisat-formula varisat-dimacs varisat-internal-proof varisat-checker varisat-lrat; do
            RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=$target/asan cargo clean --offline --manifest-path harness/Cargo.toml \
                --release --target x86_64-unknown-linux-gnu -p $p >/dev/null 2>&1
        done
    fi
    echo "$now" >"$target/repo.stamp"
    local log=$target/build.log
    if ! { cargo build --offline --locked --manifest-path harness/Cargo.toml --profile checked &&
        cargo build --offline --locked --manifest-path harness/Cargo.toml --release; } >"$log" 2>&1; then
        tail -40 "$log" >&2
        echo "build of the harness against /repo failed" >&2
        exit 2
    fi
}
build_cli() {
    local log=$target/build-cli.log
    if ! CARGO_TARGET_DIR=$target/cli CARGO_PROFILE_DEV_OPT_LEVEL=1 cargo build --offline --locked \
        --manifest-path /repo/Cargo.toml -p varisat-cli >"$log" 2>&1; then
        tail -40 "$log" >&2
        echo "build of the command line tool failed" >&2
        exit 2
    fi
    export VH_CLI=$target/cli/debug/varisat
}

# builds for M01: AddressSanitizer, and Miri (which compiles on its first run)
build_memory() {
    local log=$target/build-memory.log
    if ! RUSTUP_TOOLCHAIN=nightly RUSTFLAGS=-Zsanitizer=address CARGO_TARGET_DIR=$target/asan cargo build --offline \
        --locked --manifest-path harness/Cargo.toml --release --target x86_64-unknown-linux-gnu >"$log" 2>&1 ||
        ! "$here/tools/miri.sh" list >"$log" 2>&1; then
        tail -40 "$log" >&2
        echo "build of the harness for M01 failed" >&2
        exit 2
    fi
    asan=$target/asan/x86_64-unknown-linux-gnu/release/vh
    export ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0
}

case $1 in
--setup)
    build
    build_cli
    build_memory
    ;;
--replay)
    build
    build_cli
    vh=$target/checked/vh
    grep -q '"build": "release"' "$2" && vh=$target/release/vh
    if grep -q '"build": "\(asan\|miri\)"' "$2"; then
        build_memory
        vh=$asan
        grep -q '"build": "miri"' "$2" && vh=$here/tools/miri.sh
    fi
    exec "$vh" replay "$2"
    ;;
--*|'')
    sed -n 2,4p "$0"
    exit 2
    ;;
*)
    tier=${2:-${VERIF_TIER:-quick}}
    build
    case $1 in L*) build_cli ;; esac
    extra=${VH_ARGS:-}
    if [ "$1" = M01 ]; then
        build_memory
        extra="--asan-bin $asan --miri-bin $here/tools/miri.sh $extra"
        [ "$tier" = quick ] && extra="--limit 180 $extra"
    fi
    exec "$target/checked/vh" run "$1" --tier "$tier" --seed "$seed" --release-bin "$target/release/vh" $extra
    ;;
esac
