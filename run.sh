#!/bin/bash
# run.sh <ID> [quick|thorough]   run one property's check against /repo's working tree
# run.sh replay <file>           re-run the input of a replay file
# run.sh build                   build everything (setup)
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$here/target"
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG RUSTFLAGS
mkdir -p "$here/evidence" "$here/replays"
build() {
    dir=harness; args=("$@")
    # (built apart: it has the geometry crate with its `textures` feature)
    [ "$2" = vtex ] && { dir=texture; args=(); }
    ( cd "$here/$dir" && cargo build --release --offline "${args[@]}" ) > "$here/replays/build.log" 2>&1 || {
        cat "$here/replays/build.log" | tail -40
        echo "build failed: no verdict"
        exit 2
    }
}
crate_of() {
    case "$1" in
        G07) echo vtex;;
        C*|G*) echo vcore;;
        P*) echo vphys;;
        R*) echo vrend;;
        *) echo "";;
    esac
}
case "$1" in
build) build; build -p vtex ;;
replay)
    id=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
    c=$(crate_of "$id"); build -p "$c"; [ "$c" = vrend ] && build -p vbin
    exec "$CARGO_TARGET_DIR/release/$c" replay "$2" ;;
*)
    c=$(crate_of "$1")
    [ -n "$c" ] || { echo "usage: run.sh <ID> [quick|thorough] | replay <file> | build"; exit 2; }
    extra=; [ "$1" = R10 ] && extra="-p vbin" # it runs the programs
    build -p "$c" $extra
    tier="${2:-${VERIF_TIER:-quick}}"
    # calendar, matrix, geometry and model input cases are cheap
    case "$tier$1" in quickC*|quickG*|quickP0[1-35-9]|quickP1[0-5]|quickR03) export VH_SCALE="${VH_SCALE:-8}";; esac
    case "$tier$1" in quickR0[124]) export VH_SCALE="${VH_SCALE:-20}";; esac
    case "$tier$1" in quickR05) export VH_SCALE="${VH_SCALE:-3}";; quickR06) export VH_SCALE="${VH_SCALE:-4}";; quickR07) export VH_SCALE="${VH_SCALE:-20}";; quickR08) export VH_SCALE="${VH_SCALE:-10}";; quickR09) export VH_SCALE="${VH_SCALE:-50}";; quickR10) export VH_SCALE="${VH_SCALE:-20}";; esac
    exec "$CARGO_TARGET_DIR/release/$c" check "$1" "$tier" ;;
esac
