#!/bin/bash
# usage: run.sh ID quick|thorough   |   run.sh build   |   run.sh --replay FILE
# Rebuilds the harness against /repo's current working tree, then runs one check.
# Binaries: mc (the VM and its library), loomc (threads, under loom), netc (the standard system);
# nb is the repository's own command line program, which netc runs for N03, N04 and N05.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target" MC_VERIF="$here"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence"
crate() { # which crate decides property $1
    case "$1" in H03|H04) echo loomc ;; N*) echo netc ;; *) echo mc ;; esac
}
build() { # build CRATE
    local h log="$CARGO_TARGET_DIR/build-$1.log"
    h="$(cd /repo && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)"
    if [ -e "$CARGO_TARGET_DIR/$1.hash" ] && [ "$(cat "$CARGO_TARGET_DIR/$1.hash")" != "$h" ]; then
        (cd "$here/$1" && cargo clean --offline --release -p netsblox-vm >/dev/null 2>&1)
        case "$1" in
        loomc) touch "$here"/underloom/src/*.rs "$here/$1"/src/*.rs ;;
        nb) (cd "$here/nb" && cargo clean --offline --release -p nb >/dev/null 2>&1) ;;
        *) touch "$here/$1"/src/*.rs ;;
        esac
    fi
    if ! (cd "$here/$1" && cargo build --offline --release >"$log" 2>&1); then
        grep -E '^error' -A 12 "$log" | head -60 >&2
        echo "BUILD FAILED ($1)" >&2
        exit 3
    fi
    echo "$h" >"$CARGO_TARGET_DIR/$1.hash"
}
needed() { # build what deciding property $1 needs
    build "$c"
    case "$1" in N03|N04|N05) build nb ;; esac
}
case "$1" in
build) for c in mc loomc netc nb; do [ -d "$here/$c" ] && build $c; done; exit 0 ;;
--replay)
    id="$(grep -o '"property": *"[A-Z0-9]*"' "$2" | head -1 | grep -o '[A-Z][0-9]*')"
    c="$(crate "$id")"; needed "$id"; exec "$CARGO_TARGET_DIR/release/$c" --replay "$2" ;;
esac
c="$(crate "$1")"
needed "$1"
exec "$CARGO_TARGET_DIR/release/$c" "$1" --tier "${2:-quick}"
