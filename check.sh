#!/bin/bash
# check.sh <property id>   checks the property against the working tree of /repo (VERIF_TIER=quick|thorough)
# check.sh replay <file>   runs one recorded case again
# check.sh setup           builds everything
set -u
cd "$(dirname "$0")" || exit 2
export FFMC_ROOT="$PWD" CARGO_NET_OFFLINE=true
T="$PWD/harness/target"

build() { # package directory
    local log
    log=$(mktemp)
    if ! (cd "$1" && cargo build --offline --release --target-dir "$T") >"$log" 2>&1; then
        cat "$log" >&2
        rm -f "$log"
        echo "cannot build $1" >&2
        exit 2
    fi
    rm -f "$log"
}

# Cargo goes by modification times; go by contents.
stamp() {
    local now
    now=$(cd /repo && { find src examples -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum Cargo.toml; } | sha256sum)
    if [ -d "$T/release/.fingerprint" ] && [ "$now" != "$(cat "$T/repo.stamp" 2>/dev/null)" ]; then
        find "$T/release/.fingerprint" -maxdepth 1 \( -name 'file-format*' -o -name 'ff-*' -o -name 'ffmc_*' -o -name 'ffmc-*' -o -name 'fffeatures-*' -o -name 'ffrace-*' -o -name 'lefi-*' \) -exec rm -rf {} +
    fi
    mkdir -p "$T"
    printf '%s\n' "$now" >"$T/repo.stamp"
}

program() { # property id
    case "$1" in
        C09 | C22) build features; P="$T/release/fffeatures" ;;
        C05)
            build harness
            # Against controlled synchronisation primitives; if the crate cannot be built so, the rest has to do.
            if (cd harness && cargo build --offline --release --target-dir "$T" -p ffrace) >/dev/null 2>&1; then export FFMC_RACE=1; fi
            P="$T/release/ffmc" ;;
        C24) build lefi; build harness; P="$T/release/ffmc" ;;
        *) build harness; P="$T/release/ffmc" ;;
    esac
}

case "${1:-}" in
    setup) python3 tools/variants.py && stamp && build harness && build lefi && build features && program C05 ;;
    replay)
        python3 tools/variants.py; stamp
        program "$(sed -n 's/^property //p' "$2")"
        exec "$P" replay "$2" ;;
    C[0-9][0-9])
        python3 tools/variants.py; stamp
        program "$1"
        exec "$P" check "$1" ;;
    *) echo "usage: check.sh <property id> | replay <file> | setup" >&2; exit 2 ;;
esac
