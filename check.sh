#!/bin/bash
# check.sh PROPERTY [quick|thorough] [--replay FILE]: builds the harness against /repo's
# current tree and runs one check. Exit 0 held, 1 violation, other: no answer.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here" PGDT_REPO=/repo CARGO_NET_OFFLINE=true
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export CARGO_TARGET_DIR="$here/harness/target"
log="$(mktemp)"
if ! cargo build --release --offline --locked --manifest-path "$here/harness/Cargo.toml" >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "build failed" >&2
    exit 2
fi
rm -f "$log"
[ "$1" = --build ] && exit 0
# The thorough tier of the two parser properties adds a coverage-guided stage. Where the
# instrumented build is not possible, the generated-input stages still run and the evidence says so.
if [[ "$1" == C13 || "$1" == C14 ]] && [[ " $* " == *" thorough "* ]]; then
    if "$here/fuzz/build.sh" >/dev/null 2>&1; then
        export PGDT_FUZZ_BIN="$here/fuzz/target/x86_64-unknown-linux-gnu/release/pgdt-fuzz"
    else
        echo "the coverage-guided driver did not build; running without it" >&2
    fi
fi
# The memory-safety property runs drivers built with sanitizers.
if [ "$1" = C34 ]; then
    "$here/san/build.sh" || { echo "build failed" >&2; exit 2; }
fi
exec "$here/harness/target/release/pgdt-check" "$@"
