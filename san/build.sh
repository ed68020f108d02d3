#!/bin/bash
# Builds the memory-safety driver: under AddressSanitizer with the shipped standard library,
# under MemorySanitizer and ThreadSanitizer with a standard library built the same way.
here="$(cd "$(dirname "$0")" && pwd)"
target=x86_64-unknown-linux-gnu
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export CARGO_NET_OFFLINE=true
build() { # NAME FLAGS ARGS...
    local name="$1" flags="$2"
    shift 2
    RUSTFLAGS="$flags" cargo +nightly build "$@" --release --offline --locked --target $target \
        --target-dir "$here/target/$name" --manifest-path "$here/Cargo.toml" >"$here/target/$name.log" 2>&1 ||
        { cat "$here/target/$name.log" >&2; return 1; }
}
mkdir -p "$here/target"
build address "-Zsanitizer=address" & a=$!
build memory "-Zsanitizer=memory -Zsanitizer-memory-track-origins" -Zbuild-std & m=$!
build thread "-Zsanitizer=thread" -Zbuild-std & t=$!
rc=0
wait $a || rc=2
wait $m || rc=2
wait $t || rc=2
exit $rc
