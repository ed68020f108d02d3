#!/bin/bash
# Builds the coverage-guided driver with the stable compiler's SanitizerCoverage pass.
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${PGDT_FUZZ_TARGET:-$here/target}"
export RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares --cfg fuzzing -Ccodegen-units=1"
exec cargo build --release --offline --locked --target x86_64-unknown-linux-gnu --manifest-path "$here/Cargo.toml"
