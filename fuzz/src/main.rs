#![no_main]
//! Coverage-guided driver: libFuzzer's bytes are two bytes of settings and a text, given to the
//! C13 and C14 checks. Mutations are libFuzzer's own, or the generators' (grammar-aware) ones.
use libfuzzer_sys::{fuzz_mutator, fuzz_target, fuzzer_mutate, Corpus};
use pgdt_harness::engine::{Obs, Rng, Src};
use pgdt_harness::textgen;

fn prop() -> &'static str {
    use std::sync::OnceLock;
    static P: OnceLock<String> = OnceLock::new();
    P.get_or_init(|| std::env::var("PGDT_FUZZ_PROP").unwrap_or_else(|_| "C14".into()))
}

fuzz_target!(|data: &[u8]| -> Corpus {
    use std::sync::Once;
    static ONCE: Once = Once::new();
    ONCE.call_once(pgdt_harness::engine::install_panic_hook);
    match pgdt_harness::props::robust::fuzz_one(prop(), data, &mut Obs::new(false)) {
        Ok(true) => Corpus::Keep,
        Ok(false) => Corpus::Reject,
        Err(f) => {
            eprintln!("{} fails: {}", prop(), f.msg);
            std::process::abort()
        }
    }
});

fuzz_mutator!(|data: &mut [u8], size: usize, max_size: usize, seed: u32| {
    let mut s = Src::from_rng(Rng::new(seed as u64));
    if size < 2 || s.below(3) == 0 {
        return fuzzer_mutate(data, size, max_size);
    }
    let Ok(t) = std::str::from_utf8(&data[2..size]) else {
        return fuzzer_mutate(data, size, max_size);
    };
    let new = match s.below(12) {
        0 => textgen::any_text(&mut s),
        1 => format!("{t} {}", textgen::any_text(&mut s)),
        _ => textgen::mutate(&mut s, t),
    };
    if s.below(8) == 0 {
        data[0] = s.below(256) as u8;
    }
    if s.below(8) == 0 {
        data[1] = s.below(256) as u8;
    }
    let n = new.len().min(max_size - 2);
    data[2..2 + n].copy_from_slice(&new.as_bytes()[..n]);
    n + 2
});
