//! A small property-based-testing engine.
//!
//! Every random decision of a case is drawn from a `Src` and recorded on a *choice tape*.
//! A failing case is shrunk by editing its tape (deleting blocks, lowering values) and
//! re-running the case, so shrinking needs no per-type code, and the minimal tape is the
//! replay file.  The same cases can be driven by bytes from a coverage-guided fuzzer.
//!
//! Work is cut into fixed chunks; chunk k of sub-check s is seeded by (VERIF_SEED, property,
//! s, k) alone, so what a run explores does not depend on the number of threads or on timing.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- random source

#[derive(Clone)]
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return self.next();
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

enum Mode<'a> {
    Rng(Rng),
    Tape(&'a [u64], usize),
    Bytes(&'a [u8], usize),
}

/// Where a case gets its choices from.
pub struct Src<'a> {
    mode: Mode<'a>,
    pub tape: Vec<u64>,
}

impl<'a> Src<'a> {
    pub fn from_rng(r: Rng) -> Src<'static> {
        Src { mode: Mode::Rng(r), tape: Vec::with_capacity(64) }
    }
    pub fn from_tape(t: &'a [u64]) -> Src<'a> {
        Src { mode: Mode::Tape(t, 0), tape: Vec::with_capacity(t.len()) }
    }
    pub fn from_bytes(b: &'a [u8]) -> Src<'a> {
        Src { mode: Mode::Bytes(b, 0), tape: Vec::with_capacity(64) }
    }
    /// A number in `0..n` (`n == 0` means the full 64-bit range). Smaller is simpler.
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        let v = match &mut self.mode {
            Mode::Rng(r) => r.below(n),
            Mode::Tape(t, p) => {
                let v = t.get(*p).copied().unwrap_or(0);
                *p += 1;
                if n == 0 { v } else { v.min(n - 1) }
            }
            Mode::Bytes(b, p) => {
                let w = if n == 0 || n > 1 << 32 { 8 } else if n > 1 << 16 { 4 } else if n > 256 { 2 } else { 1 };
                let mut v = 0u64;
                for i in 0..w {
                    v |= (b.get(*p + i).copied().unwrap_or(0) as u64) << (8 * i);
                }
                *p += w;
                if n == 0 { v } else { v % n }
            }
        };
        self.tape.push(v);
        v
    }
    #[inline]
    pub fn u64(&mut self) -> u64 {
        self.below(0)
    }
    /// Inclusive range.
    #[inline]
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        debug_assert!(lo <= hi);
        let span = (hi as i128 - lo as i128 + 1) as u128;
        let n = if span > u64::MAX as u128 { 0 } else { span as u64 };
        (lo as i128 + self.below(n) as i128) as i64
    }
    #[inline]
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability 1/n.
    #[inline]
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == n - 1
    }
    #[inline]
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    /// Index chosen with the given weights.
    #[inline]
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let tot: u64 = ws.iter().map(|&w| w as u64).sum();
        let mut v = self.below(tot);
        for (i, &w) in ws.iter().enumerate() {
            if v < w as u64 {
                return i;
            }
            v -= w as u64;
        }
        ws.len() - 1
    }
}

// ---------------------------------------------------------------- observations

/// A property violation, as seen by a case.
#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    /// Set for failures a known-findings entry may name.
    pub fingerprint: Option<String>,
}

impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { msg, fingerprint: None }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail { msg: msg.to_string(), fingerprint: None }
    }
}

pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::engine::Fail::from(format!($($a)*))); } };
}

/// What a case reports about itself.
pub struct Obs {
    pub nontrivial: bool,
    pub key: u64,
    pub keyed: bool,
    pub labels: Vec<&'static str>,
    pub want: bool,
    pub desc: String,
}

#[derive(Default, Clone, Copy)]
pub struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut z = self.0 ^ (self.0 >> 32);
        z = z.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        z ^ (z >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        let mut h = self.0 ^ 0xcbf2_9ce4_8422_2325;
        for &x in b {
            h = (h ^ x as u64).wrapping_mul(0x1000_0000_01b3);
        }
        self.0 = h;
    }
}

impl Obs {
    pub fn new(want: bool) -> Self {
        Obs { nontrivial: false, key: 0, keyed: false, labels: vec![], want, desc: String::new() }
    }
    /// Records the case: whether it is non-trivial, its identity, and (only when asked) its text.
    #[inline]
    pub fn case<K: Hash>(&mut self, nontrivial: bool, key: K, desc: impl FnOnce() -> String) {
        self.nontrivial = nontrivial;
        let mut h = Fnv::default();
        key.hash(&mut h);
        self.key = h.finish();
        self.keyed = true;
        if self.want {
            self.desc = desc();
        }
    }
    #[inline]
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
}

pub type CaseFn = fn(&mut Src, &mut Obs) -> R;
pub type IndexFn = fn(u64, &mut Obs) -> R;

pub enum Kind {
    /// Randomly generated cases: (quick count, thorough count).
    Random(CaseFn, u64, u64),
    /// A finite space enumerated completely: (function of the index, size, quick stride).
    /// A stride above 1 visits a seed-dependent residue class in the quick tier.
    Enumerate(IndexFn, u64, u64),
}

pub struct Sub {
    pub name: &'static str,
    pub kind: Kind,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

/// Eight units in the quick tier, sixty in the thorough one.
pub fn random(name: &'static str, f: CaseFn, unit: u64) -> Sub {
    Sub { name, kind: Kind::Random(f, unit * 8, unit * 60) }
}
pub fn random_t(name: &'static str, f: CaseFn, quick: u64, thorough: u64) -> Sub {
    Sub { name, kind: Kind::Random(f, quick, thorough) }
}
pub fn enumerate(name: &'static str, f: IndexFn, size: u64, quick_stride: u64) -> Sub {
    Sub { name, kind: Kind::Enumerate(f, size, quick_stride) }
}

// ---------------------------------------------------------------- panics

thread_local! {
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
    static CATCH: Cell<bool> = Cell::new(false);
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if CATCH.with(|c| c.get()) {
            PANIC_MSG.with(|m| *m.borrow_mut() = format!("{info}").replace('\n', " "));
        } else {
            old(info)
        }
    }));
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = CATCH.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    CATCH.with(|c| c.set(prev));
    r.map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
}

fn run_case(f: CaseFn, src: &mut Src, obs: &mut Obs) -> R {
    match guarded(|| f(src, obs)) {
        Ok(r) => r,
        Err(m) => Err(Fail::from(format!("panic: {m}"))),
    }
}

fn run_index(f: IndexFn, i: u64, obs: &mut Obs) -> R {
    match guarded(|| f(i, obs)) {
        Ok(r) => r,
        Err(m) => Err(Fail::from(format!("panic: {m}"))),
    }
}

// ---------------------------------------------------------------- shrinking

/// Runs `f` on a tape in a fresh thread, so thread-local state of the library starts clean.
/// A case that does not finish counts as not failing (a hang is never reported as a violation).
fn fresh(f: CaseFn, tape: &[u64], want: bool) -> (R, Obs, Vec<u64>) {
    let tape = tape.to_vec();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            let mut s = Src::from_tape(&tape);
            let mut o = Obs::new(want);
            let r = run_case(f, &mut s, &mut o);
            let _ = tx.send((r, o, s.tape));
        })
        .unwrap();
    rx.recv_timeout(Duration::from_secs(10)).unwrap_or_else(|_| (Ok(()), Obs::new(false), vec![]))
}

// ---------------------------------------------------------------- watchdog

const SLOTS: usize = 256;
/// Per worker: 0 when idle, otherwise a number that changes with every case.
static BEAT: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];

/// Ends the process with status 3 (no answer) when a case runs for over a minute, or the whole
/// run exceeds `limit` seconds. Neither is ever reported as a violation.
pub fn start_watchdog(limit: u64) {
    std::thread::spawn(move || {
        let t0 = Instant::now();
        let mut seen = [(0u64, 0u32); SLOTS];
        loop {
            std::thread::sleep(Duration::from_secs(1));
            if t0.elapsed().as_secs() > limit {
                eprintln!("no answer: the run exceeded {limit} s");
                std::process::exit(3);
            }
            for (i, s) in seen.iter_mut().enumerate() {
                let b = BEAT[i].load(Ordering::Relaxed);
                if b != 0 && b == s.0 {
                    s.1 += 1;
                    if s.1 > 90 {
                        eprintln!("no answer: worker {i} has been in one case (beat {b}) for over 90 s");
                        std::process::exit(3);
                    }
                } else {
                    *s = (b, 0);
                }
            }
        }
    });
}

fn size(t: &[u64]) -> (usize, u128) {
    (t.len(), t.iter().map(|&v| v as u128).sum())
}

fn trim(t: &mut Vec<u64>) {
    while t.last() == Some(&0) {
        t.pop();
    }
}

pub fn shrink(f: CaseFn, tape: Vec<u64>, known: &dyn Fn(&Fail) -> bool) -> Vec<u64> {
    shrink_by(tape, 20, &mut |cand| matches!(fresh(f, cand, false).0, Err(e) if !known(&e)))
}

/// The smallest tape found in `secs` seconds that still `fails`.
pub fn shrink_by(tape: Vec<u64>, secs: u64, fails: &mut dyn FnMut(&[u64]) -> bool) -> Vec<u64> {
    let mut best = tape;
    let deadline = Instant::now() + Duration::from_secs(secs);
    let mut runs = 0u32;
    let mut try_it = |cand: &[u64], best: &mut Vec<u64>| -> bool {
        if runs > 6000 || Instant::now() > deadline {
            return false;
        }
        runs += 1;
        let mut c = cand.to_vec();
        trim(&mut c);
        let mut b = best.clone();
        trim(&mut b);
        if size(&c) < size(&b) && fails(cand) {
            *best = c;
            return true;
        }
        false
    };
    loop {
        let before = size(&best);
        for block in [16usize, 8, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                let e = (i + block).min(c.len());
                c.drain(i..e);
                if !try_it(&c, &mut best) {
                    i += 1;
                }
            }
        }
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !try_it(&c, &mut best) && i < best.len() {
                    // binary search for the smallest failing value
                    let (mut lo, mut hi) = (0u64, best[i]);
                    while lo + 1 < hi && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if try_it(&c, &mut best) {
                            if i >= best.len() {
                                break;
                            }
                            hi = best[i].min(mid);
                        } else {
                            lo = mid;
                        }
                    }
                    if i < best.len() && best[i] > 1 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        try_it(&c, &mut best);
                    }
                }
            }
            i += 1;
        }
        if size(&best) >= before {
            return best;
        }
    }
}

// ---------------------------------------------------------------- running

type Keys = HashSet<u64, BuildHasherDefault<Ident>>;
#[derive(Default, Clone, Copy)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}

const MAX_KEYS: usize = 1_500_000;

#[derive(Default)]
struct Tally {
    evals: u64,
    nontrivial_enum: u64,
    keys: Keys,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, String)>,
    known: BTreeMap<String, u64>,
}

pub struct Failure {
    pub sub: &'static str,
    pub msg: String,
    pub desc: String,
    pub replay: serde_json::Value,
}

pub struct SubReport {
    pub name: &'static str,
    pub evals: u64,
    pub distinct_nontrivial: u64,
    pub exhaustive: bool,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, u64>,
    pub failure: Option<Failure>,
    pub wall: f64,
}

fn hash_str(s: &str) -> u64 {
    let mut h = Fnv::default();
    h.write(s.as_bytes());
    h.finish()
}

pub fn chunk_rng(seed: u64, prop: &str, sub: &str, chunk: u64) -> Rng {
    let mut s = seed ^ hash_str(prop).rotate_left(17) ^ hash_str(sub).rotate_left(41);
    let a = splitmix(&mut s);
    let mut t = a ^ chunk.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    Rng::new(splitmix(&mut t))
}

pub struct Config {
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    /// explore only one case in so many (for trying many planted bugs quickly)
    pub div: u64,
    pub known: HashSet<String>,
}

const CHUNK: u64 = 2048;

pub fn run_sub(cfg: &Config, prop: &'static str, sub: &Sub) -> SubReport {
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicU64::new(u64::MAX);
    let first: Mutex<Option<(u64, u64, Fail, Vec<u64>)>> = Mutex::new(None);
    let total: Mutex<Tally> = Mutex::new(Tally::default());
    let is_known = |e: &Fail| e.fingerprint.as_ref().map_or(false, |f| cfg.known.contains(f));

    let (items, stride, offset) = match &sub.kind {
        Kind::Random(_, q, t) => ((if cfg.thorough { *t } else { *q } / cfg.div).max(1), 1, 0),
        Kind::Enumerate(_, size, st) => {
            let st = if cfg.thorough { 1 } else { *st * cfg.div };
            let off = if st > 1 { chunk_rng(cfg.seed, prop, sub.name, 0).below(st) } else { 0 };
            ((size + st - 1) / st, st, off)
        }
    };
    let chunk_len = match &sub.kind {
        Kind::Random(..) => CHUNK.min((items / 64).max(1)),
        Kind::Enumerate(..) => CHUNK.max(items / 4096).min((items / 64).max(1)),
    };
    let chunks = (items + chunk_len - 1) / chunk_len;

    std::thread::scope(|sc| {
        for w in 0..cfg.threads {
            let beat = &BEAT[w % SLOTS];
            let (next, stop, first, total, is_known) = (&next, &stop, &first, &total, &is_known);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    let mut t = Tally::default();
                    loop {
                        let c = next.fetch_add(1, Ordering::Relaxed);
                        if c >= chunks || c >= stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let mut rng = chunk_rng(cfg.seed, prop, sub.name, c);
                        let n = chunk_len.min(items - c * chunk_len);
                        for k in 0..n {
                            let want = k == (c % 7) && c % (chunks / 12 + 1) == 0;
                            beat.store(c * chunk_len + k + 1, Ordering::Relaxed);
                            let mut obs = Obs::new(want);
                            let (r, tape) = match &sub.kind {
                                Kind::Random(f, ..) => {
                                    let mut src = Src::from_rng(Rng::new(rng.next()));
                                    let r = run_case(*f, &mut src, &mut obs);
                                    (r, src.tape)
                                }
                                Kind::Enumerate(f, size, _) => {
                                    let i = (c * chunk_len + k) * stride + offset;
                                    if i >= *size {
                                        break;
                                    }
                                    (run_index(*f, i, &mut obs), vec![i])
                                }
                            };
                            t.evals += 1;
                            for l in &obs.labels {
                                *t.labels.entry(l).or_insert(0) += 1;
                            }
                            if obs.nontrivial {
                                if let Kind::Enumerate(..) = sub.kind {
                                    t.nontrivial_enum += 1;
                                } else if t.keys.len() < MAX_KEYS {
                                    t.keys.insert(obs.key);
                                }
                            }
                            if want && !obs.desc.is_empty() {
                                t.samples.push((c, std::mem::take(&mut obs.desc)));
                            }
                            if let Err(e) = r {
                                if is_known(&e) {
                                    *t.known.entry(e.fingerprint.unwrap()).or_insert(0) += 1;
                                } else {
                                    let mut g = first.lock().unwrap();
                                    if g.as_ref().map_or(true, |(c0, ..)| c < *c0) {
                                        *g = Some((c, k, e, tape));
                                    }
                                    stop.fetch_min(c, Ordering::Relaxed);
                                    break;
                                }
                            }
                        }
                    }
                    beat.store(0, Ordering::Relaxed);
                    let mut g = total.lock().unwrap();
                    g.evals += t.evals;
                    g.nontrivial_enum += t.nontrivial_enum;
                    for k in t.keys {
                        if g.keys.len() >= 4 * MAX_KEYS {
                            break;
                        }
                        g.keys.insert(k);
                    }
                    for (l, n) in t.labels {
                        *g.labels.entry(l).or_insert(0) += n;
                    }
                    for (l, n) in t.known {
                        *g.known.entry(l).or_insert(0) += n;
                    }
                    g.samples.extend(t.samples);
                })
                .unwrap();
        }
    });

    let failure = first.into_inner().unwrap().map(|(c, k, e, tape)| match &sub.kind {
        Kind::Enumerate(f, ..) => {
            let i = tape[0];
            let mut o = Obs::new(true);
            let _ = run_index(*f, i, &mut o);
            Failure {
                sub: sub.name,
                msg: e.msg.clone(),
                desc: o.desc,
                replay: serde_json::json!({"kind": "index", "index": i.to_string()}),
            }
        }
        Kind::Random(f, ..) => {
            let (r, _, _) = fresh(*f, &tape, false);
            if matches!(&r, Err(e) if !is_known(e)) {
                let small = shrink(*f, tape, &is_known);
                let (r, o, _) = fresh(*f, &small, true);
                let msg = r.err().map(|e| e.msg).unwrap_or(e.msg.clone());
                Failure {
                    sub: sub.name,
                    msg,
                    desc: o.desc,
                    replay: serde_json::json!({"kind": "tape", "tape": small.iter().map(|v| v.to_string()).collect::<Vec<_>>()}),
                }
            } else {
                // Only fails after the cases before it in its chunk: replay those too.
                let (_, o, _) = fresh(*f, &tape, true);
                Failure {
                    sub: sub.name,
                    msg: format!("{} (only after the {} preceding cases of its chunk: depends on history)", e.msg, k),
                    desc: o.desc,
                    replay: serde_json::json!({"kind": "chunk", "seed": cfg.seed.to_string(), "chunk": c, "cases": k + 1}),
                }
            }
        }
    });

    let mut tl = total.into_inner().unwrap();
    tl.samples.sort();
    let exhaustive = matches!(sub.kind, Kind::Enumerate(..)) && stride == 1 && failure.is_none();
    SubReport {
        name: sub.name,
        evals: tl.evals,
        distinct_nontrivial: tl.nontrivial_enum + tl.keys.len() as u64,
        exhaustive,
        labels: tl.labels,
        samples: tl.samples.into_iter().map(|(_, s)| s).take(6).collect(),
        known: tl.known,
        failure,
        wall: t0.elapsed().as_secs_f64(),
    }
}

/// Re-runs a stored failure. Ok(()) means it no longer fails.
pub fn replay(prop: &'static str, sub: &Sub, v: &serde_json::Value) -> (R, String) {
    let num = |x: &serde_json::Value| -> u64 {
        x.as_u64().or_else(|| x.as_str().and_then(|s| s.parse().ok())).unwrap_or(0)
    };
    match (&sub.kind, v["kind"].as_str().unwrap_or("")) {
        (Kind::Enumerate(f, ..), _) => {
            let mut o = Obs::new(true);
            let r = run_index(*f, num(&v["index"]), &mut o);
            (r, o.desc)
        }
        (Kind::Random(f, ..), "chunk") => {
            let mut rng = chunk_rng(num(&v["seed"]), prop, sub.name, num(&v["chunk"]));
            let mut last = (Ok(()), String::new());
            for _ in 0..num(&v["cases"]) {
                let mut src = Src::from_rng(Rng::new(rng.next()));
                let mut o = Obs::new(true);
                let r = run_case(*f, &mut src, &mut o);
                last = (r, o.desc);
            }
            last
        }
        (Kind::Random(f, ..), _) => {
            let tape: Vec<u64> = v["tape"].as_array().map(|a| a.iter().map(num).collect()).unwrap_or_default();
            let (r, o, _) = fresh(*f, &tape, true);
            (r, o.desc)
        }
    }
}
