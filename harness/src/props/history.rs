//! C15: results depend on the arguments alone.

use crate::engine::*;
use crate::gen;
use crate::poison;
use crate::textgen::*;
use crate::val::*;
use std::hash::{BuildHasher, Hash, Hasher};
use std::panic::AssertUnwindSafe;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C34",
        rule: "A case is a short list of operations (any public operation on generated values and texts), run in an instrumented build: AddressSanitizer, MemorySanitizer (with an instrumented standard library), ThreadSanitizer (three threads at once), and, in the thorough tier, the Miri interpreter. The checker ends the process on a misuse of memory. Non-trivial: under ThreadSanitizer the list has at least two operations or shares a word; otherwise every case.",
        assumptions: &["The sanitizers see misuse only on the paths the generated cases run.", "Leaks are not misuse; running out of memory is no answer."],
        subs: vec![],
    }, Prop {
        id: "C15",
        rule: "A case is a list of operations; each is run first in a new thread of its own, then all in a row on one thread (also backwards, and with fresh heap and the unused stack filled with varying bytes), and, in the thread part, on several threads at once. Non-trivial: the list has at least three operations and at least two parse texts that share words.",
        assumptions: &["Operations panic or not alike in all settings; a panic counts as a result here (C13 forbids it)."],
        subs: vec![random_t("sequences", sequences, 8_000, 100_000), random_t("processes", processes, 3_000, 60_000), random("poisoned-memory", poisoned, 1_000_000), random_t("threads", threads, 20_000, 400_000)],
    }]
}

#[derive(Debug, Clone)]
enum Op {
    Date(String, DateOrder),
    Ts(String, i32, DateOrder),
    Time(String, i32, DateOrder),
    Iv(String, i32, IntervalStyle),
    FmtDate(i32, DateStyle, DateOrder),
    FmtTs(i64, DateStyle, DateOrder),
    FmtTime(i64, DateStyle),
    FmtIv((i32, i32, i64), IntervalStyle),
    Part(i64, usize),
    IvPart((i32, i32, i64), usize),
    Trunc(i64, usize),
    IvTrunc((i32, i32, i64), usize),
    AddIv(i64, (i32, i32, i64)),
    Age(i64, i64),
    Scale((i32, i32, i64), f64),
    Json(u8, String),
    Hash((i32, i32, i64)),
    /// One of the remaining operations, by number, on these operands.
    Other(u8, Operands),
}

type Iv3 = (i32, i32, i64);

#[derive(Debug, Clone)]
struct Operands {
    d: (i32, i32),
    t: (i64, i64),
    c: (i64, i64),
    i: (Iv3, Iv3),
    n: i32,
    f: f64,
    u: usize,
    text: String,
}

const OTHERS: u8 = 58;

fn other(k: u8, x: &Operands) -> String {
    let (d, e) = (date(x.d.0), date(x.d.1));
    let (t, t2) = (ts(x.t.0), ts(x.t.1));
    let (c, c2) = (time(x.c.0), time(x.c.1));
    let (i, j) = (iv(x.i.0 .0, x.i.0 .1, x.i.0 .2), iv(x.i.1 .0, x.i.1 .1, x.i.1 .2));
    let (n, f, u) = (x.n, x.f, UNITS[x.u]);
    let ty = [FieldType::Unit, FieldType::Epoch][(n & 1) as usize];
    let json = serde_json::to_string(&x.text).unwrap();
    let bytes: &[u8] = x.text.as_bytes();
    match k {
        0 => res(d.add_days(n).map(dv)),
        1 => res(d.sub_days(n).map(dv)),
        2 => res(d.sub_date(e)),
        3 => res(d.add_interval(i).map(tsv)),
        4 => res(d.sub_interval(i).map(tsv)),
        5 => res(d.add_time(c).map(tsv)),
        6 => format!("{d:?} {}", d.is_infinite()),
        7 => res(d.date_part(ty, u)),
        8 => format!("{:?}", d.truncate(ty, u).ok()),
        9 => res(t.sub_interval(i).map(tsv)),
        10 => res(t.add_time(c).map(tsv)),
        11 => res(t.sub_time(c).map(tsv)),
        12 => res(t.sub_date(d).map(fields)),
        13 => res(t.sub_timestamp(t2).map(fields)),
        14 => res(Date::try_from(t).map(dv)),
        15 => res(Timestamp::try_from(d).map(tsv)),
        16 => res(<Option<Time>>::try_from(t).map(|o| o.map(tv))),
        17 => res(t.date_part(ty, u)),
        18 => res(t.truncate(ty, u).map(tsv)),
        19 => tv(c.add_interval(i)).to_string(),
        20 => tv(c.sub_interval(i)).to_string(),
        21 => format!("{:?}", fields(c.sub_time(c2))),
        22 => res(c.date_part(ty, u)),
        23 => format!("{:?}", c.truncate(ty, u).ok()),
        24 => format!("{:?}", fields(Interval::from(c))),
        25 => tv(Time::from(i)).to_string(),
        26 => res(i.add_interval(j).map(fields)),
        27 => res(i.sub_interval(j).map(fields)),
        28 => res(i.negate().map(fields)),
        29 => format!("{:?}", fields(i.justify_hours())),
        30 => format!("{:?}", fields(i.justify_days())),
        31 => format!("{:?}", fields(i.justify_interval())),
        32 => res(i.div_f64(f).map(fields)),
        33 => i128::from(i).to_string(),
        34 => format!("{:?} {}", i.cmp(&j), i == j),
        35 => format!("{:?} {:?} {:?}", d.cmp(&e), t.cmp(&t2), c.cmp(&c2)),
        36 => res(Date::try_from_ymd(n, (n & 15) as i32, (n >> 4 & 31) as i32).map(dv)),
        37 => res(Timestamp::try_from_ymd_hms(n & 4095, n >> 12 & 15, n >> 16 & 31, n >> 21 & 31, n >> 26 & 63, f % 70.0).map(tsv)),
        38 => res(Time::try_from_hms(n & 31, n >> 5 & 63, f % 70.0).map(tv)),
        39 => res(Interval::try_from_ymwd_hms(n >> 20, n & 63, n >> 6 & 63, n >> 12 & 63, n & 4095, n >> 3 & 4095, f % 1e9).map(fields)),
        40 => res(serde_json::to_string(&d)),
        41 => res(serde_json::to_string(&t)),
        42 => res(serde_json::to_string(&c)),
        43 => res(serde_json::to_string(&i)),
        44 => res(bincode::serialize(&d)),
        45 => res(bincode::serialize(&t)),
        46 => res(bincode::serialize(&c)),
        47 => res(bincode::serialize(&i)),
        48 => res(bincode::deserialize::<Date>(bytes).map(dv)),
        49 => res(bincode::deserialize::<Timestamp>(bytes).map(tsv)),
        50 => res(bincode::deserialize::<Time>(bytes).map(tv)),
        51 => res(bincode::deserialize::<Interval>(bytes).map(|v| bincode::serialize(&v).ok())),
        52 => format!("{:?}", Date::try_from_str(&x.text, ORDERS[(n & 0x7fff) as usize % 3]).map_err(|e| e.to_string())),
        53 => format!("{:?}", Timestamp::try_from_str(&x.text, n & 15, ORDERS[(n & 0x7fff) as usize % 3]).map_err(|e| e.to_string())),
        54 => format!("{:?}", Interval::try_from_str(&x.text, n, ISTYLES[(n & 3) as usize]).map_err(|e| e.to_string())),
        55 => res(serde_json::from_str::<Interval>(&json).map(fields)),
        56 => format!("{d:?} {t:?} {c:?} {i:?} {} {} {}", t.is_infinite(), d.is_infinite(), t.is_finite()),
        _ => format!("{:?} {:?}", i.mul_f64(f).map(fields), fields(i + j)),
    }
}

fn run(op: &Op) -> String {
    match guarded(AssertUnwindSafe(|| run_inner(op)).0) {
        Ok(s) => s,
        Err(_) => "panic".to_string(),
    }
}

fn res<T: std::fmt::Debug, E: std::fmt::Debug>(r: Result<T, E>) -> String {
    format!("{r:?}")
}

const BROKEN: &str = "text that is not UTF-8: ";

fn text_of<E: std::fmt::Debug>(r: Result<String, E>) -> String {
    match r {
        Ok(t) if std::str::from_utf8(t.as_bytes()).is_err() => format!("{BROKEN}{:?}", t.into_bytes()),
        r => format!("{r:?}"),
    }
}

fn run_inner(op: &Op) -> String {
    match op {
        Op::Date(t, o) => res(Date::try_from_str(t, *o).map(dv)),
        Op::Ts(t, p, o) => res(Timestamp::try_from_str(t, *p, *o).map(tsv)),
        Op::Time(t, p, o) => res(Time::try_from_str(t, *p, *o).map(tv)),
        Op::Iv(t, p, s) => res(Interval::try_from_str(t, *p, *s).map(fields)),
        Op::FmtDate(v, s, o) => text_of(date(*v).format(*s, *o)),
        Op::FmtTs(v, s, o) => text_of(ts(*v).format(*s, *o)),
        Op::FmtTime(v, s) => text_of(time(*v).format(*s)),
        Op::FmtIv(v, s) => text_of(iv(v.0, v.1, v.2).format(*s)),
        Op::Part(v, u) => res(ts(*v).date_part(FieldType::Unit, UNITS[*u])),
        Op::IvPart(v, u) => res(iv(v.0, v.1, v.2).date_part(FieldType::Unit, UNITS[*u])),
        Op::Trunc(v, u) => res(ts(*v).truncate(FieldType::Unit, UNITS[*u]).map(tsv)),
        Op::IvTrunc(v, u) => res(iv(v.0, v.1, v.2).truncate(FieldType::Unit, UNITS[*u]).map(fields)),
        Op::AddIv(v, i) => res(ts(*v).add_interval(iv(i.0, i.1, i.2)).map(tsv)),
        Op::Age(a, b) => res(ts(*a).age(ts(*b)).map(fields)),
        Op::Scale(i, f) => res(iv(i.0, i.1, i.2).mul_f64(*f).map(fields)),
        Op::Json(k, t) => {
            let t = serde_json::to_string(t).unwrap();
            match k {
                0 => res(serde_json::from_str::<Date>(&t).map(dv)),
                1 => res(serde_json::from_str::<Timestamp>(&t).map(tsv)),
                2 => res(serde_json::from_str::<Time>(&t).map(tv)),
                _ => res(serde_json::from_str::<Interval>(&t).map(fields)),
            }
        }
        Op::Hash(v) => {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            iv(v.0, v.1, v.2).hash(&mut h);
            let _ = std::hash::BuildHasherDefault::<Fnv>::default().build_hasher();
            format!("{}", h.finish())
        }
        Op::Other(k, x) => other(*k, x),
    }
}

/// Words that mean one thing in a date and another in an interval, or that start alike.
const TWINS: &[&str] = &[
    "m", "mon", "mons", "mond", "monday", "month", "months", "d", "dec", "decs", "december", "decade", "s", "sec", "sep", "sept", "second", "h", "y", "j",
    "jan", "jd", "jul", "july", "julian", "jun", "june", "mar", "march", "may", "min", "mm", "ms", "t", "tue", "tues", "thu", "thurs", "sat", "sun", "sunday",
    "us", "w", "wed", "week", "c", "cent", "century", "centuries", "microsecon", "microsecond", "millisecon", "millennia", "millennium", "am", "pm", "ad", "bc", "ago", "at",
    "on", "infinity", "infinit", "invalid", "allballs", "feb", "february", "oct", "nov", "aug", "apr", "fri", "dow", "doy", "isodow", "epoch", "now", "today",
];

fn twin_text(s: &mut Src) -> String {
    let w = *s.pick(TWINS);
    let w = recase(s, w);
    let n = s.range(1, 12);
    match s.below(7) {
        0 => format!("{n} {w} 1999"),
        1 => format!("{w} {n} 1999"),
        2 => format!("{n} {w}"),
        3 => format!("1999-01-08 {w} 04:05"),
        4 => format!("1999-01-08 04:05 {w}"),
        5 => format!("{w}{n}"),
        _ => {
            let w2 = *s.pick(TWINS);
            format!("{n} {w} {n} {w2}")
        }
    }
}

fn text(s: &mut Src, pool: &mut Vec<String>) -> String {
    let t = match s.weighted(&[4, 4, 3, 3]) {
        0 => any_text(s),
        1 => twin_text(s),
        2 if !pool.is_empty() => {
            let t = s.pick(pool).clone();
            mutate(s, &t)
        }
        3 if !pool.is_empty() => s.pick(pool).clone(),
        _ => twin_text(s),
    };
    pool.push(t.clone());
    t
}

fn small_iv(s: &mut Src) -> (i32, i32, i64) {
    if s.bool() { gen::small_interval(s) } else { gen::interval(s) }
}

fn op(s: &mut Src, pool: &mut Vec<String>) -> Op {
    let prec = if s.bool() { -1 } else { s.range(0, 6) as i32 };
    match s.weighted(&[6, 6, 5, 7, 1, 1, 1, 2, 1, 1, 1, 1, 1, 1, 1, 2, 1, 8]) {
        0 => Op::Date(text(s, pool), *s.pick(&ORDERS)),
        1 => Op::Ts(text(s, pool), prec, *s.pick(&ORDERS)),
        2 => Op::Time(text(s, pool), prec, *s.pick(&ORDERS)),
        3 => {
            let m = match s.below(3) {
                0 => (*s.pick(&LIMITS) & 0x7fff) << 16 | 0xffff,
                _ => -1,
            };
            Op::Iv(text(s, pool), m, *s.pick(&ISTYLES))
        }
        4 => Op::FmtDate(gen::date(s), *s.pick(&STYLES), *s.pick(&ORDERS)),
        5 => Op::FmtTs(gen::ts(s), *s.pick(&STYLES), *s.pick(&ORDERS)),
        6 => Op::FmtTime(gen::time(s), *s.pick(&STYLES)),
        7 => Op::FmtIv(small_iv(s), *s.pick(&ISTYLES)),
        8 => Op::Part(gen::ts(s), s.below(UNITS.len() as u64) as usize),
        9 => Op::IvPart(small_iv(s), s.below(UNITS.len() as u64) as usize),
        10 => Op::Trunc(gen::ts(s), s.below(UNITS.len() as u64) as usize),
        11 => Op::IvTrunc(small_iv(s), s.below(UNITS.len() as u64) as usize),
        12 => Op::AddIv(gen::ts(s), small_iv(s)),
        13 => Op::Age(gen::ts(s), gen::ts(s)),
        14 => Op::Scale(small_iv(s), gen::f64s(s)),
        15 => Op::Json(s.below(4) as u8, text(s, pool)),
        16 => Op::Hash(small_iv(s)),
        _ => {
            let k = s.below(OTHERS as u64) as u8;
            let n = match s.below(3) {
                0 => s.range(-400, 400) as i32,
                1 => gen::date(s),
                _ => s.range(i32::MIN as i64, i32::MAX as i64) as i32,
            };
            let text = if matches!(k, 48..=55) { text(s, pool) } else { String::new() };
            let x = Operands {
                d: (gen::date(s), gen::date(s)),
                t: (gen::ts(s), gen::ts(s)),
                c: (gen::time(s), gen::time(s)),
                i: (small_iv(s), small_iv(s)),
                n,
                f: gen::f64s(s),
                u: s.below(UNITS.len() as u64) as usize,
                text,
            };
            Op::Other(k, x)
        }
    }
}

fn ops(s: &mut Src, n: i64) -> (Vec<Op>, bool) {
    let mut pool = vec![];
    let v: Vec<Op> = (0..n).map(|_| op(s, &mut pool)).collect();
    let mut words: Vec<String> = vec![];
    let mut shared = false;
    for t in &pool {
        for w in t.split(|c: char| !c.is_ascii_alphabetic()).filter(|w| !w.is_empty()) {
            let w = w.to_ascii_lowercase();
            if words.contains(&w) {
                shared = true;
            }
            words.push(w);
        }
    }
    let n = v.len();
    (v, n >= 3 && shared)
}

/// The result of one operation in a thread that has done nothing else.
fn alone(op: &Op) -> String {
    std::thread::scope(|sc| sc.spawn(|| run(op)).join().unwrap_or_else(|_| "thread died".into()))
}

fn sequences(s: &mut Src, o: &mut Obs) -> R {
    let n = s.range(2, 12);
    let (v, nt) = ops(s, n);
    let bytes = [0u8, 0xff, 0x61, 0x20, s.below(256) as u8];
    o.case(nt, format!("{v:?}"), || format!("{v:?}"));
    let want: Vec<String> = v.iter().map(alone).collect();
    let go = |order: Vec<usize>, poisoned: bool| -> R {
        let got: Vec<String> = std::thread::scope(|sc| {
            sc.spawn(|| {
                order
                    .iter()
                    .enumerate()
                    .map(|(k, &i)| if poisoned { poison::with(bytes[k % 5], || run(&v[i])) } else { run(&v[i]) })
                    .collect()
            })
            .join()
            .unwrap()
        });
        for (k, &i) in order.iter().enumerate() {
            let before: Vec<&Op> = order[..k].iter().map(|&j| &v[j]).collect();
            ensure!(got[k] == want[i], "{:?} alone: {}; after {before:?}{}: {}", v[i], want[i], if poisoned { " in poisoned memory" } else { "" }, got[k]);
        }
        Ok(())
    };
    let n = v.len();
    go((0..n).collect(), false)?;
    go((0..n).rev().collect(), false)?;
    go((0..n).chain(0..n).collect(), true)
}

/// What `pgdt-check --eval ORDER` prints for the tape on its standard input.
pub fn eval(order: &str, tape: &str) -> String {
    let tape: Vec<u64> = serde_json::from_str(tape).expect("tape");
    let v = listed(&tape);
    let mut out = vec![String::new(); v.len()];
    let idx: Vec<usize> = if order == "reverse" { (0..v.len()).rev().collect() } else { (0..v.len()).collect() };
    for i in idx {
        out[i] = run(&v[i]);
    }
    serde_json::to_string(&out).unwrap()
}

fn listed(tape: &[u64]) -> Vec<Op> {
    let bytes: Vec<u8> = tape.iter().flat_map(|w| w.to_le_bytes()).collect();
    let mut s = Src::from_bytes(&bytes);
    let n = s.range(2, 40);
    ops(&mut s, n).0
}

/// The same list, in two new processes, in opposite orders.
fn processes(s: &mut Src, o: &mut Obs) -> R {
    let n = s.range(10, 700);
    let tape: Vec<u64> = (0..n).map(|_| s.u64()).collect();
    let v = listed(&tape);
    o.case(v.len() >= 3, format!("{v:?}"), || format!("forwards and backwards in new processes: {v:?}"));
    let input = serde_json::to_string(&tape).unwrap();
    let child = |order: &str| -> Vec<String> {
        use std::io::Write;
        let mut c = std::process::Command::new(std::env::current_exe().expect("own path"))
            .args(["--eval", order])
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .spawn()
            .expect("start a process");
        c.stdin.take().unwrap().write_all(input.as_bytes()).expect("write to it");
        let out = c.wait_with_output().expect("its output");
        serde_json::from_slice(&out.stdout).unwrap_or_else(|_| vec![format!("the process ended with {:?}", out.status)])
    };
    let (a, b) = (child("forward"), child("reverse"));
    for i in 0..a.len().max(b.len()) {
        let op = v.get(i);
        ensure!(a.get(i) == b.get(i), "{op:?} after the {i} operations before it in {v:?}: {:?}; after those behind it, backwards: {:?}", a.get(i), b.get(i));
    }
    Ok(())
}

/// One operation under several fillings of memory; no new threads, so many more cases.
fn poisoned(s: &mut Src, o: &mut Obs) -> R {
    let mut pool = vec![];
    let x = op(s, &mut pool);
    let b = s.below(256) as u8;
    o.case(!pool.is_empty(), format!("{x:?}"), || format!("{x:?} with memory filled with 00, ff, 31, {b:02x}"));
    let want = run(&x);
    for fill in [0u8, 0xff, b'1', b] {
        let got = poison::with(fill, || run(&x));
        ensure!(got == want, "{x:?}: {want}; with memory filled with {fill:#04x}: {got}");
    }
    Ok(())
}

fn threads(s: &mut Src, o: &mut Obs) -> R {
    let n = s.range(2, 10);
    let (v, nt) = ops(s, n);
    o.case(nt, format!("{v:?}"), || format!("on 4 threads: {v:?}"));
    let want: Vec<String> = v.iter().map(alone).collect();
    let barrier = std::sync::Barrier::new(4);
    let bad: Vec<Option<(usize, usize, String)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..4usize)
            .map(|k| {
                let (v, want, barrier) = (&v, &want, &barrier);
                sc.spawn(move || {
                    barrier.wait();
                    for round in 0..6 {
                        for i in 0..v.len() {
                            let i = (i * (k + 1) + k + round) % v.len();
                            let got = run(&v[i]);
                            if got != want[i] {
                                return Some((k, i, got));
                            }
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(None)).collect()
    });
    for b in bad.into_iter().flatten() {
        return Err(Fail::from(format!("{:?} alone: {}; on thread {} of 4 running {v:?}: {}", v[b.1], want[b.1], b.0, b.2)));
    }
    Ok(())
}

// ---------------------------------------------------------------- memory safety (C34)

/// A few operations in a row, for their effect on memory alone.
pub fn exercise(s: &mut Src, o: &mut Obs) -> R {
    let n = s.range(1, 5);
    let (v, _) = ops(s, n);
    o.case(true, format!("{v:?}"), || format!("{v:?}"));
    for x in &v {
        let got = run(x);
        ensure!(!got.contains(BROKEN), "{x:?} returns {got}");
    }
    Ok(())
}

/// The same list of operations on three threads at once.
pub fn exercise_threads(s: &mut Src, o: &mut Obs) -> R {
    let n = s.range(1, 5);
    let (v, nt) = ops(s, n);
    o.case(n > 1 || nt, format!("{v:?}"), || format!("on 3 threads: {v:?}"));
    std::thread::scope(|sc| {
        for k in 0..3usize {
            let v = &v;
            sc.spawn(move || {
                for i in 0..2 * v.len() {
                    std::hint::black_box(run(&v[(i + k) % v.len()]));
                }
            });
        }
    });
    Ok(())
}

/// The operations such a case runs, without running them.
pub fn exercise_text(s: &mut Src) -> String {
    let n = s.range(1, 5);
    format!("{:?}", ops(s, n).0)
}
