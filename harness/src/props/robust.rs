//! C13, C14: arbitrary text.

use crate::engine::*;
use crate::model::cal::*;
use crate::model::fmt;
use crate::model::parse::{self as reference, range, Ref};
use crate::textgen::*;
use crate::val::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            rule: "A case is a text with an order, interval style, precision and field range, given to all four parsers. Non-trivial: some parser accepts it.",
            assumptions: &["Any UTF-8 string up to a few hundred bytes; precisions are any 32-bit integers."],
            subs: vec![
                random("structured", robust_structured, 1_000_000),
                random("any-string", robust_string, 600_000),
                random("long", robust_long, 60_000),
            ],
        },
        Prop {
            id: "C14",
            rule: "A case is a text given to the four parsers under every order and style and compared with the reference parser. Non-trivial: the reference accepts it for at least one parser.",
            assumptions: &[
                "The reference parser (harness/src/model/parse.rs) is written from PostgreSQL 12's grammar and this library's documented limits; where PostgreSQL's own arithmetic is in floating point it states a tolerance.",
                "Token lists over 128 bytes in total, and intervals whose intermediate field sums leave 32 bits, are outside the comparison.",
            ],
            subs: vec![
                random("moments", diff_moments, 700_000),
                random("times", diff_times, 700_000),
                random("intervals", diff_intervals, 900_000),
                random("soup", diff_soup, 900_000),
                random("near-limit", diff_near_limit, 200_000),
            ],
        },
    ]
}

// ---------------------------------------------------------------- C14

pub const DATELESS: &str = "timestamp text without a date";

pub fn diff_date(t: &str, or: DateOrder) -> Result<bool, Fail> {
    let want = reference::date(t, or);
    let r = Date::try_from_str(t, or).map(dv);
    let good = match &want {
        Ref::Val(v) => r == Ok(*v),
        Ref::Near(v, _) => r == Ok(*v),
        Ref::Err => r.is_err(),
        Ref::Either(v, _) => r.is_err() || r == Ok(*v),
        Ref::Skip => true,
    };
    ensure!(good, "date {t:?} under {or:?}: the grammar says {want:?}; read: {r:?}");
    Ok(!matches!(want, Ref::Err | Ref::Skip))
}

fn within(r: &Result<i64, DateTimeError>, v: i64, tol: i64) -> bool {
    matches!(r, Ok(x) if (*x as i128 - v as i128).abs() <= tol as i128)
}

fn agrees(want: &Ref<i64>, r: &Result<i64, DateTimeError>) -> bool {
    match want {
        Ref::Val(v) => within(r, *v, 0),
        Ref::Near(v, tol) => within(r, *v, *tol),
        Ref::Err => r.is_err(),
        Ref::Either(v, tol) => r.is_err() || within(r, *v, *tol),
        Ref::Skip => true,
    }
}

pub fn diff_timestamp(t: &str, or: DateOrder) -> Result<bool, Fail> {
    let want = reference::timestamp(t, or);
    let r = Timestamp::try_from_str(t, -1, or).map(tsv);
    if !agrees(&want, &r) {
        let mut f = Fail::from(format!("timestamp {t:?} under {or:?}: the grammar says {want:?}; read: {r:?}"));
        if let (Ref::Err, Ok(v), Some(d)) = (&want, &r, reference::dateless(t, or)) {
            if (v - d).abs() <= 1 {
                f.fingerprint = Some(DATELESS.into());
            }
        }
        return Err(f);
    }
    Ok(!matches!(want, Ref::Err | Ref::Skip))
}

pub fn diff_time(t: &str, or: DateOrder) -> Result<bool, Fail> {
    let want = reference::time(t, or);
    let r = Time::try_from_str(t, -1, or).map(tv);
    ensure!(agrees(&want, &r), "time {t:?} under {or:?}: the grammar says {want:?}; read: {r:?}");
    Ok(!matches!(want, Ref::Err | Ref::Skip))
}

pub fn diff_interval(t: &str, style: IntervalStyle) -> Result<bool, Fail> {
    let want = reference::interval(t, range::FULL, style);
    let r = Interval::try_from_str(t, -1, style).map(fields);
    let good = match &want {
        Ref::Val(v) | Ref::Near(v, _) => matches!(&r, Ok(x) if v.admits(*x)),
        Ref::Err => r.is_err(),
        Ref::Either(v, _) => r.is_err() || matches!(&r, Ok(x) if v.admits(*x)),
        Ref::Skip => true,
    };
    ensure!(good, "interval {t:?} under {style:?}: the grammar says {want:?}; read: {r:?}");
    Ok(!matches!(want, Ref::Err | Ref::Skip))
}

fn diff_all(t: &str, o: &mut Obs, which: u32) -> R {
    let mut acc = false;
    let mut known = None;
    for or in ORDERS {
        if which & 1 != 0 {
            acc |= diff_date(t, or)?;
            match diff_timestamp(t, or) {
                Ok(a) => acc |= a,
                Err(f) if f.fingerprint.is_some() => known = Some(f),
                Err(f) => return Err(f),
            }
        }
        if which & 2 != 0 {
            acc |= diff_time(t, or)?;
        }
    }
    if which & 4 != 0 {
        for st in ISTYLES {
            acc |= diff_interval(t, st)?;
        }
    }
    o.case(acc, t, || format!("{t:?}: {}", if acc { "accepted by some parser" } else { "refused by all" }));
    if acc {
        o.label("accepted");
    }
    match known {
        Some(f) => Err(f),
        None => Ok(()),
    }
}

fn diff_moments(s: &mut Src, o: &mut Obs) -> R {
    let t = moment(s, false).text;
    let t = if s.below(4) > 0 { mutate(s, &t) } else { t };
    diff_all(&t, o, 1)
}
fn diff_times(s: &mut Src, o: &mut Obs) -> R {
    let t = time_text(s).text;
    let t = if s.below(4) > 0 { mutate(s, &t) } else { t };
    diff_all(&t, o, 3)
}
fn diff_intervals(s: &mut Src, o: &mut Obs) -> R {
    let t = if s.below(3) > 0 { interval_text(s).text } else { iso_text(s).text };
    let t = if s.below(4) > 0 { mutate(s, &t) } else { t };
    diff_all(&t, o, 4)
}
fn diff_soup(s: &mut Src, o: &mut Obs) -> R {
    let t = if s.below(3) > 0 { soup(s) } else { any_text(s) };
    diff_all(&t, o, 7)
}
/// Texts whose tokens together come near the 128 bytes the parsers have room for: by words which
/// change nothing, zeros in front of numbers, and letters after the tenth of a long word (which
/// do not count).
fn diff_near_limit(s: &mut Src, o: &mut Obs) -> R {
    let which = *s.pick(&[1, 3, 4, 4, 4]);
    let base = match which {
        1 => moment(s, false).text,
        3 => time_text(s).text,
        _ => interval_text(s).text,
    };
    let target = s.range(124, 130) as usize;
    let mut t = String::new();
    if which == 4 {
        // a unit the text need not have, its name made longer
        t = format!("{base} {} {}", s.range(0, 99), s.pick(&["microseconds", "millennium", "centuriess"]));
    } else {
        let k = s.range(0, 20);
        let front = s.bool();
        if !front {
            t.push_str(&base);
        }
        for _ in 0..k {
            t.push(' ');
            t.push_str(*s.pick(&["at", "on", "On", "AT"]));
        }
        if front {
            t.push(' ');
            t.push_str(&base);
        }
    }
    // zeros
    let n = s.below(4);
    for _ in 0..n {
        let b = t.as_bytes();
        let starts: Vec<usize> = (0..b.len()).filter(|&i| b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit())).collect();
        if !starts.is_empty() {
            let at = *s.pick(&starts);
            t.insert_str(at, &"0".repeat(s.range(1, 9) as usize));
        }
    }
    let used: usize = match reference::tokens(&t) {
        Ok(v) => v.iter().map(|t| t.1.len()).sum(),
        Err(_) => t.len(),
    };
    if which == 4 {
        t.extend(std::iter::repeat(*s.pick(&['s', 'x'])).take(target.saturating_sub(used)));
    }
    diff_all(&t, o, which)
}

// ---------------------------------------------------------------- C13

fn in_ts(v: i64) -> bool {
    v == i64::MIN || v == i64::MAX || valid_ts(v as i128)
}
fn in_date(v: i32) -> bool {
    v == i32::MIN || v == i32::MAX || valid_date(v as i128)
}

fn robust(t: &str, or: DateOrder, ist: IntervalStyle, prec: i32, ivmod: i32, o: &mut Obs) -> R {
    let mut acc = 0;
    if let Ok(d) = guarded(|| Date::try_from_str(t, or)).map_err(|e| format!("date parser panics on {t:?} under {or:?}: {e}"))? {
        acc += 1;
        ensure!(in_date(dv(d)), "date {t:?} under {or:?} reads as {} outside the range", dv(d));
        for st in STYLES {
            for fo in ORDERS {
                let text = d.format(st, fo).map_err(|e| format!("date {t:?} reads as {} which cannot be printed: {e}", dv(d)))?;
                for &ro in fmt::read_orders(st, fo, false) {
                    let r = Date::try_from_str(&text, ro);
                    ensure!(r == Ok(d), "date {t:?} reads as {}, prints as {text:?}, reads back as {r:?}", dv(d));
                }
            }
        }
    }
    if let Ok(d) = guarded(|| Timestamp::try_from_str(t, prec, or)).map_err(|e| format!("timestamp parser panics on {t:?} under {or:?}, precision {prec}: {e}"))? {
        acc += 1;
        ensure!(in_ts(tsv(d)), "timestamp {t:?} under {or:?}, precision {prec} reads as {} outside the range", tsv(d));
        for st in STYLES {
            for fo in ORDERS {
                let text = d.format(st, fo).map_err(|e| format!("timestamp {t:?} reads as {} which cannot be printed: {e}", tsv(d)))?;
                for &ro in fmt::read_orders(st, fo, true) {
                    let r = Timestamp::try_from_str(&text, -1, ro);
                    ensure!(r == Ok(d), "timestamp {t:?} reads as {}, prints as {text:?}, reads back as {r:?}", tsv(d));
                }
            }
        }
    }
    if let Ok(d) = guarded(|| Time::try_from_str(t, prec, or)).map_err(|e| format!("time parser panics on {t:?} under {or:?}, precision {prec}: {e}"))? {
        acc += 1;
        ensure!((0..=DAY).contains(&tv(d)), "time {t:?} under {or:?}, precision {prec} reads as {} outside the range", tv(d));
        for st in STYLES {
            let text = d.format(st).map_err(|e| format!("time {t:?} reads as {} which cannot be printed: {e}", tv(d)))?;
            for ro in ORDERS {
                let r = Time::try_from_str(&text, -1, ro);
                ensure!(r == Ok(d), "time {t:?} reads as {}, prints as {text:?}, reads back as {r:?}", tv(d));
            }
        }
    }
    if let Ok(d) =
        guarded(|| Interval::try_from_str(t, ivmod, ist)).map_err(|e| format!("interval parser panics on {t:?} under {ist:?}, type modifier {ivmod:#x}: {e}"))?
    {
        acc += 1;
        let (_, dd, tt) = fields(d);
        let hours = tt as i128 / HOUR as i128;
        if hours > i32::MIN as i128 && hours <= i32::MAX as i128 && dd != i32::MIN {
            for st in ISTYLES {
                let text = d.format(st).map_err(|e| format!("interval {t:?} reads as {:?} which cannot be printed: {e}", fields(d)))?;
                let r = Interval::try_from_str(&text, -1, st).map(fields);
                ensure!(r == Ok(fields(d)), "interval {t:?} reads as {:?}, prints as {text:?} ({st:?}), reads back as {r:?}", fields(d));
            }
        }
    }
    o.case(acc > 0, t, || format!("{t:?}, {or:?}, {ist:?}, precision {prec}, interval modifier {ivmod:#x}: accepted by {acc} parsers"));
    Ok(())
}

fn args(s: &mut Src) -> (DateOrder, IntervalStyle, i32, i32) {
    let prec = match s.below(6) {
        0 => s.range(0, 6) as i32,
        1 => s.range(-3, 9) as i32,
        2 => crate::gen::i32s(s),
        _ => -1,
    };
    let ivmod = match s.below(6) {
        0 => crate::gen::i32s(s),
        1 => s.below(0x8000_0000) as i32,
        2 | 3 => (*s.pick(&LIMITS) & 0x7fff) << 16 | *s.pick(&[0xffff, 0, 1, 2, 3, 4, 5, 6, 7]),
        _ => -1,
    };
    (*s.pick(&ORDERS), *s.pick(&ISTYLES), prec, ivmod)
}

fn robust_structured(s: &mut Src, o: &mut Obs) -> R {
    let t = any_text(s);
    let (or, ist, prec, ivmod) = args(s);
    robust(&t, or, ist, prec, ivmod, o)
}
fn robust_string(s: &mut Src, o: &mut Obs) -> R {
    let t = any_string(s);
    let (or, ist, prec, ivmod) = args(s);
    robust(&t, or, ist, prec, ivmod, o)
}
/// Many or long tokens: near the token and buffer limits.
fn robust_long(s: &mut Src, o: &mut Obs) -> R {
    let n = s.range(1, 40);
    let mut t = String::new();
    let base = any_text(s);
    for i in 0..n {
        if i > 0 && s.bool() {
            t.push(' ');
        }
        match s.below(4) {
            0 => {
                let k = s.range(1, 140) as usize;
                let c = *s.pick(&['1', 'a', '-', '.', ':', '9', '0', ' ', '+']);
                t.extend(std::iter::repeat(c).take(k));
            }
            1 => t.push_str(&base),
            _ => t.push_str(&soup(s)),
        }
        if t.len() > 400 {
            break;
        }
    }
    let (or, ist, prec, ivmod) = args(s);
    robust(&t, or, ist, prec, ivmod, o)
}

// ---------------------------------------------------------------- coverage-guided entry

/// One input of the coverage-guided fuzzer: two bytes of settings, then the text itself.
/// Ok(false) asks for the input to be dropped from the corpus.
pub fn fuzz_one(prop: &str, data: &[u8], o: &mut Obs) -> Result<bool, Fail> {
    if data.len() < 2 {
        return Ok(false);
    }
    let Ok(t) = std::str::from_utf8(&data[2..]) else { return Ok(false) };
    let (a, b) = (data[0] as usize, data[1] as usize);
    let (or, ist) = (ORDERS[a % 3], ISTYLES[a / 3 % 4]);
    let prec = (a / 12 % 9) as i32 - 1;
    let ivmod = if b == 0 { -1 } else { (LIMITS[b % LIMITS.len()] & 0x7fff) << 16 | [0xffff, 0, 1, 3, 6][b / LIMITS.len() % 5] };
    let r = guarded(|| if prop == "C13" { robust(t, or, ist, prec, ivmod, o) } else { diff_all(t, o, 7) });
    match r.unwrap_or_else(|m| Err(Fail::from(format!("panic: {m}")))) {
        Err(f) if f.fingerprint.as_deref() == Some(DATELESS) => Ok(true),
        Err(f) => Err(f),
        Ok(()) => Ok(true),
    }
}
