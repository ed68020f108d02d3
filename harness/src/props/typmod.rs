//! C16: precision and field-range limits on input.

use crate::engine::*;
use crate::gen;
use crate::model::cal::*;
use crate::model::fmt;
use crate::model::parse::{self as reference, range, Iv, Ref, Unit};
use crate::textgen::*;
use crate::val::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C16",
        rule: "A case is a text read with no limit and with a precision 0..6 (and for intervals every field-range limit), or with a limit that does not exist. Non-trivial: some limit changes the value, or the text is a bare number.",
        assumptions: &[
            "An interval's range and precision are passed as (range & 0x7FFF) << 16 | precision, with 0x7FFF and 0xFFFF for no limit, as the crate's tests do.",
            "Coarser fields are kept as they are: a limit to hours does not touch months or days.",
        ],
        subs: vec![
            random("timestamps", p_ts, 1_000_000),
            random("times", p_time, 1_000_000),
            random("intervals", p_iv, 1_500_000),
            random("bare-numbers", bare, 800_000),
            random("differential", diff, 800_000),
            random("unknown-limits", unknown, 400_000),
        ],
    }]
}

pub fn round_to(v: i64, p: i32) -> i128 {
    let unit = 10i128.pow(6 - p as u32);
    reference::div_round(v as i128, unit) * unit
}

pub fn ivmod(limit: i32, p: i32) -> i32 {
    (limit & 0x7fff) << 16 | if p < 0 { 0xffff } else { p }
}

fn p_ts(s: &mut Src, o: &mut Obs) -> R {
    let (t, or) = match s.below(4) {
        0 => {
            let m = moment(s, false);
            (m.text, m.order)
        }
        1 => {
            // just off, at or past a rounding boundary
            let base = gen::ts(s);
            let unit = 10i64.pow(s.range(0, 6) as u32);
            let half = unit / 2;
            let v = base.div_euclid(unit) * unit + half + s.range(-1, 1);
            (fmt::timestamp(v.clamp(MIN_TS, END_TS - 1), DateStyle::ISO, DateOrder::YMD), *s.pick(&ORDERS))
        }
        2 => {
            let k = s.range(1, 1_000_000);
            let v = if s.one_in(3) { *s.pick(&[i64::MIN, i64::MAX]) } else { END_TS - k };
            (fmt::timestamp(v, DateStyle::ISO, DateOrder::YMD), *s.pick(&ORDERS))
        }
        _ => (fmt::timestamp(gen::ts(s), DateStyle::ISO, DateOrder::YMD), *s.pick(&ORDERS)),
    };
    let full = Timestamp::try_from_str(&t, -1, or).map(tsv);
    let mut changed = false;
    for p in 0..=6 {
        let r = Timestamp::try_from_str(&t, p, or).map(tsv);
        match &full {
            Err(_) => ensure!(r.is_err(), "timestamp {t:?} under {or:?} is refused, but with precision {p} reads as {r:?}"),
            Ok(v) if *v == i64::MIN || *v == i64::MAX => ensure!(r == Ok(*v), "infinite timestamp {t:?} with precision {p} reads as {r:?}"),
            Ok(v) => {
                let want = round_to(*v, p);
                changed |= want != *v as i128;
                if valid_ts(want) {
                    ensure!(r == Ok(want as i64), "timestamp {t:?} under {or:?} is {v}; with precision {p} expected {want}, read {r:?}");
                } else {
                    ensure!(r.is_err(), "timestamp {t:?} under {or:?} is {v}; with precision {p} it is out of range, read {r:?}");
                }
            }
        }
    }
    o.case(changed, (&t, or as u8), || format!("{t:?} under {or:?} = {full:?}"));
    Ok(())
}

fn p_time(s: &mut Src, o: &mut Obs) -> R {
    let (t, or) = if s.bool() {
        let x = time_text(s);
        (x.text, x.order)
    } else {
        let base = gen::time(s);
        let unit = 10i64.pow(s.range(0, 6) as u32);
        let v = match s.below(3) {
            0 => base / unit * unit + unit / 2 + s.range(-1, 1),
            1 => DAY - s.range(0, 1_000_000),
            _ => base,
        };
        (fmt::time(v.clamp(0, DAY)), *s.pick(&ORDERS))
    };
    let full = Time::try_from_str(&t, -1, or).map(tv);
    let mut changed = false;
    for p in 0..=6 {
        let r = Time::try_from_str(&t, p, or).map(tv);
        match &full {
            Err(_) => ensure!(r.is_err(), "time {t:?} under {or:?} is refused, but with precision {p} reads as {r:?}"),
            Ok(v) => {
                let want = round_to(*v, p);
                changed |= want != *v as i128;
                ensure!(r == Ok(want as i64), "time {t:?} under {or:?} is {v}; with precision {p} expected {want}, read {r:?}");
            }
        }
    }
    o.case(changed, (&t, or as u8), || format!("{t:?} under {or:?} = {full:?}"));
    Ok(())
}

/// What a limit leaves of an interval.
fn limited((m, d, t): (i32, i32, i64), limit: i32, p: i32) -> (i32, i32, i64) {
    let (m, d, t) = match reference::finest(limit) {
        None => (m, d, t),
        Some(Unit::Year) => (m / 12 * 12, 0, 0),
        Some(Unit::Month) => (m, 0, 0),
        Some(Unit::Day) => (m, d, 0),
        Some(Unit::Hour) => (m, d, t / HOUR * HOUR),
        Some(Unit::Minute) => (m, d, t / MIN * MIN),
        Some(_) => (m, d, t),
    };
    (m, d, if p < 0 { t } else { round_to(t, p) as i64 })
}

/// Under a limit to minutes and seconds, nn:nn means something else.
fn two_part_clock(t: &str) -> bool {
    t.split(|c: char| !(c.is_ascii_digit() || c == ':' || c == '.')).any(|w| w.matches(':').count() == 1)
}

fn p_iv(s: &mut Src, o: &mut Obs) -> R {
    let x = if s.below(3) > 0 { interval_text(s) } else { iso_text(s) };
    let t = &x.text;
    let full = Interval::try_from_str(t, -1, x.style).map(fields);
    let same = Interval::try_from_str(t, ivmod(range::FULL, -1), x.style).map(fields);
    ensure!(same.is_err() == full.is_err() && (full.is_err() || same == full), "interval {t:?}: no limit {full:?}, full range and precision {same:?}");
    let mut changed = false;
    for limit in LIMITS {
        if limit != range::FULL && (x.form == "bare number" || (limit == range::MINUTE | range::SECOND && two_part_clock(t))) {
            continue;
        }
        for p in [-1, s.range(0, 6) as i32] {
            let r = Interval::try_from_str(t, ivmod(limit, p), x.style).map(fields);
            match &full {
                Err(_) => ensure!(r.is_err(), "interval {t:?} under {:?} is refused, but with range {limit:#x}, precision {p} reads as {r:?}", x.style),
                Ok(v) => {
                    let want = limited(*v, limit, p);
                    changed |= want != *v;
                    ensure!(r == Ok(want), "interval {t:?} under {:?} is {v:?}; with range {limit:#x}, precision {p} expected {want:?}, read {r:?}", x.style);
                }
            }
        }
    }
    o.case(changed, (t, x.style as u8), || format!("{t:?} under {:?} = {full:?}", x.style));
    Ok(())
}

/// Every value an inexact reading may take, under a limit.
fn admits(iv: &Iv, got: (i32, i32, i64), limit: i32, p: i32) -> Option<bool> {
    if iv.m_slack + iv.d_slack > 0 || iv.t_slack > 4 {
        return None;
    }
    for dt in -iv.t_slack..=iv.t_slack {
        if limited((iv.m as i32, iv.d as i32, iv.t + dt), limit, p) == got {
            return Some(true);
        }
    }
    Some(false)
}

fn bare(s: &mut Src, o: &mut Obs) -> R {
    let limit = *s.pick(&LIMITS);
    let p = if s.bool() { -1 } else { s.range(0, 6) as i32 };
    let style = *s.pick(&ISTYLES);
    let neg = s.one_in(3);
    let whole = match s.below(4) {
        0 => s.range(0, 10_000_000),
        _ => s.range(0, 300),
    };
    let unit = reference::finest(limit).unwrap_or(Unit::Second);
    let mut frac = 0i128;
    let mut t = format!("{}{whole}", if neg { "-" } else { "" });
    if s.bool() {
        let k = s.range(1, 7) as usize;
        let f = s.range(0, 10i64.pow(k as u32) - 1);
        frac = f as i128 * 10i128.pow(7 - k as u32);
        t = format!("{t}.{f:0k$}");
    }
    let mut sum = reference::Sum::default();
    let k = if neg { -1 } else { 1 };
    add(&mut sum, unit, k * whole as i128, k * frac);
    if s.one_in(6) {
        t = format!("@ {t}");
    }
    o.case(true, (&t, limit, p), || format!("{t:?} with range {limit:#x}, precision {p}"));
    let Ok(want) = sum.finish() else { return Ok(()) };
    let r = Interval::try_from_str(&t, ivmod(limit, p), style).map(fields);
    let good = match &r {
        Ok(v) => admits(&want, *v, limit, p),
        Err(_) => Some(false),
    };
    ensure!(good != Some(false), "{t:?} with range {limit:#x}, precision {p} under {style:?} counts {unit:?}s: {want:?} before the limit; read {r:?}");
    Ok(())
}

fn diff(s: &mut Src, o: &mut Obs) -> R {
    let t = match s.below(3) {
        0 => soup(s),
        1 => {
            let t = interval_text(s).text;
            mutate(s, &t)
        }
        _ => interval_text(s).text,
    };
    let style = *s.pick(&ISTYLES);
    let limit = *s.pick(&LIMITS);
    let p = if s.bool() { -1 } else { s.range(0, 6) as i32 };
    let want = reference::interval(&t, limit, style);
    let r = Interval::try_from_str(&t, ivmod(limit, p), style).map(fields);
    let good = match (&want, &r) {
        (Ref::Skip, _) => true,
        (Ref::Err, r) => r.is_err(),
        (Ref::Val(_) | Ref::Near(..), Err(_)) => false,
        (Ref::Either(..), Err(_)) => true,
        (Ref::Val(v) | Ref::Near(v, _) | Ref::Either(v, _), Ok(x)) => admits(v, *x, limit, p) != Some(false),
    };
    o.case(!matches!(want, Ref::Err | Ref::Skip), (&t, limit, p), || format!("{t:?} under {style:?} with range {limit:#x}, precision {p}"));
    ensure!(good, "{t:?} under {style:?} with range {limit:#x}, precision {p}: before the limit the grammar says {want:?}; read {r:?}");
    Ok(())
}

/// Limits that do not exist: refused for timestamps and intervals, without effect for times.
fn unknown(s: &mut Src, o: &mut Obs) -> R {
    let p = match s.below(5) {
        0 => *s.pick(&[-2i64, 7, 8, -3, 10, 255, 256, 0xffff, 0x10000, 0x10006, i32::MIN as i64, i32::MAX as i64]),
        1 => s.range(7, 100),
        2 => s.range(-100, -2),
        _ => gen::int(s, i32::MIN as i64, i32::MAX as i64),
    } as i32;
    let or = *s.pick(&ORDERS);
    if s.one_in(3) {
        if (-1..=6).contains(&p) {
            return Ok(());
        }
        let t = fmt::timestamp(gen::ts(s), DateStyle::ISO, DateOrder::YMD);
        o.case(true, (&t, p), || format!("timestamp {t:?} with precision {p}"));
        let r = Timestamp::try_from_str(&t, p, or).map(tsv);
        ensure!(r.is_err(), "timestamp {t:?} with precision {p} reads as {r:?}, want an error");
        let v = gen::time(s);
        let t = fmt::time(v);
        let r = Time::try_from_str(&t, p, or).map(tv);
        ensure!(r == Ok(v), "time {t:?} with precision {p}, which has no effect on times, reads as {r:?}, want {v}");
        return Ok(());
    }
    let x = if s.bool() { interval_text(s) } else { iso_text(s) };
    let t = &x.text;
    let limit = match s.below(4) {
        0 => *s.pick(&LIMITS),
        1 => *s.pick(&LIMITS) ^ 1 << s.range(0, 14),
        2 => *s.pick(&LIMITS) | *s.pick(&LIMITS[1..]),
        _ => s.range(0, 0x7ffe) as i32,
    };
    let p = match s.below(3) {
        0 => -1,
        1 => s.range(0, 6) as i32,
        _ => *s.pick(&[7, 8, 10, 100, 0xfffe, 0x8000, 0x7fff]),
    };
    let known = LIMITS.contains(&limit) && p <= 6;
    o.case(!known, (t, x.style as u8, limit, p), || format!("{t:?} under {:?} with range {limit:#x}, precision {p}", x.style));
    if !known {
        let r = Interval::try_from_str(t, ivmod(limit, p), x.style).map(fields);
        ensure!(r.is_err(), "interval {t:?} under {:?} with range {limit:#x}, precision {p} reads as {r:?}, want an error", x.style);
    }
    Ok(())
}
