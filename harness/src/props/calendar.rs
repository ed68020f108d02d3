//! C01 calendar bijection, C18 date arithmetic, C30 conversions.

use crate::engine::*;
use crate::gen;
use crate::model::{cal::*, fmt};
use crate::val::*;
use std::convert::TryFrom;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "A case is a day number, or a (year, month, day) triple. Day numbers: every day of years 4714 BC..9999 and a stride over all 2,147,483,494 valid days (all of them in the thorough tier). Triples: biased to month ends, leap centuries, BC years, range ends and 32-bit extremes. Non-trivial: the day lies outside 1..28 of its month, or the year is BC, over 4 digits or a multiple of 100, or the triple is invalid.",
            assumptions: &["The reference calendar (harness/src/model/cal.rs) is right; it is written from the Gregorian leap rule in 64-bit arithmetic, independent of the library's formulas."],
            subs: vec![
                enumerate("days-4714BC-9999", day_low, (days(10000, 1, 1) - MIN_DATE) as u64, 1),
                enumerate("days-all", day_any, (END_DATE - MIN_DATE) as u64, 700),
                random("triples", triple, 3_000_000),
                random("near-valid-triples", near_triple, 3_000_000),
            ],
        },
        Prop {
            id: "C18",
            rule: "A case is a date (finite or infinite) with a day count, another date, an interval or a time. Non-trivial: the operands are finite and the day count or interval is non-zero.",
            assumptions: &["Operands are valid dates; Date::from(i32) on out-of-range numbers is not an operand."],
            subs: vec![
                random("add-sub-days", add_sub_days, 3_000_000),
                random("sub-date", sub_date, 2_000_000),
                random("date-plus-interval", date_interval, 2_000_000),
            ],
        },
        Prop {
            id: "C30",
            rule: "A case is one value converted to the other types and back. Non-trivial: the value is before 2000-01-01, infinite, within a day of a range end, or not at midnight.",
            assumptions: &[],
            subs: vec![
                random("timestamp-split", ts_split, 3_000_000),
                random("date-to-timestamp", date_to_ts, 2_000_000),
                random("time-interval", time_interval, 2_000_000),
            ],
        },
    ]
}

fn one_day(n: i64, o: &mut Obs) -> R {
    let (y, m, d) = civil(n);
    let sy = shown_year(y);
    o.case(!(1..=28).contains(&d) || y <= 0 || y > 9999 || y % 100 == 0, n, || format!("day {n} = {sy}-{m}-{d}"));
    let r = Date::try_from_ymd(sy as i32, m as i32, d as i32);
    match r {
        Ok(v) => ensure!(dv(v) as i64 == n, "try_from_ymd({sy},{m},{d}) is day {} not {n}", dv(v)),
        Err(e) => return Err(format!("try_from_ymd({sy},{m},{d}) refused ({e}); it is day {n}").into()),
    }
    let text = ok(date(n as i32).format(DateStyle::ISO, DateOrder::YMD), || format!("format of day {n}"))?;
    let want = fmt::date(n as i32, DateStyle::ISO, DateOrder::YMD);
    ensure!(text == want, "day {n} prints as {text}, is {want}");
    Ok(())
}

fn day_low(i: u64, o: &mut Obs) -> R {
    one_day(MIN_DATE + i as i64, o)
}
fn day_any(i: u64, o: &mut Obs) -> R {
    one_day(MIN_DATE + i as i64, o)
}

fn check_triple(y: i64, m: i64, d: i64, o: &mut Obs) -> R {
    let astro = if y < 0 { y + 1 } else { y };
    let valid = y != 0 && (1..=12).contains(&m) && d >= 1 && d <= month_len(astro, m) && {
        let n = days(astro, m, d);
        n >= MIN_DATE && n < END_DATE
    };
    o.case(!valid || d > 28 || y < 0 || y > 9999 || y % 100 == 0, (y, m, d), || format!("({y}, {m}, {d}) valid={valid}"));
    o.label(if valid { "valid" } else { "invalid" });
    let r = Date::try_from_ymd(y as i32, m as i32, d as i32);
    match (r, valid) {
        (Ok(v), true) => {
            let n = days(astro, m, d);
            ensure!(dv(v) as i64 == n, "try_from_ymd({y},{m},{d}) is day {} not {n}", dv(v))
        }
        (Ok(v), false) => return Err(format!("try_from_ymd({y},{m},{d}) accepted as day {}", dv(v)).into()),
        (Err(e), true) => return Err(format!("try_from_ymd({y},{m},{d}) refused: {e}").into()),
        (Err(_), false) => {}
    }
    Ok(())
}

fn triple(s: &mut Src, o: &mut Obs) -> R {
    let y = gen::i32s(s) as i64;
    let m = if s.one_in(3) { gen::i32s(s) as i64 } else { s.range(-1, 14) };
    let d = if s.one_in(3) { gen::i32s(s) as i64 } else { s.range(-1, 33) };
    check_triple(y, m, d, o)
}

fn near_triple(s: &mut Src, o: &mut Obs) -> R {
    let y = gen::year(s, -4720, 5_874_905);
    let m = gen::month(s);
    let d = match s.below(4) {
        0 => gen::mday(s, y, m),
        1 => month_len(y, m) + s.range(-1, 2),
        2 => *s.pick(&[0i64, 1, 24, 23, 25, 28, 29, 30, 31, 32]),
        _ => s.range(1, 31),
    };
    let sy = shown_year(y);
    let m = if s.one_in(12) { *s.pick(&[0i64, 13, -1]) } else { m };
    check_triple(if s.one_in(20) { 0 } else { sy }, m, d, o)
}

fn any_date(s: &mut Src) -> i32 {
    match s.below(24) {
        23 => i32::MAX,
        22 => i32::MIN,
        _ => gen::date(s),
    }
}
fn inf(d: i32) -> bool {
    d == i32::MIN || d == i32::MAX
}

fn add_sub_days(s: &mut Src, o: &mut Obs) -> R {
    let d = any_date(s);
    let k = match s.below(4) {
        0 => gen::i32s(s),
        1 => gen::ivdays(s),
        2 => {
            // aim at the range ends
            let target = if s.bool() { MIN_DATE } else { END_DATE - 1 } + s.range(-2, 2);
            (target - d as i64).clamp(i32::MIN as i64, i32::MAX as i64) as i32
        }
        _ => s.range(-1000, 1000) as i32,
    };
    o.case(!inf(d) && k != 0, (d, k), || format!("date {d} +- {k} days"));
    for (name, r, want) in [
        ("add_days", date(d).add_days(k), d as i128 + k as i128),
        ("sub_days", date(d).sub_days(k), d as i128 - k as i128),
    ] {
        if inf(d) {
            ensure!(r == Ok(date(d)), "{name}({d}, {k}) = {r:?}, want unchanged infinity");
        } else if valid_date(want) {
            ensure!(r == Ok(date(want as i32)), "{name}({d}, {k}) = {r:?}, want {want}");
            o.label("in range");
        } else {
            ensure!(r.is_err(), "{name}({d}, {k}) = {r:?}, want an error ({want} is out of range)");
            o.label("out of range");
        }
    }
    Ok(())
}

fn sub_date(s: &mut Src, o: &mut Obs) -> R {
    let (a, b) = (any_date(s), any_date(s));
    o.case(!inf(a) && !inf(b) && a != b, (a, b), || format!("date {a} - date {b}"));
    let r = date(a).sub_date(date(b));
    if inf(a) || inf(b) {
        ensure!(r.is_err(), "{a} - {b} = {r:?}, want an error");
    } else {
        ensure!(r == Ok(a - b), "{a} - {b} = {r:?}, want {}", a - b);
        ensure!(date(b).add_days(a - b) == Ok(date(a)), "{b} + ({a} - {b}) is not {a}");
    }
    Ok(())
}

fn date_interval(s: &mut Src, o: &mut Obs) -> R {
    let d = if s.one_in(16) { any_date(s) } else if s.one_in(8) { (END_TS_DATE + s.range(-2, 2)) as i32 } else { gen::date_ts(s) };
    let (m, k, t) = if s.bool() { gen::small_interval(s) } else { gen::interval(s) };
    let span = iv(m, k, t);
    let clock = if s.one_in(8) { gen::i64s(s) } else { gen::time(s) };
    o.case(!inf(d) && (m, k, t) != (0, 0, 0), (d, m, k, t), || format!("date {d} +- ({m} mons, {k} days, {t} us), + time {clock}"));
    let base: Option<Timestamp> = if d == i32::MIN {
        Some(ts(i64::MIN))
    } else if d == i32::MAX {
        Some(ts(i64::MAX))
    } else if (d as i64) < END_TS_DATE {
        Some(ts(d as i64 * DAY))
    } else {
        None
    };
    for (name, r, want) in [
        ("add_interval", date(d).add_interval(span), base.map(|b| b.add_interval(span))),
        ("sub_interval", date(d).sub_interval(span), base.map(|b| b.sub_interval(span))),
        ("add_time", date(d).add_time(time(clock)), base.map(|b| b.add_time(time(clock)))),
    ] {
        match want {
            None => ensure!(r.is_err(), "date {d} has no timestamp, {name} gave {r:?}"),
            Some(Ok(w)) => ensure!(r == Ok(w), "{name} on date {d} gave {r:?}, on its midnight {w:?} (interval {m} {k} {t}, time {clock})"),
            Some(Err(_)) => ensure!(r.is_err(), "{name} on date {d} gave {r:?}, on its midnight an error (interval {m} {k} {t}, time {clock})"),
        }
    }
    Ok(())
}

fn ts_split(s: &mut Src, o: &mut Obs) -> R {
    let v = if s.one_in(32) { *s.pick(&[i64::MIN, i64::MAX]) } else { gen::ts(s) };
    o.case(v < 0 || v % DAY != 0 || v > END_TS - DAY, v, || format!("timestamp {v}"));
    let d = Date::try_from(ts(v));
    let t = <Option<Time>>::try_from(ts(v));
    if v == i64::MIN || v == i64::MAX {
        let want = date(if v == i64::MIN { i32::MIN } else { i32::MAX });
        ensure!(d == Ok(want), "date of timestamp {v} is {d:?}");
        ensure!(t == Ok(None), "time of infinite timestamp {v} is {t:?}");
        return Ok(());
    }
    let want_d = v.div_euclid(DAY);
    let want_t = v.rem_euclid(DAY);
    ensure!(d == Ok(date(want_d as i32)), "date of timestamp {v} is {d:?}, want {want_d}");
    ensure!(t == Ok(Some(time(want_t))), "time of timestamp {v} is {t:?}, want {want_t}");
    let back = date(want_d as i32).add_time(time(want_t));
    ensure!(back == Ok(ts(v)), "date {want_d} + time {want_t} = {back:?}, want timestamp {v}");
    Ok(())
}

fn date_to_ts(s: &mut Src, o: &mut Obs) -> R {
    let d = if s.one_in(6) { (END_TS_DATE + s.range(-3, 3)) as i32 } else { any_date(s) };
    o.case(d < 0 || d as i64 >= END_TS_DATE - 1, d, || format!("date {d}"));
    let r = Timestamp::try_from(date(d));
    if inf(d) {
        let w = ts(if d == i32::MIN { i64::MIN } else { i64::MAX });
        ensure!(r == Ok(w), "timestamp of infinite date {d} is {r:?}");
    } else if (d as i64) < END_TS_DATE {
        ensure!(r == Ok(ts(d as i64 * DAY)), "timestamp of date {d} is {r:?}");
        let back = Date::try_from(ts(d as i64 * DAY));
        ensure!(back == Ok(date(d)), "date of midnight of {d} is {back:?}");
    } else {
        ensure!(r.is_err(), "date {d} lies past the timestamp range but converts to {r:?}");
    }
    ensure!(i32::from(Date::from(d)) == d, "Date::from({d}) does not give {d} back");
    Ok(())
}

fn time_interval(s: &mut Src, o: &mut Obs) -> R {
    let t = gen::time(s);
    o.case(t != 0, t, || format!("time {t}"));
    let i = Interval::from(time(t));
    ensure!(fields(i) == (0, 0, t), "interval of time {t} is {i:?}");
    let back = Time::from(i);
    ensure!(tv(back).rem_euclid(DAY) == t % DAY && tv(back) >= 0 && tv(back) <= DAY, "time {t} -> interval -> time gives {back:?}");
    if t < DAY {
        ensure!(tv(back) == t, "time {t} -> interval -> time gives {back:?}");
    }
    ensure!(i64::from(Time::from(t)) == t, "Time::from({t})");
    let x = gen::ts(s);
    ensure!(i64::from(Timestamp::from(x)) == x, "Timestamp::from({x})");
    Ok(())
}
