//! C02-C07: round trips and exact output text.

use crate::engine::*;
use crate::gen;
use crate::model::{cal::*, fmt, ivtext};
use crate::val::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C02",
            rule: "A case is a valid date (or infinity) printed in all 5 styles x 3 orders and read back in every matching order. Non-trivial: the year is BC, not of 4 digits, or below 100, the day is at most 12 (so day and month can be confused), or the date is infinite.",
            assumptions: &["The matching order is the one the style prints in: MDY for traditional Postgres and SQL text unless DMY, DMY for German text, any for ISO."],
            subs: vec![random("dates", rt_date, 800_000), enumerate("every-day", rt_day, (END_DATE - MIN_DATE) as u64, 3001)],
        },
        Prop {
            id: "C03",
            rule: "A case is a valid timestamp (or infinity) printed in all 5 styles x 3 orders and read back in every matching order. Non-trivial: it has a fraction, a BC or not 4-digit year, or is infinite.",
            assumptions: &["As for C02; traditional Postgres timestamps under YMD are read back in both MDY and YMD."],
            subs: vec![random("timestamps", rt_ts, 1_000_000), enumerate("every-day", rt_ts_day, (days(10000, 1, 1) - MIN_DATE) as u64, 29)],
        },
        Prop {
            id: "C04",
            rule: "A case is a time of day printed in all 5 styles and read back in all 3 orders. Non-trivial: it has a fraction of a second, or is 24:00:00.",
            assumptions: &[],
            subs: vec![random("times", rt_time, 1_500_000), enumerate("every-second", rt_sec, 86_401, 1), enumerate("every-microsecond-of-a-second", rt_us, 1_000_000, 1)],
        },
        Prop {
            id: "C05",
            rule: "A case is an interval whose hours fit 32 bits, printed in the 4 styles and read back in the same style (and ISO 8601 text in every style). Non-trivial: at least two non-zero fields, or a negative one.",
            assumptions: &["Fields equal to i32::MIN are excluded from the round trip: no notation reads 2147483648 of a unit."],
            subs: vec![random("intervals", rt_iv, 1_500_000), enumerate("small-field-grid", rt_grid, GRID, 1)],
        },
        Prop {
            id: "C06",
            rule: "A case is a date, timestamp or time printed in every style and order and compared with the reference text. Non-trivial: BC or not 4-digit year, a fraction, or an infinity.",
            assumptions: &["The reference text follows PostgreSQL's output styles; date-only traditional Postgres text is mm.dd.yyyy as this library's tests fix it, and dd-mm-yyyy under DMY."],
            subs: vec![
                random("dates", txt_date, 1_000_000),
                random("timestamps", txt_ts, 1_500_000),
                random("times", txt_time, 1_500_000),
                enumerate("every-day", txt_day, (days(10000, 1, 1) - MIN_DATE) as u64, 11),
            ],
        },
        Prop {
            id: "C07",
            rule: "A case is an interval printed in the 4 styles and compared with the reference text, or, when its hours do not fit 32 bits, expected to be refused. Non-trivial: at least two non-zero fields, a negative one, or a refusal.",
            assumptions: &["The reference text (harness/src/model/ivtext.rs) is written from PostgreSQL's rules, including plural forms decided by the printed number."],
            subs: vec![random("intervals", txt_iv, 2_500_000), enumerate("small-field-grid", txt_grid, GRID, 1)],
        },
    ]
}

fn any_date(s: &mut Src) -> i32 {
    match s.below(40) {
        39 => i32::MAX,
        38 => i32::MIN,
        _ => gen::date(s),
    }
}
fn any_ts(s: &mut Src) -> i64 {
    match s.below(40) {
        39 => i64::MAX,
        38 => i64::MIN,
        _ => gen::ts(s),
    }
}

fn odd_year(y: i64) -> bool {
    y <= 0 || y < 1000 || y > 9999
}

fn odd_date(d: i32) -> bool {
    d == i32::MIN || d == i32::MAX || {
        let (y, _, dd) = civil(d as i64);
        odd_year(y) || dd <= 12
    }
}
fn odd_ts(v: i64) -> bool {
    v == i64::MIN || v == i64::MAX || odd_year(split(v).y) || v % USEC != 0
}

fn check_rt_date(d: i32) -> R {
    for st in STYLES {
        for or in ORDERS {
            let text = ok(date(d).format(st, or), || format!("format of date {d} as {st:?} {or:?}"))?;
            for &ro in fmt::read_orders(st, or, false) {
                let r = Date::try_from_str(&text, ro);
                ensure!(r == Ok(date(d)), "date {d} prints as {text:?} ({st:?}, {or:?}); read back under {ro:?}: {r:?}");
            }
        }
    }
    Ok(())
}

fn rt_date(s: &mut Src, o: &mut Obs) -> R {
    let d = any_date(s);
    o.case(odd_date(d), d, || format!("date {d} = {}", fmt::date(d, DateStyle::ISO, DateOrder::YMD)));
    check_rt_date(d)
}
fn rt_day(i: u64, o: &mut Obs) -> R {
    let d = (MIN_DATE + i as i64) as i32;
    o.case(odd_date(d), d, || format!("date {d} = {}", fmt::date(d, DateStyle::ISO, DateOrder::YMD)));
    // one style/order pair per day keeps the full sweep affordable
    let st = STYLES[(i % 5) as usize];
    let or = ORDERS[(i / 5 % 3) as usize];
    let text = ok(date(d).format(st, or), || format!("format of date {d}"))?;
    let ros = fmt::read_orders(st, or, false);
    let ro = ros[(i / 15) as usize % ros.len()];
    let r = Date::try_from_str(&text, ro);
    ensure!(r == Ok(date(d)), "date {d} prints as {text:?} ({st:?}, {or:?}); read back under {ro:?}: {r:?}");
    Ok(())
}

fn check_rt_ts(v: i64) -> R {
    for st in STYLES {
        for or in ORDERS {
            let text = ok(ts(v).format(st, or), || format!("format of timestamp {v} as {st:?} {or:?}"))?;
            for &ro in fmt::read_orders(st, or, true) {
                let r = Timestamp::try_from_str(&text, -1, ro);
                ensure!(r == Ok(ts(v)), "timestamp {v} prints as {text:?} ({st:?}, {or:?}); read back under {ro:?}: {r:?}");
            }
        }
    }
    Ok(())
}
fn rt_ts(s: &mut Src, o: &mut Obs) -> R {
    let v = any_ts(s);
    o.case(odd_ts(v), v, || format!("timestamp {v} = {}", fmt::timestamp(v, DateStyle::ISO, DateOrder::YMD)));
    check_rt_ts(v)
}
fn rt_ts_day(i: u64, o: &mut Obs) -> R {
    let v = (MIN_DATE + i as i64) * DAY + (i as i64 * 7_919_111_123) % DAY;
    o.case(odd_ts(v), v, || format!("timestamp {v}"));
    check_rt_ts(v)
}

fn check_rt_time(t: i64) -> R {
    for st in STYLES {
        let text = ok(time(t).format(st), || format!("format of time {t}"))?;
        for or in ORDERS {
            for tm in [-1, 6] {
                let r = Time::try_from_str(&text, tm, or);
                ensure!(r == Ok(time(t)), "time {t} prints as {text:?} ({st:?}); read back under {or:?}: {r:?}");
            }
        }
    }
    Ok(())
}
fn rt_time(s: &mut Src, o: &mut Obs) -> R {
    let t = gen::time(s);
    o.case(t % USEC != 0 || t == DAY, t, || format!("time {t} = {}", fmt::time(t)));
    check_rt_time(t)
}
fn rt_sec(i: u64, o: &mut Obs) -> R {
    let t = i as i64 * USEC;
    o.case(t == DAY, t, || format!("time {t} = {}", fmt::time(t)));
    check_rt_time(t)
}
fn rt_us(i: u64, o: &mut Obs) -> R {
    let t = 45_296 * USEC + i as i64;
    o.case(i != 0, t, || format!("time {t} = {}", fmt::time(t)));
    check_rt_time(t)
}

fn iv_busy(f: (i32, i32, i64)) -> bool {
    let p = ivtext::parts(f.0, f.1, f.2);
    let all = [p.year, p.mon, p.day, p.hour, p.min, p.sec, p.us];
    all.iter().filter(|v| **v != 0).count() > 1 || all.iter().any(|v| *v < 0)
}

fn displayable_iv(s: &mut Src) -> (i32, i32, i64) {
    let f = if s.bool() { gen::small_interval(s) } else { gen::interval(s) };
    let lim = (i32::MAX as i64) * HOUR + HOUR - 1;
    let t = if ivtext::displayable(f.2) { f.2 } else { f.2.clamp(-lim, lim) };
    (f.0, f.1, t)
}

fn check_rt_iv(f: (i32, i32, i64)) -> R {
    let x = iv(f.0, f.1, f.2);
    for st in ISTYLES {
        let text = ok(x.format(st), || format!("format of interval {f:?} as {st:?}"))?;
        let r = Interval::try_from_str(&text, -1, st).map(fields);
        ensure!(r == Ok(f), "interval {f:?} prints as {text:?} ({st:?}) and reads back as {r:?}");
        if st == IntervalStyle::ISO8601 {
            for st2 in ISTYLES {
                let r = Interval::try_from_str(&text, -1, st2).map(fields);
                ensure!(r == Ok(f), "ISO 8601 text {text:?} of interval {f:?} reads as {r:?} under {st2:?}");
            }
        }
    }
    Ok(())
}
fn rt_iv(s: &mut Src, o: &mut Obs) -> R {
    let mut f = displayable_iv(s);
    f.1 = f.1.max(-i32::MAX);
    if f.2 / HOUR == i32::MIN as i64 {
        f.2 = -(i32::MAX as i64) * HOUR;
    }
    o.case(iv_busy(f), f, || format!("interval {f:?}"));
    check_rt_iv(f)
}

const SM: [i32; 9] = [0, 1, -1, 12, -12, 13, -13, 11, -25];
const SD: [i32; 7] = [0, 1, -1, 2, -2, 30, -31];
const SH: [i64; 5] = [0, 1, -1, 25, -100];
const SMI: [i64; 5] = [0, 1, -1, 59, -59];
const SS: [i64; 5] = [0, 1, -1, 10, -59];
const SU: [i64; 7] = [0, 1, -1, 500_000, -500_000, 999_999, -10];
const GRID: u64 = (9 * 7 * 5 * 5 * 5 * 7) as u64;

/// Every sign combination of small field values (fields of the clock may carry each other).
fn grid(i: u64) -> (i32, i32, i64) {
    let mut i = i as usize;
    let mut next = |n: usize| {
        let k = i % n;
        i /= n;
        k
    };
    let m = SM[next(9)];
    let d = SD[next(7)];
    let t = SH[next(5)] * HOUR + SMI[next(5)] * MIN + SS[next(5)] * USEC + SU[next(7)];
    (m, d, t)
}
fn rt_grid(i: u64, o: &mut Obs) -> R {
    let f = grid(i);
    o.case(iv_busy(f), f, || format!("interval {f:?}"));
    check_rt_iv(f)
}

fn check_txt_date(d: i32) -> R {
    for st in STYLES {
        for or in ORDERS {
            let got = ok(date(d).format(st, or), || format!("format of date {d} as {st:?} {or:?}"))?;
            let want = fmt::date(d, st, or);
            ensure!(got == want, "date {d} as {st:?} {or:?} prints {got:?}, want {want:?}");
        }
    }
    Ok(())
}
fn check_txt_ts(v: i64) -> R {
    for st in STYLES {
        for or in ORDERS {
            let got = ok(ts(v).format(st, or), || format!("format of timestamp {v} as {st:?} {or:?}"))?;
            let want = fmt::timestamp(v, st, or);
            ensure!(got == want, "timestamp {v} as {st:?} {or:?} prints {got:?}, want {want:?}");
        }
    }
    Ok(())
}
fn txt_date(s: &mut Src, o: &mut Obs) -> R {
    let d = any_date(s);
    o.case(odd_date(d), d, || format!("date {d} = {}", fmt::date(d, DateStyle::SQL, DateOrder::DMY)));
    check_txt_date(d)
}
fn txt_ts(s: &mut Src, o: &mut Obs) -> R {
    let v = any_ts(s);
    o.case(odd_ts(v), v, || format!("timestamp {v} = {}", fmt::timestamp(v, DateStyle::Postgres, DateOrder::MDY)));
    check_txt_ts(v)
}
fn txt_day(i: u64, o: &mut Obs) -> R {
    let n = MIN_DATE + i as i64;
    o.case(odd_date(n as i32), n, || format!("day {n}"));
    check_txt_date(n as i32)?;
    check_txt_ts(n * DAY + (i as i64 * 7_919_111_123) % DAY)
}
fn txt_time(s: &mut Src, o: &mut Obs) -> R {
    let t = gen::time(s);
    o.case(t % USEC != 0 || t == DAY, t, || format!("time {t} = {}", fmt::time(t)));
    for st in STYLES {
        let got = ok(time(t).format(st), || format!("format of time {t}"))?;
        ensure!(got == fmt::time(t), "time {t} as {st:?} prints {got:?}, want {:?}", fmt::time(t));
    }
    Ok(())
}
fn check_txt_iv(f: (i32, i32, i64)) -> R {
    for st in ISTYLES {
        let got = iv(f.0, f.1, f.2).format(st);
        match ivtext::format(f.0, f.1, f.2, st) {
            Some(w) => match got {
                Ok(g) => ensure!(g == w, "interval {f:?} as {st:?} prints {g:?}, want {w:?}"),
                Err(e) => return Err(format!("interval {f:?} as {st:?} refused ({e}), want {w:?}").into()),
            },
            None => ensure!(got.is_err(), "interval {f:?} as {st:?} prints {got:?}, but its hours do not fit"),
        }
    }
    Ok(())
}
fn txt_iv(s: &mut Src, o: &mut Obs) -> R {
    let f = if s.bool() { gen::small_interval(s) } else { gen::interval(s) };
    o.case(iv_busy(f), f, || format!("interval {f:?}"));
    check_txt_iv(f)
}
fn txt_grid(i: u64, o: &mut Obs) -> R {
    let f = grid(i);
    o.case(iv_busy(f), f, || format!("interval {f:?}"));
    check_txt_iv(f)
}
