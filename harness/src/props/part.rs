//! C26, C27 extraction; C28, C29 truncation.

use crate::engine::*;
use crate::gen;
use crate::model::{cal::*, fmt, ivtext};
use crate::val::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C26",
            rule: "A case is a timestamp or date, asked for all 23 units under both field types. Non-trivial: the year is BC or ends a century, the ISO year differs from the calendar year, the day is a month's last, or the value is infinite.",
            assumptions: &["The ISO year is numbered astronomically (0 is 1 BC), as ISO 8601 defines; years, centuries and millennia have no zero."],
            subs: vec![
                random("timestamps", parts_ts, 1_500_000),
                enumerate("midnights-4714BC-9999", parts_every_day, (days(10000, 1, 1) - MIN_DATE) as u64, 4),
                random("dates", parts_date, 700_000),
            ],
        },
        Prop {
            id: "C27",
            rule: "A case is a time or interval, asked for all 23 units under both field types. Non-trivial: it has a fraction, a negative field, or hours beyond 32 bits.",
            assumptions: &["The quarter of an interval is counted from the months beyond whole years, as PostgreSQL does: months / 3 + 1."],
            subs: vec![random("times", parts_time, 500_000), random("intervals", parts_iv, 2_000_000)],
        },
        Prop {
            id: "C28",
            rule: "A case is a timestamp or date, truncated to all 23 units under both field types. Non-trivial: as for C26.",
            assumptions: &["Truncating an infinite value to an unsupported unit may be an error or leave it unchanged."],
            subs: vec![
                random("timestamps", trunc_ts, 1_000_000),
                enumerate("days-4714BC-9999", trunc_every_day, (days(10000, 1, 1) - MIN_DATE) as u64, 8),
                random("dates", trunc_date, 700_000),
            ],
        },
        Prop {
            id: "C29",
            rule: "A case is a time or interval, truncated to all 23 units under both field types. Non-trivial: it has a non-zero field finer than an hour, a negative field, or hours beyond 32 bits.",
            assumptions: &["Date units (day and coarser) clear a whole time of day; weeks are unsupported, as for intervals."],
            subs: vec![random("times", trunc_time, 500_000), random("intervals", trunc_iv, 2_000_000)],
        },
    ]
}

#[derive(Debug, Clone, Copy)]
enum Part {
    Exact(f64),
    /// value, tolerance
    About(f64, f64),
    Error,
}

fn check_part(got: Result<f64, DateTimeError>, want: Part, what: impl Fn() -> String) -> R {
    match (got, want) {
        (Err(_), Part::Error) => Ok(()),
        (Ok(v), Part::Error) => Err(format!("{} = {v}, want an error", what()).into()),
        (Err(e), w) => Err(format!("{} refused ({e}), want {w:?}", what()).into()),
        (Ok(v), Part::Exact(w)) => {
            ensure!(v == w, "{} = {v}, want {w}", what());
            Ok(())
        }
        (Ok(v), Part::About(w, tol)) => {
            ensure!((v - w).abs() <= tol, "{} = {v}, want {w}", what());
            Ok(())
        }
    }
}

fn seconds(s: i64, us: i64) -> [Part; 3] {
    let x = s as f64;
    let u = us as f64;
    [
        Part::Exact((s * USEC + us) as f64),
        Part::About(x * 1e3 + u / 1e3, 1e-9),
        Part::About(x + u / 1e6, 1e-12),
    ]
}

fn ts_part(v: i64, ty: FieldType, u: DateUnit) -> Part {
    use DateUnit::*;
    if v == i64::MIN || v == i64::MAX {
        return match u {
            Year | Decade | Century | Millennium | JULIAN | IsoYear | Epoch => Part::Exact(if v < 0 { f64::NEG_INFINITY } else { f64::INFINITY }),
            Delta => Part::Error,
            _ => Part::Exact(0.0),
        };
    }
    if ty == FieldType::Epoch {
        return Part::Error;
    }
    let c = split(v);
    let sec = seconds(c.s, c.us);
    let up = |n: i64| {
        // years 1..n are the first unit; no zeroth
        if c.y > 0 { (c.y - 1).div_euclid(n) + 1 } else { -((-c.y).div_euclid(n) + 1) }
    };
    let e = |x: i64| Part::Exact(x as f64);
    match u {
        MicroSec => sec[0],
        MilliSec => sec[1],
        Second => sec[2],
        Minute => e(c.mi),
        Hour => e(c.h),
        Day => e(c.d),
        Week => e(iso_week(c.day).1),
        Month => e(c.m),
        Quarter => e((c.m + 2) / 3),
        Year => e(shown_year(c.y)),
        Decade => e(c.y.div_euclid(10)),
        Century => e(up(100)),
        Millennium => e(up(1000)),
        IsoYear => e(iso_week(c.day).0),
        Dow => e(dow(c.day)),
        IsoDow => e(isodow(c.day)),
        Doy => e(doy(c.day)),
        JULIAN => {
            let w = (c.day - MIN_DATE) as f64 + v.rem_euclid(DAY) as f64 / DAY as f64;
            Part::About(w, w.abs() * 1e-15 + 1e-9)
        }
        Epoch | Delta | Tz | TzMinute | TzHour => Part::Error,
    }
}

fn show(v: i64) -> String {
    format!("timestamp {v} ({})", fmt::timestamp(v, DateStyle::ISO, DateOrder::YMD))
}

fn special(v: i64) -> bool {
    if v == i64::MIN || v == i64::MAX {
        return true;
    }
    let c = split(v);
    c.y <= 0 || c.y % 100 == 0 || iso_week(c.day).0 != c.y || c.d == month_len(c.y, c.m)
}

fn check_ts_parts(v: i64) -> R {
    for u in UNITS {
        for ty in [FieldType::Unit, FieldType::Epoch] {
            check_part(ts(v).date_part(ty, u), ts_part(v, ty, u), || format!("{u:?} ({ty:?}) of {}", show(v)))?;
        }
    }
    let fin = v != i64::MIN && v != i64::MAX;
    ensure!(ts(v).is_finite() == fin && ts(v).is_infinite() != fin, "is_finite of {}", show(v));
    Ok(())
}

fn parts_ts(s: &mut Src, o: &mut Obs) -> R {
    let v = if s.one_in(64) { *s.pick(&[i64::MIN, i64::MAX]) } else { gen::ts(s) };
    o.case(special(v), v, || show(v));
    check_ts_parts(v)
}

fn parts_every_day(i: u64, o: &mut Obs) -> R {
    let v = (MIN_DATE + i as i64) * DAY;
    o.case(special(v), v, || show(v));
    for u in UNITS {
        check_part(ts(v).date_part(FieldType::Unit, u), ts_part(v, FieldType::Unit, u), || format!("{u:?} of {}", show(v)))?;
    }
    Ok(())
}

fn parts_date(s: &mut Src, o: &mut Obs) -> R {
    let d = match s.below(24) {
        0 => i32::MIN,
        1 => i32::MAX,
        2 => gen::date(s),
        3 => (END_TS_DATE + s.range(-2, 2)) as i32,
        _ => gen::date_ts(s),
    };
    let past = d != i32::MAX && d as i64 >= END_TS_DATE;
    let v = match d {
        i32::MIN => i64::MIN,
        i32::MAX => i64::MAX,
        _ if past => 0,
        _ => d as i64 * DAY,
    };
    o.case(past || special(v), d, || format!("date {d}"));
    for u in UNITS {
        for ty in [FieldType::Unit, FieldType::Epoch] {
            let w = if past { Part::Error } else { ts_part(v, ty, u) };
            check_part(date(d).date_part(ty, u), w, || format!("{u:?} ({ty:?}) of date {d}"))?;
        }
    }
    let fin = d != i32::MIN && d != i32::MAX;
    ensure!(date(d).is_finite() == fin && date(d).is_infinite() != fin, "is_finite of date {d}");
    Ok(())
}

fn parts_time(s: &mut Src, o: &mut Obs) -> R {
    let t = gen::time(s);
    let (h, m, sec, us) = hms(t);
    o.case(us != 0, t, || format!("time {t}"));
    let sp = seconds(sec, us);
    for u in UNITS {
        use DateUnit::*;
        let w = match u {
            MicroSec => sp[0],
            MilliSec => sp[1],
            Second => sp[2],
            Minute => Part::Exact(m as f64),
            Hour => Part::Exact(h as f64),
            _ => Part::Error,
        };
        check_part(time(t).date_part(FieldType::Unit, u), w, || format!("{u:?} of time {t}"))?;
        let w = if u == Epoch { Part::About(t as f64 / 1e6, 1e-10) } else { Part::Error };
        check_part(time(t).date_part(FieldType::Epoch, u), w, || format!("{u:?} (epoch) of time {t}"))?;
    }
    ensure!(time(t).is_finite() && !time(t).is_infinite(), "time {t} is not finite");
    Ok(())
}

fn parts_iv(s: &mut Src, o: &mut Obs) -> R {
    let f = if s.bool() { gen::small_interval(s) } else { gen::interval(s) };
    let (m, d, t) = f;
    let x = iv(m, d, t);
    let shown = ivtext::displayable(t);
    let p = ivtext::parts(m, d, t);
    o.case(t % USEC != 0 || m < 0 || d < 0 || t < 0 || !shown, f, || format!("interval {f:?}"));
    let sp = seconds(p.sec, p.us);
    for u in UNITS {
        use DateUnit::*;
        let e = |x: i64| Part::Exact(x as f64);
        let mut w = match u {
            MicroSec => sp[0],
            MilliSec => sp[1],
            Second => sp[2],
            Minute => e(p.min),
            Hour => e(p.hour),
            Day => e(p.day),
            Month => e(p.mon),
            Quarter => e(p.mon / 3 + 1),
            Year => e(p.year),
            Decade => e(p.year / 10),
            Century => e(p.year / 100),
            Millennium => e(p.year / 1000),
            _ => Part::Error,
        };
        if !shown {
            w = Part::Error;
        }
        check_part(x.date_part(FieldType::Unit, u), w, || format!("{u:?} of interval {f:?}"))?;
        let w = if u == Epoch {
            let (a, b, c, e) = (p.year as f64 * 365.25 * 86400.0, p.mon as f64 * 30.0 * 86400.0, d as f64 * 86400.0, t as f64 / 1e6);
            let mag = a.abs() + b.abs() + c.abs() + e.abs();
            Part::About(a + b + c + e, mag * 1e-15 + 1e-9)
        } else {
            Part::Error
        };
        check_part(x.date_part(FieldType::Epoch, u), w, || format!("{u:?} (epoch) of interval {f:?}"))?;
    }
    ensure!(x.is_finite() && !x.is_infinite(), "interval {f:?} is not finite");
    Ok(())
}

// ---------------------------------------------------------------- truncation

/// None: unsupported unit. Some(start) may lie before the supported range.
fn unit_start(v: i64, u: DateUnit) -> Option<i128> {
    use DateUnit::*;
    let c = split(v);
    let at = |y: i64, m: i64| days(y, m, 1) as i128 * DAY as i128;
    let down = |unit: i64| (v - v.rem_euclid(DAY) % unit) as i128;
    Some(match u {
        MicroSec => v as i128,
        MilliSec => down(1000),
        Second => down(USEC),
        Minute => down(MIN),
        Hour => down(HOUR),
        Day => c.day as i128 * DAY as i128,
        Week => (c.day - isodow(c.day) + 1) as i128 * DAY as i128,
        Month => at(c.y, c.m),
        Quarter => at(c.y, (c.m - 1) / 3 * 3 + 1),
        Year => at(c.y, 1),
        Decade => at(c.y.div_euclid(10) * 10, 1),
        Century => at((c.y - 1).div_euclid(100) * 100 + 1, 1),
        Millennium => at((c.y - 1).div_euclid(1000) * 1000 + 1, 1),
        _ => return None,
    })
}

fn check_trunc(v: i64, both: bool) -> R {
    let infinite = v == i64::MIN || v == i64::MAX;
    for u in UNITS {
        let r = ts(v).truncate(FieldType::Unit, u);
        if infinite {
            let supported = unit_start(0, u).is_some();
            ensure!(r == Ok(ts(v)) || (r.is_err() && !supported), "{} truncated to {u:?} = {r:?}, want unchanged", show(v));
            continue;
        }
        match unit_start(v, u) {
            Some(w) if valid_ts(w) => {
                ensure!(r == Ok(ts(w as i64)), "{} truncated to {u:?} = {r:?}, want {}", show(v), show(w as i64));
                if both {
                    let again = ts(w as i64).truncate(FieldType::Unit, u);
                    ensure!(again == Ok(ts(w as i64)), "truncating {} to {u:?} again gives {again:?}", show(w as i64));
                }
            }
            Some(w) => ensure!(r.is_err(), "{} truncated to {u:?} = {r:?}, but the unit starts out of range ({w})", show(v)),
            None => ensure!(r.is_err(), "{} truncated to {u:?} = {r:?}, want an error", show(v)),
        }
        if both {
            let r = ts(v).truncate(FieldType::Epoch, u);
            ensure!(r.is_err(), "{} truncated to {u:?} under FieldType::Epoch = {r:?}, want an error", show(v));
        }
    }
    Ok(())
}

fn trunc_ts(s: &mut Src, o: &mut Obs) -> R {
    let v = if s.one_in(64) { *s.pick(&[i64::MIN, i64::MAX]) } else { gen::ts(s) };
    o.case(special(v), v, || show(v));
    check_trunc(v, true)
}

fn trunc_every_day(i: u64, o: &mut Obs) -> R {
    let v = (MIN_DATE + i as i64) * DAY + (i as i64 * 7_919_000_123) % DAY;
    o.case(special(v), v, || show(v));
    check_trunc(v, false)
}

fn trunc_date(s: &mut Src, o: &mut Obs) -> R {
    let d = match s.below(24) {
        0 => i32::MIN,
        1 => i32::MAX,
        2 => gen::date(s),
        3 => (END_TS_DATE + s.range(-2, 2)) as i32,
        _ => gen::date_ts(s),
    };
    let infinite = d == i32::MIN || d == i32::MAX;
    let past = !infinite && d as i64 >= END_TS_DATE;
    o.case(past || infinite || special(d as i64 * DAY), d, || format!("date {d}"));
    for u in UNITS {
        let r = date(d).truncate(FieldType::Unit, u);
        if infinite {
            ensure!(r == Ok(date(d)) || (r.is_err() && unit_start(0, u).is_none()), "date {d} truncated to {u:?} = {r:?}");
            continue;
        }
        let w = if past { None } else { unit_start(d as i64 * DAY, u).filter(|w| valid_ts(*w)) };
        match w {
            Some(w) => {
                let w = (w / DAY as i128) as i32;
                ensure!(r == Ok(date(w)), "date {d} truncated to {u:?} = {r:?}, want {w}");
            }
            None => ensure!(r.is_err(), "date {d} truncated to {u:?} = {r:?}, want an error"),
        }
        if !infinite {
            let r = date(d).truncate(FieldType::Epoch, u);
            ensure!(r.is_err(), "date {d} truncated to {u:?} under FieldType::Epoch = {r:?}");
        }
    }
    Ok(())
}

fn clock_unit(u: DateUnit) -> Option<i64> {
    Some(match u {
        DateUnit::MicroSec => 1,
        DateUnit::MilliSec => 1000,
        DateUnit::Second => USEC,
        DateUnit::Minute => MIN,
        DateUnit::Hour => HOUR,
        _ => return None,
    })
}

fn iv_trunc(f: (i32, i32, i64), u: DateUnit) -> Option<(i32, i32, i64)> {
    use DateUnit::*;
    let (m, d, t) = f;
    if let Some(c) = clock_unit(u) {
        return Some((m, d, t - t % c));
    }
    let k = match u {
        Day => return Some((m, d, 0)),
        Month => 1,
        Quarter => 3,
        Year => 12,
        Decade => 120,
        Century => 1200,
        Millennium => 12000,
        _ => return None,
    };
    Some((m - m % k, 0, 0))
}

fn trunc_time(s: &mut Src, o: &mut Obs) -> R {
    let t = gen::time(s);
    o.case(t % HOUR != 0 || t == DAY, t, || format!("time {t}"));
    for u in UNITS {
        let r = time(t).truncate(FieldType::Unit, u);
        match iv_trunc((0, 0, t), u) {
            Some((_, _, w)) => {
                ensure!(r == Ok(time(w)), "time {t} truncated to {u:?} = {r:?}, want {w}");
                let again = time(w).truncate(FieldType::Unit, u);
                ensure!(again == Ok(time(w)), "time {w} truncated to {u:?} again = {again:?}");
            }
            None => ensure!(r.is_err(), "time {t} truncated to {u:?} = {r:?}, want an error"),
        }
        let r = time(t).truncate(FieldType::Epoch, u);
        ensure!(r.is_err(), "time {t} truncated to {u:?} under FieldType::Epoch = {r:?}");
    }
    Ok(())
}

fn trunc_iv(s: &mut Src, o: &mut Obs) -> R {
    let f = if s.bool() { gen::small_interval(s) } else { gen::interval(s) };
    let x = iv(f.0, f.1, f.2);
    let shown = ivtext::displayable(f.2);
    o.case(f.2 % HOUR != 0 || f.0 < 0 || f.1 < 0 || !shown, f, || format!("interval {f:?}"));
    for u in UNITS {
        let r = x.truncate(FieldType::Unit, u).map(fields);
        match iv_trunc(f, u) {
            Some(w) if shown => {
                ensure!(r == Ok(w), "interval {f:?} truncated to {u:?} = {r:?}, want {w:?}");
                let again = iv(w.0, w.1, w.2).truncate(FieldType::Unit, u).map(fields);
                ensure!(again == Ok(w), "interval {w:?} truncated to {u:?} again = {again:?}");
            }
            // a clock too long to break down may be refused, but never wrong
            Some(w) => ensure!(r.is_err() || r == Ok(w), "interval {f:?} truncated to {u:?} = {r:?}, want {w:?} or an error"),
            None => ensure!(r.is_err(), "interval {f:?} truncated to {u:?} = {r:?}, want an error"),
        }
        let r = x.truncate(FieldType::Epoch, u);
        ensure!(r.is_err(), "interval {f:?} truncated to {u:?} under FieldType::Epoch = {r:?}");
    }
    Ok(())
}
