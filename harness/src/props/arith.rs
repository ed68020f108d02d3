//! C17, C19, C20, C21, C22, C23, C24: arithmetic.

use crate::engine::*;
use crate::gen;
use crate::model::cal::*;
use crate::val::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C17",
            rule: "A case is a timestamp (finite or infinite) with an interval and a time of day. Non-trivial: the timestamp is finite and the interval has a non-zero month or day part (which needs the calendar), or the result is out of range.",
            assumptions: &["Operands are valid timestamps."],
            subs: vec![
                random("small-intervals", ts_small, 3_000_000),
                random("any-intervals", ts_any, 3_000_000),
                random("range-ends", ts_ends, 1_500_000),
                random("times", ts_time, 1_500_000),
            ],
        },
        Prop {
            id: "C19",
            rule: "A case is a pair of timestamps, or a timestamp and a date. Non-trivial: both finite and more than a day apart, or the difference exceeds 64 bits.",
            assumptions: &["Operands are valid timestamps and dates."],
            subs: vec![random("timestamps", diff_ts, 4_000_000), random("timestamp-date", diff_date, 2_000_000)],
        },
        Prop {
            id: "C20",
            rule: "A case is a pair of finite timestamps: independent, or the second derived from the first by changing some fields. Non-trivial: computing the age borrows across fields, or either is BC.",
            assumptions: &["Operands are valid finite timestamps."],
            subs: vec![random("independent", age_any, 3_000_000), random("near", age_near, 4_000_000)],
        },
        Prop {
            id: "C21",
            rule: "A case is a time of day 00:00:00..24:00:00 with an interval or another time. Non-trivial: the plain sum or difference leaves the range 00:00..24:00.",
            assumptions: &["Operands are valid times of day."],
            subs: vec![random("time-arithmetic", time_arith, 4_000_000)],
        },
        Prop {
            id: "C22",
            rule: "A case is a pair (or triple) of intervals. Non-trivial: some field of both is non-zero, or some field overflows.",
            assumptions: &[],
            subs: vec![random("pairs", iv_pairs, 3_000_000), random("near-overflow", iv_overflow, 3_000_000), random("laws", iv_laws, 2_000_000)],
        },
        Prop {
            id: "C23",
            rule: "A case is an interval. Non-trivial: it has mixed signs or a field past its customary bound, so that justifying changes it.",
            assumptions: &["Intervals whose justified months or days do not fit 32 bits are skipped (the functions cannot report an error)."],
            subs: vec![random("justify", justify, 4_000_000)],
        },
        Prop {
            id: "C24",
            rule: "A case is an interval and a 64-bit float factor. Non-trivial: the factor is not integral, or some result field does not fit.",
            assumptions: &[
                "The reference is PostgreSQL's interval_mul / interval_div definition in IEEE double arithmetic; an independent total-length law with a rounding tolerance is checked next to it.",
                "A month, day or microsecond result within one unit of its type's limit may be an error or the exact value.",
            ],
            subs: vec![
                random("everyday", scale_small, 3_000_000),
                random("any", scale_any, 3_000_000),
                random("whole", scale_whole, 2_000_000),
                random("limits", scale_limits, 1_000_000),
            ],
        },
    ]
}

// ---------------------------------------------------------------- C17

/// None: error.
pub fn ts_plus(v: i64, m: i64, d: i64, t: i128) -> Option<i64> {
    let mut cur = v as i128;
    if m != 0 {
        let c = split(v);
        let (y, mm) = add_months(c.y, c.m, m);
        let d = c.d.min(month_len(y, mm));
        cur = days(y, mm, d) as i128 * DAY as i128 + v.rem_euclid(DAY) as i128;
        if !valid_ts(cur) {
            return None;
        }
    }
    if d != 0 {
        cur += d as i128 * DAY as i128;
        if !valid_ts(cur) {
            return None;
        }
    }
    cur += t;
    if valid_ts(cur) { Some(cur as i64) } else { None }
}

fn show(v: i64) -> String {
    if v == i64::MIN || v == i64::MAX { format!("infinite {v}") } else { format!("{v} ({})", crate::model::fmt::timestamp(v, DateStyle::ISO, DateOrder::YMD)) }
}

fn check_ts_iv(v: i64, f: (i32, i32, i64), o: &mut Obs) -> R {
    let (m, d, t) = f;
    let infinite = v == i64::MIN || v == i64::MAX;
    let add = ts_plus_checked(v, m as i64, d as i64, t as i128);
    let sub = ts_plus_checked(v, -(m as i64), -(d as i64), -(t as i128));
    o.case(!infinite && (m != 0 || d != 0 || add.is_none()), (v, f), || format!("{} +- {f:?}", show(v)));
    let span = iv(m, d, t);
    let r = ts(v).add_interval(span);
    let q = ts(v).sub_interval(span);
    if infinite {
        ensure!(r == Ok(ts(v)), "infinite timestamp + {f:?} = {r:?}");
        ensure!(q == Ok(ts(v)), "infinite timestamp - {f:?} = {q:?}");
        return Ok(());
    }
    o.label(if add.is_some() { "in range" } else { "out of range" });
    ensure!(r.as_ref().ok().map(|x| tsv(*x)) == add, "{} + {f:?} = {r:?}, want {add:?}", show(v));
    ensure!(q.as_ref().ok().map(|x| tsv(*x)) == sub, "{} - {f:?} = {q:?}, want {sub:?}", show(v));
    Ok(())
}

fn ts_plus_checked(v: i64, m: i64, d: i64, t: i128) -> Option<i64> {
    if v == i64::MIN || v == i64::MAX {
        return Some(v);
    }
    ts_plus(v, m, d, t)
}

fn any_ts(s: &mut Src) -> i64 {
    match s.below(40) {
        39 => i64::MAX,
        38 => i64::MIN,
        _ => gen::ts(s),
    }
}

fn ts_small(s: &mut Src, o: &mut Obs) -> R {
    let v = any_ts(s);
    let f = gen::small_interval(s);
    check_ts_iv(v, f, o)
}
fn ts_any(s: &mut Src, o: &mut Obs) -> R {
    let v = any_ts(s);
    let f = gen::interval(s);
    check_ts_iv(v, f, o)
}
/// Steps aimed at the range ends: the month or day step leaves the range and a later step returns.
fn ts_ends(s: &mut Src, o: &mut Obs) -> R {
    let v = gen::ts(s);
    let c = split(v);
    let target = if s.bool() { MIN_TS } else { END_TS - 1 };
    let e = split(target);
    let mut m = 0;
    let mut d = 0;
    if s.bool() {
        m = (e.y * 12 + e.m) - (c.y * 12 + c.m) + s.range(-2, 2);
    }
    let mid = {
        let (y, mm) = add_months(c.y, c.m, m);
        days(y, mm, c.d.min(month_len(y, mm)))
    };
    if s.bool() {
        d = e.day - mid + s.range(-2, 2);
    }
    let left = target as i128 - ((mid + d) as i128 * DAY as i128 + v.rem_euclid(DAY) as i128);
    let t = match s.below(4) {
        0 => 0,
        3 => i64::MIN + s.range(0, 1),
        1 => (left + s.range(-2, 2) as i128).clamp(i64::MIN as i128, i64::MAX as i128) as i64,
        _ => gen::ivtime(s),
    };
    let cl = |x: i64| x.clamp(i32::MIN as i64, i32::MAX as i64) as i32;
    check_ts_iv(v, (cl(m), cl(d), t), o)
}
fn ts_time(s: &mut Src, o: &mut Obs) -> R {
    let v = any_ts(s);
    let t = match s.below(6) {
        0 => gen::i64s(s),
        1 if v != i64::MIN && v != i64::MAX => {
            let target = if s.bool() { MIN_TS } else { END_TS - 1 } as i128 + s.range(-2, 2) as i128;
            let t = target - v as i128;
            (if s.bool() { t } else { -t }).clamp(i64::MIN as i128, i64::MAX as i128) as i64
        }
        _ => gen::time(s),
    };
    let infinite = v == i64::MIN || v == i64::MAX;
    let add = ts_plus_checked(v, 0, 0, t as i128);
    let sub = ts_plus_checked(v, 0, 0, -(t as i128));
    o.case(!infinite && (t != 0), (v, t), || format!("{} +- time {t}", show(v)));
    let r = ts(v).add_time(time(t));
    let q = ts(v).sub_time(time(t));
    ensure!(r.as_ref().ok().map(|x| tsv(*x)) == add, "{} + time {t} = {r:?}, want {add:?}", show(v));
    ensure!(q.as_ref().ok().map(|x| tsv(*x)) == sub, "{} - time {t} = {q:?}, want {sub:?}", show(v));
    Ok(())
}

// ---------------------------------------------------------------- C19

fn check_diff(a: i64, b: i64, r: Result<Interval, DateTimeError>, what: &str) -> R {
    let diff = a as i128 - b as i128;
    match i64::try_from(diff) {
        Ok(x) => {
            let want = (0, (x / DAY) as i32, x % DAY);
            match r {
                Ok(i) => ensure!(fields(i) == want, "{what}: {} - {} = {:?}, want {want:?}", show(a), show(b), fields(i)),
                Err(e) => return Err(format!("{what}: {} - {} refused: {e}", show(a), show(b)).into()),
            }
            let back = ts(b).add_interval(iv(want.0, want.1, want.2));
            ensure!(back == Ok(ts(a)), "{} + ({a} - {b}) = {back:?}", show(b));
        }
        Err(_) => ensure!(r.is_err(), "{what}: {} - {} = {r:?}, but the difference exceeds 64 bits", show(a), show(b)),
    }
    Ok(())
}

fn diff_ts(s: &mut Src, o: &mut Obs) -> R {
    let a = any_ts(s);
    let b = match s.below(4) {
        0 if a != i64::MIN && a != i64::MAX => {
            let k = s.range(-3, 3) * DAY + s.range(-2, 2);
            (a + k).clamp(MIN_TS, END_TS - 1)
        }
        1 if a != i64::MIN && a != i64::MAX => {
            // around the 64-bit limit of the difference
            let k = if a > 0 { a as i128 - i64::MAX as i128 } else { a as i128 - i64::MIN as i128 };
            (k + s.range(-2, 2) as i128).clamp(MIN_TS as i128, END_TS as i128 - 1) as i64
        }
        _ => any_ts(s),
    };
    let infinite = [a, b].iter().any(|v| *v == i64::MIN || *v == i64::MAX);
    o.case(!infinite && (a as i128 - b as i128).abs() > DAY as i128, (a, b), || format!("{} - {}", show(a), show(b)));
    let r = ts(a).sub_timestamp(ts(b));
    if infinite {
        ensure!(r.is_err(), "{} - {} = {r:?}, want an error", show(a), show(b));
        return Ok(());
    }
    check_diff(a, b, r, "sub_timestamp")
}

fn diff_date(s: &mut Src, o: &mut Obs) -> R {
    let a = any_ts(s);
    let d = match s.below(16) {
        0 => i32::MIN,
        1 => i32::MAX,
        2 => gen::date(s),
        3 => (END_TS_DATE + s.range(-2, 2)) as i32,
        _ => gen::date_ts(s),
    };
    o.case(a != i64::MAX && a != i64::MIN, (a, d), || format!("{} - date {d}", show(a)));
    let r = ts(a).sub_date(date(d));
    if a == i64::MIN || a == i64::MAX || d == i32::MIN || d == i32::MAX || d as i64 >= END_TS_DATE {
        ensure!(r.is_err(), "{} - date {d} = {r:?}, want an error", show(a));
        return Ok(());
    }
    check_diff(a, d as i64 * DAY, r, "sub_date")
}

// ---------------------------------------------------------------- C20

/// For a >= b.
fn age_model(a: i64, b: i64) -> (i64, i64, i64, bool) {
    let (x, y) = (split(a), split(b));
    let mut t = a.rem_euclid(DAY) - b.rem_euclid(DAY);
    let mut d = x.d - y.d;
    let mut m = (x.y * 12 + x.m) - (y.y * 12 + y.m);
    let mut borrowed = false;
    if t < 0 {
        t += DAY;
        d -= 1;
        borrowed = true;
    }
    if d < 0 {
        d += month_len(y.y, y.m);
        m -= 1;
        borrowed = true;
    }
    (m, d, t, borrowed)
}

fn check_age(a: i64, b: i64, o: &mut Obs) -> R {
    let (m, d, t, borrowed) = if a >= b { age_model(a, b) } else { age_model(b, a) };
    let g = if a >= b { 1 } else { -1 };
    let want = ((g * m) as i32, (g * d) as i32, g * t);
    o.case(borrowed || split(a).y <= 0 || split(b).y <= 0, (a, b), || format!("age {} from {} = {want:?}", show(a), show(b)));
    let r = ok(ts(a).age(ts(b)), || format!("age of {} from {}", show(a), show(b)))?;
    ensure!(fields(r) == want, "age of {} from {} = {:?}, want {want:?}", show(a), show(b), fields(r));
    let q = ok(ts(b).age(ts(a)), || format!("age of {} from {}", show(b), show(a)))?;
    ensure!(fields(q) == (-want.0, -want.1, -want.2), "age of {} from {} = {:?}, want the negation of {want:?}", show(b), show(a), fields(q));
    if m == 0 {
        let total = want.1 as i128 * DAY as i128 + want.2 as i128;
        ensure!(total == a as i128 - b as i128, "age of {} from {} is below a month but not the elapsed time", show(a), show(b));
    }
    Ok(())
}

fn age_any(s: &mut Src, o: &mut Obs) -> R {
    let (a, b) = (gen::ts(s), gen::ts(s));
    check_age(a, b, o)
}

fn age_near(s: &mut Src, o: &mut Obs) -> R {
    let a = gen::ts(s);
    let c = split(a);
    let mut y = c.y;
    let mut m = c.m;
    let mut t = a.rem_euclid(DAY);
    let mut d = c.d;
    if s.bool() {
        y += s.range(-5, 5);
    }
    if s.bool() {
        m = gen::month(s);
    }
    if s.bool() {
        d = gen::mday(s, y, m);
    }
    d = d.min(month_len(y, m));
    match s.below(6) {
        0 => t = gen::tod(s),
        1 => t = (t / USEC * USEC + gen::usec(s)).min(DAY - 1),
        2 => t = (t / MIN * MIN + s.range(0, 59) * USEC).min(DAY - 1),
        3 => t = t % HOUR + s.range(0, 23) * HOUR,
        4 => t = (t + s.range(-2, 2)).clamp(0, DAY - 1),
        _ => {}
    }
    let b = (days(y, m, d) as i128 * DAY as i128 + t as i128).clamp(MIN_TS as i128, END_TS as i128 - 1) as i64;
    check_age(a, b, o)
}

// ---------------------------------------------------------------- C21

fn time_arith(s: &mut Src, o: &mut Obs) -> R {
    let a = gen::time(s);
    let b = gen::time(s);
    let f = (gen::months(s), gen::ivdays(s), gen::ivtime(s));
    let span = iv(f.0, f.1, f.2);
    let day = DAY as i128;
    let add = (a as i128 + f.2 as i128).rem_euclid(day) as i64;
    let sub = (a as i128 - f.2 as i128).rem_euclid(day) as i64;
    o.case((a as i128 + f.2 as i128) != add as i128, (a, b, f), || format!("time {a} +- {f:?}; time {a} - time {b}"));
    let r = tv(time(a).add_interval(span));
    ensure!(r == add, "time {a} + {f:?} = {r}, want {add}");
    let r = tv(time(a).sub_interval(span));
    ensure!(r == sub, "time {a} - {f:?} = {r}, want {sub}");
    let r = fields(time(a).sub_time(time(b)));
    ensure!(r == (0, 0, a - b), "time {a} - time {b} = {r:?}");
    let r = tv(Time::from(span));
    let want = (f.2 as i128).rem_euclid(day) as i64;
    ensure!(r == want, "Time::from({f:?}) = {r}, want {want}");
    Ok(())
}

// ---------------------------------------------------------------- C22

type F3 = (i32, i32, i64);
fn add3(a: F3, b: F3) -> Option<F3> {
    Some((a.0.checked_add(b.0)?, a.1.checked_add(b.1)?, a.2.checked_add(b.2)?))
}
fn sub3(a: F3, b: F3) -> Option<F3> {
    Some((a.0.checked_sub(b.0)?, a.1.checked_sub(b.1)?, a.2.checked_sub(b.2)?))
}
fn mk(f: F3) -> Interval {
    iv(f.0, f.1, f.2)
}
fn f_of(r: &Result<Interval, DateTimeError>) -> Option<F3> {
    r.as_ref().ok().map(|i| fields(*i))
}

fn check_pair(a: F3, b: F3, o: &mut Obs) -> R {
    let (s, d) = (add3(a, b), sub3(a, b));
    o.case(
        (a.0 != 0 && b.0 != 0) || (a.1 != 0 && b.1 != 0) || (a.2 != 0 && b.2 != 0) || s.is_none(),
        (a, b),
        || format!("{a:?} +- {b:?}"),
    );
    if s.is_none() || d.is_none() {
        o.label("overflow");
    }
    let r = mk(a).add_interval(mk(b));
    ensure!(f_of(&r) == s, "{a:?} + {b:?} = {r:?}, want {s:?}");
    let r = mk(b).add_interval(mk(a));
    ensure!(f_of(&r) == s, "{b:?} + {a:?} = {r:?}, want {s:?}");
    if let Some(w) = s {
        let r = fields(mk(a) + mk(b));
        ensure!(r == w, "operator {a:?} + {b:?} = {r:?}, want {w:?}");
    }
    let r = mk(a).sub_interval(mk(b));
    ensure!(f_of(&r) == d, "{a:?} - {b:?} = {r:?}, want {d:?}");
    let n = sub3((0, 0, 0), a);
    let r = mk(a).negate();
    ensure!(f_of(&r) == n, "-{a:?} = {r:?}, want {n:?}");
    Ok(())
}

fn iv_pairs(s: &mut Src, o: &mut Obs) -> R {
    let (a, b) = (gen::interval(s), gen::interval(s));
    check_pair(a, b, o)
}

fn iv_overflow(s: &mut Src, o: &mut Obs) -> R {
    let a = gen::interval(s);
    let mut b = gen::small_interval(s);
    // put one field of the pair near its limit
    let k = s.range(-2, 2);
    match s.below(3) {
        0 => b.0 = near32(s, a.0, k),
        1 => b.1 = near32(s, a.1, k),
        _ => {
            let lim = if s.bool() { i64::MAX as i128 } else { i64::MIN as i128 };
            let x = if s.bool() { lim - a.2 as i128 } else { a.2 as i128 - lim };
            b.2 = (x + k as i128).clamp(i64::MIN as i128, i64::MAX as i128) as i64;
        }
    }
    check_pair(a, b, o)
}

fn near32(s: &mut Src, a: i32, k: i64) -> i32 {
    let lim = if s.bool() { i32::MAX as i64 } else { i32::MIN as i64 };
    let x = if s.bool() { lim - a as i64 } else { a as i64 - lim };
    (x + k).clamp(i32::MIN as i64, i32::MAX as i64) as i32
}

fn iv_laws(s: &mut Src, o: &mut Obs) -> R {
    let (a, b, c) = (gen::interval(s), gen::small_interval(s), gen::interval(s));
    o.case(a != (0, 0, 0) && c != (0, 0, 0), (a, b, c), || format!("laws on {a:?} {b:?} {c:?}"));
    if let (Ok(ab), Ok(bc)) = (mk(a).add_interval(mk(b)), mk(b).add_interval(mk(c))) {
        let (l, r) = (ab.add_interval(mk(c)), mk(a).add_interval(bc));
        ensure!(f_of(&l) == f_of(&r), "({a:?}+{b:?})+{c:?} = {l:?}, other way {r:?}");
        let back = ab.sub_interval(mk(b));
        ensure!(f_of(&back) == Some(a), "({a:?}+{b:?})-{b:?} = {back:?}");
    }
    if let Ok(n) = mk(a).negate() {
        let z = mk(a).add_interval(n);
        ensure!(f_of(&z) == Some((0, 0, 0)), "{a:?} + -{a:?} = {z:?}");
        let nn = n.negate();
        ensure!(f_of(&nn) == Some(a), "--{a:?} = {nn:?}");
        let d = mk(c).sub_interval(mk(a));
        let e = mk(c).add_interval(n);
        ensure!(f_of(&d) == f_of(&e), "{c:?} - {a:?} = {d:?} but {c:?} + -{a:?} = {e:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- C23

fn justify(s: &mut Src, o: &mut Obs) -> R {
    let f = match s.below(4) {
        0 => gen::small_interval(s),
        1 => {
            // a few units each side of the thresholds
            let m = s.range(-2, 2) as i32;
            let d = (s.range(-3, 3) * 30 + s.range(-1, 1)) as i32;
            let t = s.range(-3, 3) * DAY + s.range(-1, 1);
            (m, d, t)
        }
        2 => {
            let (m, d, _) = gen::interval(s);
            (m, d, gen::i64s(s))
        }
        _ => gen::interval(s),
    };
    let (m, d, t) = f;
    let day = DAY as i128;
    let signs = [m.signum() as i64, d.signum() as i64, t.signum()];
    o.case(
        (signs.contains(&1) && signs.contains(&-1)) || d.unsigned_abs() >= 30 || t.unsigned_abs() >= DAY as u64,
        f,
        || format!("justify {f:?}"),
    );
    let x = mk(f);
    // hours
    let total = d as i128 * day + t as i128;
    if let Ok(dd) = i32::try_from(total / day) {
        let want = (m, dd, (total % day) as i64);
        let r = fields(x.justify_hours());
        ensure!(r == want, "justify_hours({f:?}) = {r:?}, want {want:?}");
        ensure!(fields(mk(want).justify_hours()) == want, "justify_hours is not idempotent on {want:?}");
    }
    // days
    let total = m as i128 * 30 + d as i128;
    if let Ok(mm) = i32::try_from(total / 30) {
        let want = (mm, (total % 30) as i32, t);
        let r = fields(x.justify_days());
        ensure!(r == want, "justify_days({f:?}) = {r:?}, want {want:?}");
        ensure!(fields(mk(want).justify_days()) == want, "justify_days is not idempotent on {want:?}");
    }
    // all
    let total = (m as i128 * 30 + d as i128) * day + t as i128;
    if let Ok(mm) = i32::try_from(total / (30 * day)) {
        let want = (mm, (total / day % 30) as i32, (total % day) as i64);
        let r = fields(x.justify_interval());
        ensure!(r == want, "justify_interval({f:?}) = {r:?}, want {want:?}");
        ensure!(fields(mk(want).justify_interval()) == want, "justify_interval is not idempotent on {want:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- C24

fn tsround(x: f64) -> f64 {
    (x * 1e6).round() / 1e6
}

enum Want {
    Value(F3),
    Error,
    /// Within a unit of a limit: an error, or this value.
    Either(F3),
}

/// The definition, with `f` the exact operation on one field.
fn scale_model(v: F3, op: &dyn Fn(f64) -> f64) -> Want {
    let (m, d, t) = v;
    let (pm, pd, pt) = (op(m as f64), op(d as f64), op(t as f64));
    if !pm.is_finite() || !pd.is_finite() || !pt.is_finite() {
        return Want::Error;
    }
    let lim = 2147483648.0f64;
    if pm.abs() >= lim + 1.0 || pd.abs() >= lim + 1.0 {
        return Want::Error;
    }
    let edge = pm.abs() > lim - 2.0 || pd.abs() > lim - 2.0;
    let (rm, rd) = (pm.trunc(), pd.trunc());
    let mdays = tsround((pm - rm) * 30.0);
    let mut sec = tsround((pd - rd + mdays - mdays.trunc()) * 86400.0);
    let mut carry = 0.0;
    if sec.abs() >= 86400.0 {
        carry = (sec / 86400.0).trunc();
        sec -= carry * 86400.0;
    }
    let day = rd + carry + mdays.trunc();
    let time = (pt + sec * 1e6).round();
    let tlim = 9223372036854775808.0f64;
    if day.abs() >= lim + 1.0 || time.abs() >= tlim * 1.0000001 {
        return Want::Error;
    }
    let out = (rm.clamp(-lim, lim - 1.0) as i32, day.clamp(-lim, lim - 1.0) as i32, time as i64);
    // a result of exactly 2^63, 2^31 and so on has no representation at all
    if rm > lim - 1.0 || rm < -lim || day > lim - 1.0 || day < -lim || time >= tlim || time < -tlim {
        return Want::Error;
    }
    if edge || time.abs() >= tlim * 0.9999999 || day.abs() > lim - 2.0 { Want::Either(out) } else { Want::Value(out) }
}

fn check_scaled(name: &str, v: F3, f: f64, r: Result<Interval, DateTimeError>, w: Want) -> R {
    match (&r, w) {
        (Err(_), Want::Error) | (Err(_), Want::Either(_)) => Ok(()),
        (Ok(i), Want::Value(x)) | (Ok(i), Want::Either(x)) => {
            let g = fields(*i);
            ensure!(g == x, "{name}({v:?}, {f:?}) = {g:?}, want {x:?}");
            Ok(())
        }
        (Ok(i), Want::Error) => Err(format!("{name}({v:?}, {f:?}) = {:?}, want an error", fields(*i)).into()),
        (Err(e), Want::Value(x)) => Err(format!("{name}({v:?}, {f:?}) refused ({e}), want {x:?}").into()),
    }
}

/// Independent law: months truncate, and the rest keeps the total up to rounding.
fn total_law(name: &str, v: F3, f: f64, i: Interval, op: &dyn Fn(f64) -> f64) -> R {
    let g = fields(i);
    let pm = op(v.0 as f64);
    ensure!(g.0 as f64 == pm.trunc(), "{name}({v:?}, {f:?}): {} months, want the whole part of {pm}", g.0);
    let want = (pm - pm.trunc()) * 30.0 * 86400.0 + op(v.1 as f64) * 86400.0 + op(v.2 as f64) / 1e6;
    let got = g.1 as f64 * 86400.0 + g.2 as f64 / 1e6;
    let mag = pm.abs() * 30.0 * 86400.0 + op(v.1 as f64).abs() * 86400.0 + op(v.2 as f64).abs() / 1e6;
    let tol = 0.1 + mag * 1e-14;
    ensure!((want - got).abs() <= tol, "{name}({v:?}, {f:?}) = {g:?}: {got} s besides the months, want {want}");
    Ok(())
}

fn check_scale(v: F3, f: f64, o: &mut Obs) -> R {
    let mul = |x: f64| x * f;
    let div = |x: f64| x / f;
    let w = if f.is_nan() { Want::Error } else { scale_model(v, &mul) };
    let bad = matches!(w, Want::Error);
    o.case(f.fract() != 0.0 || bad, (v, f.to_bits()), || format!("{v:?} * and / {f:?}"));
    o.label(if bad { "error" } else { "value" });
    let r = mk(v).mul_f64(f);
    check_scaled("mul_f64", v, f, r.clone(), w)?;
    if let Ok(i) = r {
        total_law("mul_f64", v, f, i, &mul)?;
    }
    let r = mk(v).div_f64(f);
    if f == 0.0 || f.is_nan() {
        ensure!(r.is_err(), "div_f64({v:?}, {f:?}) = {r:?}, want an error");
    } else if f.is_finite() {
        check_scaled("div_f64", v, f, r.clone(), scale_model(v, &div))?;
        if let Ok(i) = r {
            total_law("div_f64", v, f, i, &div)?;
        }
    }
    Ok(())
}

fn scale_small(s: &mut Src, o: &mut Obs) -> R {
    let v = gen::small_interval(s);
    let f = match s.below(3) {
        0 => s.range(-1000, 1000) as f64 / *s.pick(&[1.0, 2.0, 3.0, 4.0, 7.0, 10.0, 12.0, 30.0, 100.0]),
        1 => s.range(-100, 100) as f64,
        _ => gen::f64s(s),
    };
    check_scale(v, f, o)
}
fn scale_any(s: &mut Src, o: &mut Obs) -> R {
    let v = gen::interval(s);
    let f = gen::f64s(s);
    check_scale(v, f, o)
}

/// Whether the number is one a 64-bit float can hold, so that products and quotients are exact.
fn holds(x: i64) -> bool {
    (x as f64) as i128 == x as i128
}

fn scale_whole(s: &mut Src, o: &mut Obs) -> R {
    let mut v = if s.bool() { gen::small_interval(s) } else { gen::interval(s) };
    let k = if s.bool() { gen::int(s, -1_000_000, 1_000_000) } else { s.range(-16, 16) };
    if k != 0 && s.one_in(3) {
        // the largest magnitudes a field can reach
        match s.below(3) {
            0 => v.0 = (*s.pick(&[i32::MIN as i64, i32::MAX as i64]) / k).clamp(i32::MIN as i64, i32::MAX as i64) as i32,
            1 => v.1 = (*s.pick(&[i32::MIN as i64, i32::MAX as i64]) / k).clamp(i32::MIN as i64, i32::MAX as i64) as i32,
            _ => v.2 = (1i64 << 62) / *s.pick(&[1, 2, 4, 8, 16, 1 << 20]) * *s.pick(&[1, -1]),
        }
    }
    let want = v.0.checked_mul(k as i32).and_then(|a| Some((a, v.1.checked_mul(k as i32)?, v.2.checked_mul(k)?)));
    o.case(k.abs() > 1, (v, k), || format!("{v:?} * {k} exactly, and back"));
    if let Some(w) = want {
        if holds(w.2) && holds(v.2) {
            let r = ok(mk(v).mul_f64(k as f64), || format!("{v:?} * {k}"))?;
            ensure!(fields(r) == w, "{v:?} * {k} = {:?}, want exactly {w:?}", fields(r));
            if k != 0 {
                let r = ok(mk(w).div_f64(k as f64), || format!("{w:?} / {k}"))?;
                ensure!(fields(r) == v, "{w:?} / {k} = {:?}, want exactly {v:?}", fields(r));
            }
        }
    }
    Ok(())
}

/// Factors that put one field of the result next to its limit.
fn scale_limits(s: &mut Src, o: &mut Obs) -> R {
    let mut v = gen::small_interval(s);
    let pick = s.below(3);
    let (x, lim) = match pick {
        0 => {
            v.0 = gen::months(s);
            (v.0 as f64, 2147483648.0)
        }
        1 => {
            v.1 = gen::ivdays(s);
            (v.1 as f64, 2147483648.0)
        }
        _ => {
            v.2 = gen::ivtime(s);
            (v.2 as f64, 9223372036854775808.0)
        }
    };
    if x == 0.0 {
        return Ok(());
    }
    let near = (lim + s.range(-4, 4) as f64) * *s.pick(&[1.0, -1.0, 1.5, 0.999999, 1.000001]);
    let f = if s.bool() { near / x } else { x / near };
    check_scale(v, f, o)
}
