//! Reference calendar, written from the definitions (proleptic Gregorian calendar, ISO 8601 weeks)
//! in 64-bit arithmetic. Days count from 2000-01-01; years are astronomical (0 = 1 BC).

pub const USEC: i64 = 1_000_000;
pub const MIN: i64 = 60 * USEC;
pub const HOUR: i64 = 60 * MIN;
pub const DAY: i64 = 24 * HOUR;

/// First valid day, first invalid day.
pub const MIN_DATE: i64 = -2_451_545;
pub const END_DATE: i64 = 2_147_483_494 - 2_451_545;
/// First valid timestamp, first invalid timestamp.
pub const MIN_TS: i64 = -211_813_488_000_000_000;
pub const END_TS: i64 = 9_223_371_331_200_000_000;
pub const END_TS_DATE: i64 = END_TS / DAY;

pub fn leap(y: i64) -> bool {
    y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0)
}

pub fn month_len(y: i64, m: i64) -> i64 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 => 28 + leap(y) as i64,
        _ => panic!("month {m}"),
    }
}

pub fn year_len(y: i64) -> i64 {
    365 + leap(y) as i64
}

/// Days from 2000-01-01 to January 1 of year y.
fn jan1(y: i64) -> i64 {
    // leap days in the years before y, minus those before 2000
    let p = y - 1;
    let lp = |p: i64| p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400);
    365 * (y - 2000) + lp(p) - lp(1999)
}

/// m in 1..=12; any d.
pub fn days(y: i64, m: i64, d: i64) -> i64 {
    let mut n = jan1(y);
    for k in 1..m {
        n += month_len(y, k);
    }
    n + d - 1
}

pub fn civil(n: i64) -> (i64, i64, i64) {
    // 146097 days per 400 years: bracket the year, then walk.
    let mut y = 2000 + (n * 400).div_euclid(146_097);
    while jan1(y) > n {
        y -= 1;
    }
    while jan1(y + 1) <= n {
        y += 1;
    }
    let mut r = n - jan1(y);
    let mut m = 1;
    while r >= month_len(y, m) {
        r -= month_len(y, m);
        m += 1;
    }
    (y, m, r + 1)
}

/// 0 = Sunday. 2000-01-01 was a Saturday.
pub fn dow(n: i64) -> i64 {
    (n + 6).rem_euclid(7)
}

/// 1 = Monday .. 7 = Sunday.
pub fn isodow(n: i64) -> i64 {
    (n + 5).rem_euclid(7) + 1
}

pub fn doy(n: i64) -> i64 {
    let (y, _, _) = civil(n);
    n - jan1(y) + 1
}

/// (ISO year, ISO week): those of the Thursday of the same Monday-based week.
pub fn iso_week(n: i64) -> (i64, i64) {
    let thursday = n - (isodow(n) - 1) + 3;
    let (y, _, _) = civil(thursday);
    (y, (thursday - jan1(y)) / 7 + 1)
}

/// Years as people write them: no year 0.
pub fn shown_year(y: i64) -> i64 {
    if y > 0 { y } else { y - 1 }
}

/// y, m moved by k months.
pub fn add_months(y: i64, m: i64, k: i64) -> (i64, i64) {
    let t = y * 12 + (m - 1) + k;
    (t.div_euclid(12), t.rem_euclid(12) + 1)
}

pub fn valid_ts(t: i128) -> bool {
    t >= MIN_TS as i128 && t < END_TS as i128
}
pub fn valid_date(d: i128) -> bool {
    d >= MIN_DATE as i128 && d < END_DATE as i128
}

/// Time of day split: h, m, s, usec. For t >= 0.
pub fn hms(t: i64) -> (i64, i64, i64, i64) {
    (t / HOUR, t / MIN % 60, t / USEC % 60, t % USEC)
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Civil {
    pub y: i64,
    pub m: i64,
    pub d: i64,
    pub h: i64,
    pub mi: i64,
    pub s: i64,
    pub us: i64,
    pub day: i64,
}

/// Splits a finite timestamp.
pub fn split(ts: i64) -> Civil {
    let day = ts.div_euclid(DAY);
    let (y, m, d) = civil(day);
    let (h, mi, s, us) = hms(ts.rem_euclid(DAY));
    Civil { y, m, d, h, mi, s, us, day }
}
