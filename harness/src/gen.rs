//! Generators, biased towards the values where calendar code goes wrong.

use crate::engine::Src;
use crate::model::cal::*;
use std::sync::OnceLock;

// ---------------------------------------------------------------- dictionary

/// Literals found in the library's source, used like a fuzzer's dictionary: they only make
/// interesting inputs more likely and never take part in judging a result.
pub struct Dict {
    pub ints: Vec<i64>,
    pub words: Vec<String>,
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let root = std::env::var("PGDT_REPO").unwrap_or_else(|_| "/repo".into());
        let mut ints = vec![0i64, 1, 2, 7, 10, 12, 30, 60, 100];
        let mut words: Vec<String> = vec![];
        let mut files: Vec<_> = std::fs::read_dir(format!("{root}/src")).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        files.sort();
        for f in files {
            if f.extension().map_or(true, |e| e != "rs") {
                continue;
            }
            let text = std::fs::read_to_string(&f).unwrap_or_default();
            let text = match text.find("#[cfg(test)]\nmod tests") {
                Some(i) => &text[..i],
                None => &text[..],
            };
            for line in text.lines() {
                let t = line.trim_start();
                if t.starts_with("//") {
                    continue;
                }
                scan(line, &mut ints, &mut words);
            }
        }
        ints.sort();
        ints.dedup();
        words.sort();
        words.dedup();
        Dict { ints, words }
    })
}

fn scan(line: &str, ints: &mut Vec<i64>, words: &mut Vec<String>) {
    let b = line.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == b'"' {
            let mut j = i + 1;
            while j < b.len() && b[j] != b'"' {
                j += if b[j] == b'\\' { 2 } else { 1 };
            }
            if j < b.len() && j > i + 1 && j - i <= 24 && line.is_char_boundary(i + 1) && line.is_char_boundary(j) {
                let w = &line[i + 1..j];
                if !w.contains('{') && !w.contains('\\') && w.is_ascii() {
                    words.push(w.to_string());
                }
            }
            i = j + 1;
        } else if c.is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
            let mut j = i;
            let hex = c == b'0' && i + 1 < b.len() && b[i + 1] == b'x';
            if hex {
                j += 2;
            }
            let mut v: u128 = 0;
            while j < b.len() && (b[j] == b'_' || if hex { b[j].is_ascii_hexdigit() } else { b[j].is_ascii_digit() }) {
                if b[j] != b'_' {
                    v = v.saturating_mul(if hex { 16 } else { 10 }).saturating_add((b[j] as char).to_digit(16).unwrap() as u128);
                }
                j += 1;
            }
            if v <= i64::MAX as u128 {
                ints.push(v as i64);
            }
            i = j.max(i + 1);
            while i < b.len() && b[i].is_ascii_alphanumeric() {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
}

fn dict_int(s: &mut Src) -> i64 {
    let d = &dict().ints;
    let v = *s.pick(d);
    let v = v.saturating_add(*s.pick(&[0i64, 0, 1, -1]));
    if s.one_in(3) { v.saturating_neg() } else { v }
}

pub fn dict_in(s: &mut Src, lo: i64, hi: i64) -> Option<i64> {
    for _ in 0..4 {
        let v = dict_int(s);
        if v >= lo && v <= hi {
            return Some(v);
        }
    }
    None
}

// ---------------------------------------------------------------- integers

/// Any integer of the range, biased to zero, the ends, powers, dictionary values.
pub fn int(s: &mut Src, lo: i64, hi: i64) -> i64 {
    let v = match s.weighted(&[6, 5, 4, 3, 3, 6, 4]) {
        0 => s.range(-3, 3) as i128,
        1 => s.range(-100, 100) as i128,
        2 => {
            let k = s.range(0, 3) as i128;
            if s.bool() { lo as i128 + k } else { hi as i128 - k }
        }
        3 => dict_int(s) as i128,
        4 => {
            let p = 10i128.pow(s.below(19) as u32) * s.range(1, 9) as i128 + s.range(-1, 1) as i128;
            if s.bool() { -p } else { p }
        }
        5 => {
            let bits = s.range(1, 63) as u32;
            let m = (s.u64() & ((1u64 << bits) - 1)) as i128;
            if s.bool() { -m } else { m }
        }
        _ => s.range(lo, hi) as i128,
    };
    v.clamp(lo as i128, hi as i128) as i64
}

pub fn i32s(s: &mut Src) -> i32 {
    int(s, i32::MIN as i64, i32::MAX as i64) as i32
}
pub fn i64s(s: &mut Src) -> i64 {
    int(s, i64::MIN, i64::MAX)
}

// ---------------------------------------------------------------- calendar values

/// Astronomical year in lo..=hi.
pub fn year(s: &mut Src, lo: i64, hi: i64) -> i64 {
    let v = match s.weighted(&[5, 3, 4, 4, 3, 3, 3, 3, 2]) {
        0 => s.range(1970, 2069),
        1 => s.range(1, 99),
        2 => s.range(-48, 60) * 100 + s.range(-1, 1),
        3 => s.range(-4712, 9999),
        4 => s.range(-110, 12),
        5 => dict_in(s, lo, hi).unwrap_or(1999),
        6 => {
            let d = s.range(0, 60);
            if s.bool() { lo + d } else { hi - d }
        }
        7 => s.range(lo, hi),
        _ => {
            let p = 10i64.pow(s.range(1, 6) as u32);
            p * s.range(1, 9) + s.range(-2, 2)
        }
    };
    v.clamp(lo, hi)
}

pub fn month(s: &mut Src) -> i64 {
    match s.below(4) {
        0 => *s.pick(&[1i64, 2, 12, 3]),
        _ => s.range(1, 12),
    }
}

pub fn mday(s: &mut Src, y: i64, m: i64) -> i64 {
    let n = month_len(y, m);
    match s.below(5) {
        0 => n - s.range(0, 2),
        1 => s.range(1, 7),
        2 => s.range(8, 12),
        _ => s.range(1, n),
    }
}

/// A finite valid day number below `end`.
pub fn day_below(s: &mut Src, end: i64) -> i64 {
    let hi_year = civil(end - 1).0;
    let n = match s.weighted(&[12, 2, 3, 2, 1]) {
        0 => {
            let y = year(s, -4713, hi_year);
            let m = month(s);
            let d = mday(s, y, m);
            days(y, m, d)
        }
        1 => {
            let k = s.range(0, 800);
            if s.bool() { MIN_DATE + k } else { end - 1 - k }
        }
        2 => s.range(MIN_DATE, end - 1),
        3 => s.range(-800, 800),
        _ => dict_in(s, MIN_DATE, end - 1).unwrap_or(0),
    };
    n.clamp(MIN_DATE, end - 1)
}

pub fn date(s: &mut Src) -> i32 {
    day_below(s, END_DATE) as i32
}

/// A date that also has a timestamp.
pub fn date_ts(s: &mut Src) -> i32 {
    day_below(s, END_TS_DATE) as i32
}

/// Microseconds below a second, biased to few digits.
pub fn usec(s: &mut Src) -> i64 {
    match s.weighted(&[4, 4, 2, 2]) {
        0 => 0,
        1 => {
            let k = s.range(1, 6) as u32;
            let p = 10i64.pow(k);
            s.range(1, p - 1) * (1_000_000 / p)
        }
        2 => *s.pick(&[1i64, 9, 10, 100, 1000, 10_000, 100_000, 499_999, 500_000, 500_001, 999_999, 999_500, 50, 5]),
        _ => s.range(0, 999_999),
    }
}

fn sixty(s: &mut Src) -> i64 {
    match s.below(4) {
        0 => *s.pick(&[0i64, 59, 1, 9, 10, 30, 29]),
        1 => s.range(0, 9),
        _ => s.range(0, 59),
    }
}

/// 00:00:00 .. 23:59:59.999999
pub fn tod(s: &mut Src) -> i64 {
    match s.weighted(&[2, 8, 2, 1]) {
        0 => 0,
        1 => {
            let h = match s.below(3) {
                0 => *s.pick(&[0i64, 11, 12, 13, 23, 1, 10, 9]),
                _ => s.range(0, 23),
            };
            h * HOUR + sixty(s) * MIN + sixty(s) * USEC + usec(s)
        }
        2 => s.range(0, DAY - 1),
        _ => dict_in(s, 0, DAY - 1).unwrap_or(DAY - 1),
    }
}

/// 00:00:00 .. 24:00:00 inclusive.
pub fn time(s: &mut Src) -> i64 {
    if s.one_in(24) { DAY - s.range(0, 1) } else { tod(s) }
}

/// A finite valid timestamp.
pub fn ts(s: &mut Src) -> i64 {
    let v = match s.weighted(&[14, 2, 2, 1]) {
        0 => {
            let d = date_ts(s) as i64;
            d * DAY + tod(s)
        }
        1 => {
            let k = match s.below(3) {
                0 => s.range(0, 3),
                1 => s.range(0, 3 * DAY),
                _ => s.range(0, 800 * DAY),
            };
            if s.bool() { MIN_TS + k } else { END_TS - 1 - k }
        }
        2 => s.range(MIN_TS, END_TS - 1),
        _ => s.range(-3 * DAY, 3 * DAY),
    };
    v.clamp(MIN_TS, END_TS - 1)
}

// ---------------------------------------------------------------- intervals

fn sign(s: &mut Src, v: i64) -> i64 {
    if s.bool() { v.saturating_neg() } else { v }
}

/// Months of an interval.
pub fn months(s: &mut Src) -> i32 {
    let v = match s.weighted(&[5, 5, 4, 3, 2, 2]) {
        0 => 0,
        1 => s.range(-13, 13),
        2 => s.range(-300, 300) * 12 + s.range(-1, 1),
        3 => i32s(s) as i64,
        4 => *s.pick(&[12i64, -12, 11, -11, 1, -1, 120, 1200, 12000, 6, -6, 3, 24]),
        _ => s.range(-100_000, 100_000),
    };
    v.clamp(i32::MIN as i64, i32::MAX as i64) as i32
}

/// Days of an interval.
pub fn ivdays(s: &mut Src) -> i32 {
    let v = match s.weighted(&[5, 5, 3, 3, 2, 2]) {
        0 => 0,
        1 => s.range(-32, 32),
        2 => s.range(-300, 300) * 30 + s.range(-1, 1),
        3 => i32s(s) as i64,
        4 => *s.pick(&[1i64, -1, 7, -7, 29, 30, 31, -29, -30, -31, 365, 366]),
        _ => s.range(-1_000_000, 1_000_000),
    };
    v.clamp(i32::MIN as i64, i32::MAX as i64) as i32
}

/// Microseconds of an interval, any magnitude.
pub fn ivtime(s: &mut Src) -> i64 {
    match s.weighted(&[4, 6, 4, 3, 2, 2]) {
        0 => 0,
        1 => {
            // h:m:s.us with some of the fields zero
            let mut t = 0i64;
            if s.bool() {
                t += s.range(0, 30) * HOUR;
            }
            if s.bool() {
                t += sixty(s) * MIN;
            }
            if s.bool() {
                t += sixty(s) * USEC;
            }
            if s.bool() {
                t += usec(s);
            }
            sign(s, t)
        }
        2 => {
            let t = s.range(0, 400) * DAY + s.range(-1, 1);
            sign(s, t)
        }
        3 => i64s(s),
        4 => sign_pick(s),
        _ => {
            // whole hours around the 32-bit limits, the finer fields zero, full or between
            let h = if s.one_in(3) { (1i64 << 31) - s.range(0, 2) } else { s.range(0, i32::MAX as i64) };
            let fine = match s.below(3) {
                0 => s.range(-1, 1),
                1 => s.range(HOUR - 2, HOUR - 1),
                _ => s.range(0, HOUR - 1),
            };
            sign(s, h * HOUR + fine)
        }
    }
}

fn sign_pick(s: &mut Src) -> i64 {
    let v = *s.pick(&[1i64, USEC - 1, USEC, MIN, HOUR, DAY - 1, DAY, DAY + 1, 59 * MIN, 60 * MIN - 1, HOUR - 1, HOUR + 1]);
    sign(s, v)
}

pub fn interval(s: &mut Src) -> (i32, i32, i64) {
    (months(s), ivdays(s), ivtime(s))
}

/// An interval of everyday size.
pub fn small_interval(s: &mut Src) -> (i32, i32, i64) {
    let m = if s.bool() { s.range(-60, 60) } else { 0 };
    let d = if s.bool() { s.range(-400, 400) } else { 0 };
    let t = if s.bool() { tod(s) } else { 0 };
    (m as i32, d as i32, sign(s, t))
}

// ---------------------------------------------------------------- floats

pub fn f64s(s: &mut Src) -> f64 {
    match s.weighted(&[4, 4, 3, 2, 2, 3, 2]) {
        0 => s.range(-10, 10) as f64,
        1 => s.range(-10_000, 10_000) as f64 / *s.pick(&[2.0, 4.0, 10.0, 100.0, 3.0, 7.0, 1000.0]),
        2 => s.range(-1_000_000, 1_000_000) as f64 / 1e6,
        3 => *s.pick(&[
            0.0,
            -0.0,
            f64::NAN,
            f64::INFINITY,
            f64::NEG_INFINITY,
            f64::MAX,
            f64::MIN,
            f64::MIN_POSITIVE,
            1e-300,
            1e300,
            0.5,
            -0.5,
            60.0,
            59.9999995,
            59.9999994,
            0.0000005,
            0.0000004,
            60.0000001,
            2147483647.0,
            2147483648.0,
            -2147483648.0,
            -2147483649.0,
            9.223372036854775807e18,
        ]),
        4 => f64::from_bits(s.u64()),
        5 => i64s(s) as f64,
        _ => dict_int(s) as f64 + *s.pick(&[0.0, 0.5, 0.25, 0.000001, -0.000001]),
    }
}
