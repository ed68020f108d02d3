//! Text generators: notations of a known moment or interval, token soup, and mutations.

use crate::engine::Src;
use crate::gen;
use crate::model::cal::*;
use crate::model::parse::{range, Sum, Unit, UNIT_WORDS};
use crate::val::{DateOrder, IntervalStyle, ISTYLES, ORDERS};

pub const MONTH_NAMES: [&[&str]; 12] = [
    &["Jan", "January"],
    &["Feb", "February"],
    &["Mar", "March"],
    &["Apr", "April"],
    &["May"],
    &["Jun", "June"],
    &["Jul", "July"],
    &["Aug", "August"],
    &["Sep", "Sept", "September"],
    &["Oct", "October"],
    &["Nov", "November"],
    &["Dec", "December"],
];
/// Sunday first.
pub const WEEKDAY_NAMES: [&[&str]; 7] = [
    &["Sun", "Sunday"],
    &["Mon", "Monday"],
    &["Tue", "Tues", "Tuesday"],
    &["Wed", "Weds", "Wednesday"],
    &["Thu", "Thur", "Thurs", "Thursday"],
    &["Fri", "Friday"],
    &["Sat", "Saturday"],
];

// ---------------------------------------------------------------- letter case and spacing

pub fn recase(s: &mut Src, t: &str) -> String {
    match s.below(5) {
        0 => t.to_string(),
        1 => t.to_ascii_lowercase(),
        2 => t.to_ascii_uppercase(),
        3 => {
            let m = s.u64();
            t.chars().enumerate().map(|(i, c)| if m >> (i % 64) & 1 == 1 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
        }
        _ => t.to_string(),
    }
}

pub fn blank(s: &mut Src) -> &'static str {
    match s.below(6) {
        0 => *s.pick(&["  ", "\t", "\n", " \t ", "\r\n", "   "]),
        _ => " ",
    }
}

pub fn maybe_blank(s: &mut Src) -> &'static str {
    if s.bool() { "" } else { blank(s) }
}

fn pad2(s: &mut Src, v: i64) -> String {
    if s.one_in(3) { format!("{v}") } else { format!("{v:02}") }
}

// ---------------------------------------------------------------- moments

/// A text, the order it is read under, and what it spells.
#[derive(Debug, Clone)]
pub struct Moment {
    pub text: String,
    pub order: DateOrder,
    pub day: i64,
    /// microseconds after midnight; may reach or pass 24 h (24:00:00, :60)
    pub tod: i64,
    pub tol: i64,
    /// the notation used, and whether the text has a time
    pub form: &'static str,
    pub timed: bool,
}

struct Clock {
    text: String,
    tod: i64,
    tol: i64,
    /// a token with colons
    colons: bool,
    /// the last character may be followed by letters
    ampm: bool,
}

/// A time of day in some notation, including 24:00:00 and :60 when `edges`.
fn clock(s: &mut Src, edges: bool) -> Clock {
    let (mut h, mut m, mut sec, mut us);
    let t = gen::tod(s);
    (h, m, sec, us) = hms(t);
    if edges && s.one_in(24) {
        (h, m, sec, us) = (24, 0, 0, 0);
    } else if edges && s.one_in(24) {
        sec = 60;
        us = 0;
    }
    let mut ampm = "";
    let mut sh = h;
    if h < 24 && s.one_in(4) {
        ampm = if h >= 12 { "PM" } else { "AM" };
        sh = if h % 12 == 0 { if s.one_in(4) { 0 } else { 12 } } else { h % 12 };
    }
    let frac = |s: &mut Src, us: i64| -> String {
        let f = format!("{us:06}");
        if us == 0 {
            return match s.below(6) {
                0 => format!(".{}", "0".repeat(s.range(1, 6) as usize)),
                _ => String::new(),
            };
        }
        let t = f.trim_end_matches('0');
        if s.bool() { format!(".{f}") } else { format!(".{t}") }
    };
    let form = s.below(6);
    let (text, colons) = match form {
        0 if sec == 0 && us == 0 => (format!("{}:{}", pad2(s, sh), pad2(s, m)), true),
        1 if sec == 0 && us == 0 => (format!("{sh:02}{m:02}"), false),
        2 => (format!("{sh:02}{m:02}{sec:02}{}", frac(s, us)), false),
        3 if h == 0 && ampm.is_empty() => {
            let mut f = frac(s, us);
            if f.is_empty() {
                f = ".0".into();
            }
            (format!("{}:{}{}", pad2(s, m), pad2(s, sec), f), true)
        }
        4 => (format!("{sh:02}:{m:02}:{sec:02}{}", frac(s, us)), true),
        _ => (format!("{}:{}:{}{}", pad2(s, sh), pad2(s, m), pad2(s, sec), frac(s, us)), true),
    };
    let tod = ((h * 60 + m) * 60 + sec) * USEC + us;
    let mut text = text;
    if !ampm.is_empty() {
        let b = maybe_blank(s);
        text = format!("{text}{b}{}", recase(s, ampm));
    }
    Clock { text, tod, tol: 0, colons, ampm: !ampm.is_empty() }
}

fn month_name(s: &mut Src, m: i64) -> String {
    let n = *s.pick(MONTH_NAMES[m as usize - 1]);
    recase(s, n)
}

/// The year as digits: at least three, at most `max` wide when zero-padded.
fn long_year(s: &mut Src, y: i64) -> String {
    let v = if y > 0 { y } else { 1 - y };
    match s.below(8) {
        0 => format!("{v:03}"),
        1 => format!("{v:05}"),
        _ => format!("{v:04}"),
    }
}

fn order(s: &mut Src) -> DateOrder {
    *s.pick(&ORDERS)
}

/// A date and, if `timed`, a time of day, in a random supported notation.
pub fn moment(s: &mut Src, for_date: bool) -> Moment {
    let mut day = if for_date && s.one_in(3) { gen::date(s) } else { gen::date_ts(s) } as i64;
    let (mut y, mut m, mut d) = civil(day);
    let mut or = order(s);
    let form;
    let mut text: String;
    // letters may follow the date text at once
    let mut glue_ok = true;
    // made of separate words and numbers: other words may come first
    let mut loose = false;
    let mut era_ok = true;
    let mut own_time: Option<(i64, i64)> = None;
    let keep_year_short = |s: &mut Src, day: &mut i64, y: &mut i64, m: &mut i64, d: &mut i64| {
        // years a two-digit notation can spell: 1970..2069, or 1..99 BC
        let ny = if s.one_in(8) { -s.range(0, 98) } else { s.range(1970, 2069) };
        *y = ny;
        *d = (*d).min(month_len(ny, *m));
        *day = days(*y, *m, *d);
    };
    let short = |s: &mut Src, y: i64| -> String {
        let v = if y > 0 { y % 100 } else { 1 - y };
        if v < 10 && s.one_in(4) { format!("{v}") } else { format!("{v:02}") }
    };
    let cap = |s: &mut Src, day: &mut i64, y: &mut i64, m: &mut i64, d: &mut i64, top: i64| {
        if *y > top || 1 - *y > top {
            *y = s.range(1, 9999);
            *d = (*d).min(month_len(*y, *m));
            *day = days(*y, *m, *d);
        }
    };
    match s.weighted(&[4, 3, 2, 3, 2, 4, 3, 2, 2, 2, 2, 3]) {
        0 => {
            form = "year-month-day";
            let sep = *s.pick(&["-", "-", "/", "."]);
            text = format!("{}{sep}{}{sep}{}", long_year(s, y), pad2(s, m), pad2(s, d));
        }
        1 => {
            form = "ordered numbers";
            let sep = *s.pick(&["-", "/", "/", "."]);
            or = if s.bool() { DateOrder::MDY } else { DateOrder::DMY };
            let (a, b) = if or == DateOrder::MDY { (m, d) } else { (d, m) };
            text = format!("{}{sep}{}{sep}{}", pad2(s, a), pad2(s, b), long_year(s, y));
        }
        2 => {
            form = "ordered numbers, short year";
            keep_year_short(s, &mut day, &mut y, &mut m, &mut d);
            let sep = *s.pick(&["-", "/", "."]);
            let yy = short(s, y);
            let (mm, dd) = (pad2(s, m), pad2(s, d));
            text = match or {
                DateOrder::YMD => format!("{yy}{sep}{mm}{sep}{dd}"),
                DateOrder::MDY => format!("{mm}{sep}{dd}{sep}{yy}"),
                DateOrder::DMY => format!("{dd}{sep}{mm}{sep}{yy}"),
            };
        }
        3 => {
            form = "named month with separators";
            let sep = *s.pick(&["-", "-", "/", "."]);
            let mn = month_name(s, m);
            let dd = pad2(s, d);
            let yy = long_year(s, y);
            text = match s.below(4) {
                0 => format!("{dd}{sep}{mn}{sep}{yy}"),
                1 => format!("{mn}{sep}{dd}{sep}{yy}"),
                2 => format!("{yy}{sep}{mn}{sep}{dd}"),
                // mixed: name glued to the day
                _ => {
                    let sep = *s.pick(&["-", "/"]);
                    format!("{mn}{dd}{sep}{yy}")
                }
            };
            glue_ok = false;
        }
        4 => {
            form = "named month with separators, short year";
            keep_year_short(s, &mut day, &mut y, &mut m, &mut d);
            let sep = *s.pick(&["-", "-", "/", "."]);
            let mn = month_name(s, m);
            let dd = pad2(s, d);
            let yy = short(s, y);
            if s.bool() {
                or = if s.bool() { DateOrder::MDY } else { DateOrder::DMY };
                text = if s.bool() { format!("{dd}{sep}{mn}{sep}{yy}") } else { format!("{mn}{sep}{dd}{sep}{yy}") };
            } else {
                or = DateOrder::YMD;
                text = format!("{yy}{sep}{mn}{sep}{dd}");
            }
            glue_ok = false;
        }
        5 => {
            form = "separate words";
            cap(s, &mut day, &mut y, &mut m, &mut d, 99_999);
            loose = true;
            let mn = month_name(s, m);
            let dd = pad2(s, d);
            let yy = long_year(s, y);
            let g = |s: &mut Src| if s.one_in(4) { "" } else { " " };
            let c = |s: &mut Src| *s.pick(&["", "", ",", ";", ", "]);
            let b1 = blank(s);
            let b2 = blank(s);
            text = match s.below(7) {
                0 => format!("{mn}{}{dd}{}{b2}{yy}", g(s), c(s)),
                1 => format!("{dd}{}{mn}{}{yy}", g(s), g(s)),
                2 => format!("{yy}{}{mn}{}{dd}", g(s), g(s)),
                3 => format!("{yy}{b1}{dd}{}{mn}", g(s)),
                4 => format!("{mn}{}{yy}{b1}{dd}", g(s)),
                5 => format!("{dd}{}{mn}{}{b1}{yy}", g(s), c(s)),
                _ => format!("{mn}{b1}{dd}{}{b2}{yy}", c(s)),
            };
        }
        6 => {
            form = "separate words, short year";
            keep_year_short(s, &mut day, &mut y, &mut m, &mut d);
            loose = true;
            let mn = month_name(s, m);
            let dd = pad2(s, d);
            let yy = short(s, y);
            let b1 = blank(s);
            let b2 = blank(s);
            if s.bool() {
                or = if s.bool() { DateOrder::MDY } else { DateOrder::DMY };
                text = if s.bool() { format!("{dd}{b1}{mn}{b2}{yy}") } else { format!("{mn}{b1}{dd},{b2}{yy}") };
            } else {
                or = DateOrder::YMD;
                text = format!("{yy}{b1}{mn}{b2}{dd}");
            }
        }
        7 => {
            form = "separate numbers";
            loose = true;
            let b1 = blank(s);
            let b2 = blank(s);
            if s.bool() {
                cap(s, &mut day, &mut y, &mut m, &mut d, 99_999);
                let (yy, mm, dd) = (long_year(s, y), pad2(s, m), pad2(s, d));
                text = match s.below(3) {
                    0 => format!("{yy}{b1}{mm}{b2}{dd}"),
                    1 => {
                        or = DateOrder::MDY;
                        format!("{mm}{b1}{dd}{b2}{yy}")
                    }
                    _ => {
                        or = DateOrder::DMY;
                        format!("{dd}{b1}{mm}{b2}{yy}")
                    }
                };
            } else {
                keep_year_short(s, &mut day, &mut y, &mut m, &mut d);
                let (yy, mm, dd) = (short(s, y), pad2(s, m), pad2(s, d));
                text = match or {
                    DateOrder::YMD => format!("{yy}{b1}{mm}{b2}{dd}"),
                    DateOrder::MDY => format!("{mm}{b1}{dd}{b2}{yy}"),
                    DateOrder::DMY => format!("{dd}{b1}{mm}{b2}{yy}"),
                };
            }
        }
        8 => {
            form = "run-together digits";
            loose = true;
            if s.one_in(3) {
                keep_year_short(s, &mut day, &mut y, &mut m, &mut d);
                let v = if y > 0 { y % 100 } else { 1 - y };
                text = format!("{v:02}{m:02}{d:02}");
            } else {
                let v = if y > 0 { y } else { 1 - y };
                text = if s.one_in(6) { format!("{v:03}{m:02}{d:02}") } else { format!("{v:04}{m:02}{d:02}") };
            }
        }
        9 => {
            form = "year and day of year";
            let n;
            let yy;
            let sep;
            if s.one_in(4) {
                or = DateOrder::YMD;
                keep_year_short(s, &mut day, &mut y, &mut m, &mut d);
                let v = if y > 0 { y % 100 } else { 1 - y };
                yy = format!("{v:02}");
                sep = *s.pick(&[".", "-", "/"]);
            } else {
                cap(s, &mut day, &mut y, &mut m, &mut d, 99_999);
                yy = long_year(s, y);
                sep = *s.pick(&[".", "-", "/", " "]);
                loose = sep == " ";
            }
            n = day - days(y, 1, 1) + 1;
            text = format!("{yy}{sep}{n:03}");
        }
        10 => {
            form = "Julian day";
            loose = true;
            era_ok = false;
            let w = *s.pick(&["J", "J", "JD", "Julian"]);
            let n = day - MIN_DATE;
            let b = maybe_blank(s);
            text = format!("{}{b}{n}", recase(s, w));
            if s.one_in(4) {
                let k = s.range(1, 7) as usize;
                let f = s.range(0, 10i64.pow(k as u32) - 1);
                text = format!("{text}.{f:0k$}");
                let us = f * (DAY / 10i64.pow(k as u32).min(DAY)).max(1);
                let us = if DAY % 10i64.pow(k as u32) == 0 { f * (DAY / 10i64.pow(k as u32)) } else { us };
                own_time = Some((us, 1));
            }
        }
        _ => {
            form = "labelled fields";
            loose = true;
            let v = if y > 0 { y } else { 1 - y };
            // short years keep their spelling: a labelled year is never two-digit mapped
            let b = |s: &mut Src| if s.one_in(5) { " " } else { "" };
            let parts = [format!("y{}{v}", b(s)), format!("m{}{m}", b(s)), format!("d{}{d}", b(s))];
            let p = *s.pick(&[[0usize, 1, 2], [0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]);
            let g = b(s);
            text = format!("{}{g}{}{g}{}", parts[p[0]], parts[p[1]], parts[p[2]]);
            if s.one_in(3) {
                let t = gen::tod(s);
                let (h, mi, sec, us) = hms(t);
                let n = s.below(4);
                let minute = if s.bool() { "mm" } else { "m" };
                let mut tod = 0;
                if n >= 1 {
                    text = format!("{text}{}h{h}", b(s));
                    tod += h * HOUR;
                }
                if n >= 2 {
                    text = format!("{text}{minute}{mi}");
                    tod += mi * MIN;
                }
                if n >= 3 {
                    text = format!("{text}s{sec}");
                    tod += sec * USEC;
                    if us != 0 {
                        text = format!("{text}.{us:06}");
                        tod += us;
                    }
                }
                own_time = Some((tod, 0));
            }
            text = recase(s, &text);
        }
    }
    if text.ends_with(|c: char| c.is_ascii_alphabetic()) {
        glue_ok = false;
    }
    // the era goes right after the date or at the end
    let era = if !era_ok {
        None
    } else if y <= 0 {
        Some("BC")
    } else if s.one_in(12) && !form.ends_with("short year") && !(form.starts_with("separate numbers") || form.starts_with("run-together") || form.starts_with("year and day")) {
        Some("AD")
    } else {
        None
    };
    let mut era = era.map(|e| recase(s, e));
    let wd = |s: &mut Src, day: i64| -> String {
        let k = if s.one_in(4) { s.range(0, 6) } else { (day + 6).rem_euclid(7) };
        let w = *s.pick(WEEKDAY_NAMES[k as usize]);
        recase(s, w)
    };
    let mut weekday = s.one_in(6);
    // a weekday or filler first
    if weekday && loose && s.bool() {
        let w = wd(s, day);
        let c = if s.one_in(4) { "," } else { "" };
        text = format!("{w}{c}{}{text}", blank(s));
        weekday = false;
    }
    let mut timed = own_time.is_some();
    let (mut tod, mut tol) = own_time.unwrap_or((0, 0));
    let add_era = |s: &mut Src, text: &mut String, era: &mut Option<String>, glue: bool| {
        if let Some(e) = era.take() {
            let b = if glue && s.one_in(4) { "" } else { blank(s) };
            *text = format!("{text}{b}{e}");
        }
    };
    let era_first = s.bool();
    if own_time.is_none() && s.below(3) > 0 {
        timed = true;
        if s.one_in(30) {
            if era_first {
                add_era(s, &mut text, &mut era, glue_ok);
            }
            let w = recase(s, "allballs");
            text = format!("{text}{}{w}", blank(s));
            glue_ok = false;
        } else {
            let c = clock(s, !for_date);
            tod = c.tod;
            tol = c.tol;
            if loose && c.colons && era.is_none() && s.one_in(5) {
                // time first
                let at = if s.one_in(3) { "at " } else { "" };
                let on = if s.one_in(3) { "on " } else { "" };
                text = format!("{at}{}{}{on}{text}", c.text, blank(s));
            } else {
                if era_first {
                    add_era(s, &mut text, &mut era, glue_ok);
                    glue_ok = false;
                }
                if weekday && s.bool() && (c.colons || form != "x") {
                    let w = wd(s, day);
                    text = format!("{text}{}{w}", blank(s));
                    glue_ok = false;
                    weekday = false;
                }
                let sep = match s.below(5) {
                    0 if glue_ok => "T".to_string(),
                    0 => " T".to_string(),
                    1 => " T ".to_string(),
                    2 if glue_ok => "t".to_string(),
                    3 => format!("{}at{}", blank(s), blank(s)),
                    _ => blank(s).to_string(),
                };
                text = format!("{text}{sep}{}", c.text);
                glue_ok = !c.ampm;
            }
        }
    }
    let at_end = glue_ok && own_time.is_none();
    add_era(s, &mut text, &mut era, at_end);
    if weekday {
        let w = wd(s, day);
        let c = if s.one_in(4) { "," } else { "" };
        text = format!("{text}{c}{}{w}", blank(s));
    }
    if s.one_in(8) {
        text = format!("{}{text}", blank(s));
    }
    if s.one_in(8) {
        text = format!("{text}{}", blank(s));
    }
    Moment { text, order: or, day, tod, tol, form, timed }
}

/// A time of day in some notation: text, order, microseconds, tolerance, whether a refusal is
/// allowed too, form.
pub struct TimeText {
    pub text: String,
    pub order: DateOrder,
    pub tod: i64,
    pub tol: i64,
    pub may_refuse: bool,
    pub form: &'static str,
}

pub fn time_text(s: &mut Src) -> TimeText {
    let or = order(s);
    let form;
    let mut may_refuse = false;
    let mut tol = 0;
    let tod;
    let mut text;
    match s.weighted(&[8, 3, 3, 3, 2, 1, 2]) {
        0 => {
            form = "clock";
            let c = clock(s, true);
            (text, tod, tol) = (c.text, c.tod, c.tol);
        }
        1 => {
            form = "prefixed";
            let c = clock(s, true);
            let p = *s.pick(&["T", "t", "T ", "at ", "on ", "At  ", "ON\t", "at T", "on at "]);
            text = format!("{p}{}", c.text);
            (tod, tol) = (c.tod, c.tol);
        }
        2 => {
            form = "labelled";
            let t = gen::tod(s);
            let (h, m, sec, us) = hms(t);
            let b = |s: &mut Src| if s.one_in(5) { " " } else { "" };
            let f = if us != 0 || s.bool() { format!(".{us:06}") } else { String::new() };
            may_refuse = f.is_empty();
            text = format!("h{}{h}{}mm{}{m}{}s{}{sec}{f}", b(s), b(s), b(s), b(s), b(s));
            text = recase(s, &text);
            tod = t;
        }
        3 => {
            form = "with date";
            let day = gen::date_ts(s) as i64;
            let (y, m, d) = civil(day);
            let c = loop_clock(s);
            let sep = *s.pick(&["-", "/", "."]);
            let bc = if y <= 0 { *s.pick(&[" BC", " bc"]) } else { "" };
            let yy = long_year(s, y);
            let mn = month_name(s, m);
            let dd = match s.below(3) {
                0 => format!("{yy}{sep}{}{sep}{}", pad2(s, m), pad2(s, d)),
                1 => format!("{yy}{sep}{mn}{sep}{}", pad2(s, d)),
                _ => format!("{}{sep}{mn}{sep}{yy}", pad2(s, d)),
            };
            text = format!("{dd}{}{}{bc}", blank(s), c.text);
            (tod, tol) = (c.tod, c.tol);
        }
        4 => {
            form = "with Julian day";
            let n = gen::date_ts(s) as i64 - MIN_DATE;
            let w = *s.pick(&["J", "J", "JD", "Julian"]);
            let w = recase(s, w);
            let b = maybe_blank(s);
            if s.bool() {
                let k = s.range(1, 6) as u32;
                let f = s.range(0, 10i64.pow(k) - 1);
                text = format!("{w}{b}{n}.{f:0w2$}", w2 = k as usize);
                tod = f * (DAY / 10i64.pow(k));
                tol = 1;
            } else {
                let c = clock(s, true);
                text = format!("{w}{b}{n}{}{}", blank(s), c.text);
                (tod, tol) = (c.tod, c.tol);
            }
        }
        5 => {
            form = "allballs";
            text = recase(s, "allballs");
            tod = 0;
        }
        _ => {
            form = "date and labelled";
            let t = gen::tod(s);
            let (h, m, sec, us) = hms(t);
            let day = gen::date_ts(s) as i64;
            let (y, mo, d) = civil(day);
            let y = y.abs().max(1);
            let d = d.min(28);
            let minute = if s.bool() { "mm" } else { "m" };
            let f = if us != 0 || s.bool() { format!(".{us:06}") } else { String::new() };
            may_refuse = f.is_empty();
            text = format!("y{y}m{mo}d{d}h{h}{minute}{m}s{sec}{f}");
            text = recase(s, &text);
            tod = t;
        }
    }
    if s.one_in(8) {
        text = format!("{}{text}", blank(s));
    }
    if s.one_in(8) {
        text = format!("{text}{}", blank(s));
    }
    TimeText { text, order: or, tod, tol, may_refuse, form }
}

fn loop_clock(s: &mut Src) -> Clock {
    let mut c = clock(s, true);
    if !c.colons {
        let t = c.tod.min(DAY - 1);
        let (h, m, sec, us) = hms(t);
        c.text = format!("{h:02}:{m:02}:{sec:02}.{us:06}");
        c.tod = t;
    }
    c
}

// ---------------------------------------------------------------- intervals

pub struct IvText {
    pub text: String,
    pub style: IntervalStyle,
    pub sum: Sum,
    pub form: &'static str,
    pub pieces: usize,
}

/// A number as text, its whole part and ten-millionths, both with its sign.
fn number(s: &mut Src, lo: i64, hi: i64, neg: bool, frac: bool) -> (String, i128, i128) {
    let v = match s.weighted(&[5, 3, 2, 1]) {
        0 => s.range(0, 12),
        1 => s.range(0, 99),
        2 => s.range(0, 5000),
        _ => gen::int(s, 0, hi).max(0),
    }
    .clamp(lo.max(0), hi);
    let (mut t, mut f) = (if s.one_in(8) { format!("{v:02}") } else { v.to_string() }, 0i128);
    if frac {
        let k = s.range(1, 7) as usize;
        let x = match s.below(3) {
            0 => *s.pick(&[5i64, 25, 75, 1, 9, 3]) % 10i64.pow(k as u32),
            _ => s.range(0, 10i64.pow(k as u32) - 1),
        };
        f = x as i128 * 10i128.pow(7 - k as u32);
        if v == 0 && s.one_in(4) {
            t = String::new();
        }
        t = format!("{t}.{x:0k$}");
    }
    let (mut w, mut f) = (v as i128, f);
    if neg {
        w = -w;
        f = -f;
    }
    (t, w, f)
}

pub fn add(sum: &mut Sum, u: Unit, w: i128, f: i128) {
    match u {
        Unit::Us => {
            sum.us += w;
            sum.frac_time(f, 1, 0.0);
        }
        Unit::Ms => {
            sum.s += w / 1000;
            sum.us += w % 1000 * 1000;
            sum.frac_time(f, 1000, 0.0);
        }
        Unit::Second => {
            sum.s += w;
            sum.frac_time(f, 1_000_000, 0.0);
        }
        Unit::Minute => {
            sum.mi += w;
            sum.frac_time(f, 60_000_000, 0.0);
        }
        Unit::Hour => {
            sum.h += w;
            sum.frac_time(f, 3_600_000_000, 0.0);
        }
        Unit::Day => {
            sum.d += w;
            sum.frac_time(f, 86_400_000_000, 0.0);
        }
        Unit::Week => {
            sum.d += w * 7;
            sum.frac_days(f, 7, 0.0);
        }
        Unit::Month => {
            sum.mo += w;
            sum.frac_days(f, 30, 0.0);
        }
        Unit::Year => {
            sum.y += w;
            sum.frac_months(f, 12, 0.0);
        }
        Unit::Decade => {
            sum.y += w * 10;
            sum.frac_months(f, 120, 0.0);
        }
        Unit::Century => {
            sum.y += w * 100;
            sum.frac_months(f, 1200, 0.0);
        }
        Unit::Millennium => {
            sum.y += w * 1000;
            sum.frac_months(f, 12000, 0.0);
        }
        Unit::Other => {}
    }
}

fn unit_word(s: &mut Src, u: Unit) -> String {
    let ws = UNIT_WORDS.iter().find(|w| w.0 == u).unwrap().1;
    let mut w = s.pick(ws).to_string();
    // long words are recognised by their first ten letters
    match w.as_str() {
        "microsecon" => w = s.pick(&["microsecond", "microseconds"]).to_string(),
        "millisecon" => w = s.pick(&["millisecond", "milliseconds"]).to_string(),
        _ => {}
    }
    recase(s, &w)
}

const ALL_UNITS: [Unit; 12] = [
    Unit::Millennium,
    Unit::Century,
    Unit::Decade,
    Unit::Year,
    Unit::Month,
    Unit::Week,
    Unit::Day,
    Unit::Hour,
    Unit::Minute,
    Unit::Second,
    Unit::Ms,
    Unit::Us,
];

/// A sign needs a digit after it.
fn lead_zero(sign: &str, t: String) -> String {
    if !sign.is_empty() && t.starts_with('.') { format!("0{t}") } else { t }
}

fn sign_text(s: &mut Src, neg: bool) -> String {
    if neg {
        format!("-{}", if s.one_in(6) { " " } else { "" })
    } else if s.one_in(8) {
        format!("+{}", if s.one_in(6) { " " } else { "" })
    } else {
        String::new()
    }
}

/// h:mm:ss[.f] or h:mm, without sign: text and fields (h, m, s, us).
fn iv_clock_text(s: &mut Src) -> (String, i64, i64, i64, i64) {
    let h = if s.one_in(8) { gen::int(s, 0, i32::MAX as i64) } else { s.range(0, 50) };
    let (_, m, sec, us) = hms(gen::tod(s));
    let mut f = String::new();
    if us != 0 {
        f = format!(".{us:06}");
        if s.bool() {
            f = f.trim_end_matches('0').to_string();
        }
    }
    match s.below(4) {
        0 => (format!("{h:02}:{m:02}"), h, m, 0, 0),
        1 if us != 0 => (format!("{m:02}:{sec:02}{f}"), 0, m, sec, us),
        2 => (format!("{h}:{m}:{sec}{f}"), h, m, sec, us),
        _ => (format!("{h:02}:{m:02}:{sec:02}{f}"), h, m, sec, us),
    }
}

fn set_clock(sum: &mut Sum, neg: bool, (h, m, s, us): (i64, i64, i64, i64)) {
    let k = if neg { -1 } else { 1 };
    sum.h += k * h as i128;
    sum.mi += k * m as i128;
    sum.s += k * s as i128;
    sum.us += k * us as i128;
}

/// A traditional (unit-and-number, SQL, or clock) interval text.
pub fn interval_text(s: &mut Src) -> IvText {
    let style = *s.pick(&ISTYLES);
    let mut sum = Sum::default();
    let mut text = String::new();
    let form;
    let mut pieces = 0;
    match s.weighted(&[16, 6, 4, 2, 1]) {
        4 => {
            // up to the most words a text may have
            form = "every unit";
            let mut units = ALL_UNITS.to_vec();
            for i in (1..units.len()).rev() {
                units.swap(i, s.below(i as u64 + 1) as usize);
            }
            let full = s.bool();
            for u in units {
                if !full && s.one_in(8) {
                    continue;
                }
                let short: Vec<&str> = UNIT_WORDS.iter().find(|(x, _)| *x == u).unwrap().1.iter().copied().filter(|w| w.len() <= 4).collect();
                let w = *s.pick(&short);
                let neg = style != IntervalStyle::SQLStandard && s.one_in(4);
                let v = s.range(0, 99);
                let lead = if pieces > 0 { " " } else { "" };
                text = format!("{text}{lead}{}{v} {w}", if neg { "-" } else { "" });
                add(&mut sum, u, if neg { -v } else { v } as i128, 0);
                pieces += 1;
            }
            if s.bool() && pieces > 0 {
                text = format!("{text} ago");
                negate(&mut sum);
            }
        }
        0 => {
            form = "units";
            // under the SQL standard style a leading minus may negate everything: see `sql_sign`
            let all_signed = style == IntervalStyle::SQLStandard;
            let n = s.range(1, 5) as usize;
            let clock = s.one_in(4);
            let mut units: Vec<Unit> = vec![];
            for _ in 0..n {
                let u = *s.pick(&ALL_UNITS);
                let sub_day = matches!(u, Unit::Hour | Unit::Minute | Unit::Second | Unit::Ms | Unit::Us);
                if !units.contains(&u) && !(clock && sub_day) {
                    units.push(u);
                }
            }
            if s.below(3) > 0 {
                units.sort_by_key(|u| ALL_UNITS.iter().position(|x| x == u));
            }
            let subsec = units.iter().any(|u| matches!(u, Unit::Ms | Unit::Us));
            if s.one_in(6) {
                text.push('@');
                text.push_str(maybe_blank(s));
            }
            let mut glue_next = false;
            let mut any_neg = false;
            for (i, &u) in units.iter().enumerate() {
                let neg = s.one_in(4);
                any_neg |= neg;
                let max = match u {
                    Unit::Millennium => 2_000_000,
                    Unit::Century => 20_000_000,
                    Unit::Decade => 200_000_000,
                    Unit::Year => 170_000_000,
                    Unit::Week => 300_000_000,
                    Unit::Month | Unit::Day => 2_000_000_000,
                    _ => i32::MAX as i64,
                };
                // several amounts may pass through one field on the way
                let max = if units.len() > 1 { max / 4 } else { max };
                let frac = s.one_in(3) && !(u == Unit::Second && subsec);
                let (t, w, f) = number(s, 0, max, neg, frac);
                let mut sign = sign_text(s, neg);
                if all_signed && sign.is_empty() && any_neg && i > 0 {
                    sign = "+".into();
                }
                let t = lead_zero(&sign, t);
                let word = unit_word(s, u);
                let b = if s.bool() { "" } else { " " };
                let lead = if i == 0 || (glue_next && sign.is_empty() && t.as_bytes()[0].is_ascii_digit() && s.bool()) { "" } else { blank(s) };
                let comma = if i > 0 && !lead.is_empty() && s.one_in(8) { "," } else { "" };
                text = format!("{text}{comma}{lead}{sign}{t}{b}{word}");
                add(&mut sum, u, w, f);
                glue_next = matches!(word.to_ascii_lowercase().as_str(), "d" | "h" | "m" | "s" | "y" | "mon" | "dec");
                pieces += 1;
            }
            if clock {
                let neg = s.one_in(4);
                let bare = s.one_in(3) && !units.contains(&Unit::Day) && pieces == 0;
                let (ct, h, m, sec, us) = iv_clock_text(s);
                let sign = if neg {
                    "-"
                } else if s.one_in(8) || (all_signed && any_neg) {
                    "+"
                } else {
                    ""
                };
                if bare {
                    let (t, w, f) = number(s, 0, 1_000_000, false, false);
                    add(&mut sum, Unit::Day, w, f);
                    text = format!("{text}{t} ");
                } else if pieces > 0 {
                    text.push_str(blank(s));
                }
                text = format!("{text}{sign}{ct}");
                set_clock(&mut sum, neg, (h, m, sec, us));
                pieces += 1;
            }
            // one signed piece alone first: every style reads it the same way only if all are signed
            if all_signed && sql_first_minus_only(&text) {
                // nothing else is signed: the minus applies to every field
                if pieces > 1 {
                    // make the rest explicit instead
                    let (t2, s2) = explicit(s);
                    return IvText { text: t2, style, sum: s2, form: "SQL sign rule", pieces: 2 };
                }
            }
            if s.one_in(5) && pieces > 0 {
                let ago = recase(s, "ago");
                text = format!("{text}{}{ago}", blank(s));
                negate(&mut sum);
            }
        }
        1 => {
            form = "SQL years-months";
            let neg = s.one_in(3);
            let y = if s.one_in(8) { gen::int(s, 0, 170_000_000) } else { s.range(0, 200) };
            let m = s.range(0, 11);
            let k = if neg { -1 } else { 1 };
            text = format!("{}{y}-{m}", if neg { "-" } else if s.one_in(6) { "+" } else { "" });
            sum.mo += (k * (y * 12 + m)) as i128;
            pieces = 1;
            let all_neg = neg && style == IntervalStyle::SQLStandard;
            if s.bool() {
                let neg2 = !all_neg && s.one_in(3);
                let (t, w, f) = number(s, 0, 1_000_000, neg2, false);
                let mut have_clock = String::new();
                let mut c = (0, 0, 0, 0);
                let mut neg3 = false;
                if s.bool() {
                    neg3 = !all_neg && s.one_in(3);
                    let (ct, h, m, sec, us) = iv_clock_text(s);
                    c = (h, m, sec, us);
                    have_clock = format!(" {}{ct}", if neg3 { "-" } else { "" });
                }
                // without a clock the bare number would be seconds: name the unit
                let unit = if have_clock.is_empty() { " days" } else { "" };
                text = format!("{text} {}{t}{unit}{have_clock}", if neg2 { "-" } else { "" });
                let sgn = |x: i128| if all_neg { -x } else { x };
                add(&mut sum, Unit::Day, sgn(w), sgn(f));
                set_clock(&mut sum, neg3 || all_neg, c);
                pieces = 3;
            }
        }
        2 => {
            form = "clock";
            let neg = s.one_in(3);
            let (ct, h, m, sec, us) = iv_clock_text(s);
            text = format!("{}{ct}", if neg { "-" } else if s.one_in(6) { "+" } else { "" });
            set_clock(&mut sum, neg, (h, m, sec, us));
            pieces = 1;
        }
        _ => {
            form = "bare number";
            let neg = s.one_in(3);
            let fr = s.bool();
            let (t, w, f) = number(s, 0, i32::MAX as i64, neg, fr);
            let sign = sign_text(s, neg);
            text = format!("{sign}{}", lead_zero(&sign, t));
            add(&mut sum, Unit::Second, w, f);
            pieces = 1;
        }
    }
    if pieces == 0 {
        text = "1 day".into();
        sum = Sum::default();
        sum.d = 1;
        pieces = 1;
    }
    if s.one_in(10) {
        text = format!("{}{text}{}", maybe_blank(s), maybe_blank(s));
    }
    sum.note();
    IvText { text, style, sum, form, pieces }
}

fn negate(sum: &mut Sum) {
    for f in [&mut sum.y, &mut sum.mo, &mut sum.d, &mut sum.h, &mut sum.mi, &mut sum.s, &mut sum.us] {
        *f = -*f;
    }
}

fn sql_first_minus_only(t: &str) -> bool {
    let u = t.trim_start_matches(|c: char| c == '@' || c.is_ascii_whitespace());
    u.starts_with('-') && !u[1..].contains(['-', '+'])
}

/// A text whose only sign is a leading minus, with every piece in a field of its own.
fn explicit(s: &mut Src) -> (String, Sum) {
    let mut sum = Sum::default();
    let mut text = String::from("-");
    let groups: [(Unit, i64); 5] = [(Unit::Year, 1000), (Unit::Month, 1000), (Unit::Day, 10_000), (Unit::Hour, 1000), (Unit::Minute, 1000)];
    let a = s.below(4) as usize;
    for (u, max) in &groups[a..] {
        if text.len() > 1 && s.one_in(3) {
            continue;
        }
        let v = s.range(0, *max);
        if text.len() > 1 {
            text.push(' ');
        }
        text = format!("{text}{v} {}", unit_word(s, *u));
        add(&mut sum, *u, -v as i128, 0);
    }
    (text, sum)
}

/// An ISO 8601 duration.
pub fn iso_text(s: &mut Src) -> IvText {
    let style = *s.pick(&ISTYLES);
    let mut sum = Sum::default();
    let form;
    let mut text = String::from("P");
    let mut pieces = 0;
    match s.weighted(&[6, 2, 2, 2]) {
        0 => {
            form = "designators";
            let date = [(b'Y', Unit::Year, 150_000_000), (b'M', Unit::Month, 2_000_000_000), (b'W', Unit::Week, 300_000_000), (b'D', Unit::Day, 2_000_000_000)];
            let time = [(b'H', Unit::Hour, i32::MAX as i64 - 1), (b'M', Unit::Minute, i32::MAX as i64 - 1), (b'S', Unit::Second, i32::MAX as i64 - 1)];
            let mask = 1 + s.below(127);
            for (i, &(c, u, max)) in date.iter().enumerate() {
                if mask >> i & 1 == 1 {
                    iso_field(s, &mut text, &mut sum, c, u, max);
                    pieces += 1;
                }
            }
            if mask >> 4 != 0 {
                text.push('T');
                for (i, &(c, u, max)) in time.iter().enumerate() {
                    if mask >> (4 + i) & 1 == 1 {
                        iso_field(s, &mut text, &mut sum, c, u, max);
                        pieces += 1;
                    }
                }
            }
        }
        1 => {
            form = "extended alternative";
            let y = if s.one_in(6) { s.range(0, 100_000_000) } else { s.range(0, 9999) };
            let n = s.below(4);
            let with_time = s.bool() || n == 3;
            if n < 3 {
                text = if s.bool() { format!("P{y:04}") } else { format!("P{y}") };
                // eight digits alone would be the basic form
                let mut v = y;
                if text.len() == 9 && n == 0 {
                    v = y % 10_000;
                    text = format!("P{v:04}");
                }
                alt_frac(s, &mut text, &mut sum, Unit::Year, v);
                if n > 0 {
                    let m = s.range(0, 12);
                    text = format!("{text}-{}", pad2(s, m));
                    alt_frac(s, &mut text, &mut sum, Unit::Month, m);
                    if n > 1 {
                        let d = s.range(0, 31);
                        text = format!("{text}-{}", pad2(s, d));
                        alt_frac(s, &mut text, &mut sum, Unit::Day, d);
                    }
                }
                pieces += 1;
            }
            if with_time {
                iso_clock(s, &mut text, &mut sum);
                pieces += 1;
            }
        }
        2 => {
            form = "basic alternative";
            let (y, m, d) = (s.range(0, 9999), s.range(0, 12), s.range(0, 31));
            text = format!("P{y:04}{m:02}{d:02}");
            sum.y += y as i128;
            sum.mo += m as i128;
            if s.one_in(5) {
                // a fraction of the day; the digits and the fraction are one number
                let f = fraction(s, &mut text);
                let all = (y * 10_000 + m * 100 + d) as f64;
                sum.d += d as i128;
                sum.frac_time(f, 86_400_000_000, all * 2.3e-16 * 1e7);
            } else {
                sum.d += d as i128;
            }
            pieces = 1;
            if s.bool() {
                let (h, mi, sec, us) = hms(gen::tod(s));
                text = format!("{text}T{h:02}{mi:02}{sec:02}");
                if us != 0 {
                    text = format!("{text}.{us:06}");
                }
                set_clock(&mut sum, false, (h, mi, sec, us));
                sum.slack += 1;
                pieces = 2;
            }
        }
        _ => {
            form = "time only";
            iso_clock(s, &mut text, &mut sum);
            pieces = 1;
        }
    }
    sum.note();
    IvText { text, style, sum, form, pieces }
}

/// One to seven digits after a point, in ten-millionths.
fn fraction(s: &mut Src, text: &mut String) -> i128 {
    let k = s.range(1, 7) as usize;
    let x = if s.bool() { *s.pick(&[5i64, 25, 75, 1, 9, 3]) % 10i64.pow(k as u32) } else { s.range(0, 10i64.pow(k as u32) - 1) };
    *text = format!("{text}.{x:0k$}");
    x as i128 * 10i128.pow(7 - k as u32)
}

/// Adds a field already written, sometimes with a fraction after it.
fn alt_frac(s: &mut Src, text: &mut String, sum: &mut Sum, u: Unit, v: i64) {
    let f = if s.one_in(6) { fraction(s, text) } else { 0 };
    iso_add(sum, u, v as i128, f);
}

fn iso_clock(s: &mut Src, text: &mut String, sum: &mut Sum) {
    if s.one_in(3) {
        // any field may carry a fraction
        let (h, mi, sec, _) = hms(gen::tod(s));
        let n = s.range(1, 3);
        *text = format!("{text}T{}", pad2(s, h));
        alt_frac(s, text, sum, Unit::Hour, h);
        if n > 1 {
            *text = format!("{text}:{}", pad2(s, mi));
            alt_frac(s, text, sum, Unit::Minute, mi);
        }
        if n > 2 {
            *text = format!("{text}:{}", pad2(s, sec));
            alt_frac(s, text, sum, Unit::Second, sec);
        }
        return;
    }
    let (h, mi, sec, us) = hms(gen::tod(s));
    let f = if us != 0 { format!(".{us:06}") } else { String::new() };
    let (t, v) = match s.below(4) {
        0 => (format!("{h:02}:{mi:02}:{sec:02}{f}"), (h, mi, sec, us)),
        1 => (format!("{h:02}:{mi:02}"), (h, mi, 0, 0)),
        2 => (format!("{h:02}"), (h, 0, 0, 0)),
        _ => (format!("{h:02}{mi:02}{sec:02}{f}"), (h, mi, sec, us)),
    };
    *text = format!("{text}T{t}");
    set_clock(sum, false, v);
    if v.3 != 0 {
        sum.slack += 1;
    }
}

fn iso_field(s: &mut Src, text: &mut String, sum: &mut Sum, c: u8, u: Unit, max: i64) {
    let neg = s.one_in(4);
    let frac = s.one_in(3);
    let (mut t, w, f) = number(s, 0, max, neg, frac);
    if neg {
        t = format!("-{t}");
    }
    *text = format!("{text}{t}{}", c as char);
    iso_add(sum, u, w, f);
}

fn iso_add(sum: &mut Sum, u: Unit, w: i128, f: i128) {
    // the whole number and its fraction share one 53-bit significand
    let err = if f == 0 { 0.0 } else { w.unsigned_abs() as f64 * 2.3e-16 * 1e7 };
    match u {
        Unit::Year => {
            sum.y += w;
            sum.frac_months(f, 12, err);
        }
        Unit::Month => {
            sum.mo += w;
            sum.frac_days(f, 30, err);
        }
        Unit::Week => {
            sum.d += w * 7;
            sum.frac_days(f, 7, err);
        }
        Unit::Day => {
            sum.d += w;
            sum.frac_time(f, 86_400_000_000, err);
        }
        Unit::Hour => {
            sum.h += w;
            sum.frac_time(f, 3_600_000_000, err);
        }
        Unit::Minute => {
            sum.mi += w;
            sum.frac_time(f, 60_000_000, err);
        }
        _ => {
            sum.s += w;
            sum.frac_time(f, 1_000_000, err);
        }
    }
}

pub const LIMITS: [i32; 14] = {
    use range::*;
    [
        FULL,
        YEAR,
        MONTH,
        YEAR | MONTH,
        DAY,
        HOUR,
        DAY | HOUR,
        MINUTE,
        HOUR | MINUTE,
        DAY | HOUR | MINUTE,
        SECOND,
        MINUTE | SECOND,
        HOUR | MINUTE | SECOND,
        DAY | HOUR | MINUTE | SECOND,
    ]
};

// ---------------------------------------------------------------- soup and mutation

const WORDS: &[&str] = &[
    "am", "pm", "ad", "bc", "at", "on", "t", "allballs", "infinity", "-infinity", "y", "m", "d", "h", "mm", "s", "j", "jd", "julian", "dow", "doy",
    "isodow", "now", "today", "epoch", "invalid", "z", "utc", "est", "gmt", "zulu", "dst", "ago", "day", "days", "mon", "mons", "year", "years",
    "week", "weeks", "hour", "hours", "min", "mins", "minute", "sec", "secs", "second", "ms", "us", "msec", "microsecond", "microseconds",
    "milliseconds", "dec", "decade", "decades", "c", "cent", "century", "centuries", "mil", "millennium", "millennia", "quarter", "qtr", "timezone",
    "p", "p1y", "pt1h", "infinit", "inf", "invali", "undefined", "current", "yesterday", "sept", "tues", "thurs", "weds",
];

fn digits(s: &mut Src, n: usize) -> String {
    (0..n).map(|_| (b'0' + s.below(10) as u8) as char).collect()
}

fn number_frag(s: &mut Src) -> String {
    match s.weighted(&[6, 3, 3, 2, 2, 2, 1, 2, 2, 1]) {
        0 => s.range(0, 31).to_string(),
        1 => format!("{:02}", s.range(0, 60)),
        2 => s.range(1, 2100).to_string(),
        3 => {
            let n = s.range(1, 8) as usize;
            digits(s, n)
        }
        4 => s.range(1, 366).to_string().chars().collect::<String>(),
        5 => format!("{:03}", s.range(0, 400)),
        6 => gen::int(s, 0, i64::MAX).to_string(),
        7 => {
            let n = s.range(0, 8) as usize;
            format!("{}.{}", s.range(0, 99), digits(s, n))
        }
        8 => {
            let (y, m, d) = civil(gen::date(s) as i64);
            format!("{:04}{m:02}{d:02}", y.abs())
        }
        _ => s.pick(&["0", "00", "0000", "2147483647", "2147483648", "4294967296", "9999999999", "99999999999", "60", "24", "12", "13", "366", "367"]).to_string(),
    }
}

fn date_frag(s: &mut Src) -> String {
    let sep = *s.pick(&["-", "/", ".", "-", "."]);
    let n = s.range(2, 4) as usize;
    let mut v: Vec<String> = vec![];
    for _ in 0..n {
        v.push(match s.below(6) {
            0 => {
                let m = s.range(1, 12);
                month_name(s, m)
            }
            1 => s.range(1, 2100).to_string(),
            2 => format!("{:02}", s.range(0, 32)),
            3 => format!("{:03}", s.range(0, 367)),
            _ => s.range(0, 13).to_string(),
        });
    }
    v.join(sep)
}

fn time_frag(s: &mut Src) -> String {
    let n = s.range(1, 3) as usize;
    let mut t: Vec<String> = vec![];
    for i in 0..=n.min(2) {
        let hi = if i == 0 { 25 } else { 61 };
        let v = s.range(0, hi);
        t.push(if s.bool() { format!("{v:02}") } else { v.to_string() });
    }
    let mut t = t.join(":");
    if s.one_in(3) {
        let k = s.range(0, 8) as usize;
        t = format!("{t}.{}", digits(s, k));
    }
    if s.one_in(12) {
        t.push(':');
    }
    t
}

fn word_frag(s: &mut Src) -> String {
    let w = match s.weighted(&[4, 3, 6, 2, 1]) {
        0 => {
            let m = s.range(0, 11) as usize;
            s.pick(MONTH_NAMES[m]).to_string()
        }
        1 => {
            let m = s.range(0, 6) as usize;
            s.pick(WEEKDAY_NAMES[m]).to_string()
        }
        2 => s.pick(WORDS).to_string(),
        3 => {
            let d = &gen::dict().words;
            if d.is_empty() { "x".to_string() } else { s.pick(d).to_string() }
        }
        _ => {
            let n = s.range(1, 12) as usize;
            (0..n).map(|_| (b'a' + s.below(26) as u8) as char).collect()
        }
    };
    recase(s, &w)
}

fn iso_frag(s: &mut Src) -> String {
    let mut t = String::new();
    for _ in 0..s.range(1, 6) {
        match s.below(8) {
            0 => t.push('T'),
            1 => t.push('-'),
            2 => t.push(':'),
            _ => {
                if s.one_in(5) {
                    t.push('-');
                }
                t.push_str(&number_frag(s));
                t.push(*s.pick(&['Y', 'M', 'W', 'D', 'H', 'M', 'S', 'T']));
            }
        }
    }
    t
}

pub fn soup(s: &mut Src) -> String {
    let n = s.range(1, 7);
    let mut t = String::new();
    let iso = s.one_in(8);
    if iso {
        t.push('P');
        t.push_str(&iso_frag(s));
        return t;
    }
    for i in 0..n {
        if i > 0 {
            let j = match s.weighted(&[10, 4, 2, 1]) {
                0 => " ",
                1 => "",
                2 => *s.pick(&[", ", ",", "  ", "\t", " - ", " + ", " -", " +"]),
                _ => *s.pick(&["/", "-", ".", ":", "@", "(", ";", "+", "_", "\"", "!", "T", "t", "~"]),
            };
            t.push_str(j);
        }
        let f = match s.weighted(&[6, 4, 4, 7, 1]) {
            0 => number_frag(s),
            1 => date_frag(s),
            2 => time_frag(s),
            3 => word_frag(s),
            _ => s.pick(&["+", "-", "@", ".", ":", "/", ",", "-1", "+2", "-.5", "+04:05", "-infinity", "+infinity", "é", "\u{0}", "٣", "\u{a0}", "\x7f"]).to_string(),
        };
        t.push_str(&f);
    }
    t
}

const INSERTS: &[&str] = &[
    "-", "+", ".", ":", "/", ",", " ", "0", "1", "9", "T", "t", "P", "J", "y", "m", "d", "h", "s", "@", " ago", " BC", " am", " pm", "12", "00", " 1", "  ",
    "days", "jan", "é", "99999999", "\t", "_", "'", "infinity", "24:00:00", ".5", ":60", "-1",
];

/// A character a careless comparison might take for the ASCII one (its case mapping, width or
/// look), or the character the same number of bits away.
fn lookalike(s: &mut Src, c: char) -> char {
    let near: &[char] = match c.to_ascii_lowercase() {
        'k' => &['\u{212a}', 'κ'],
        's' => &['\u{17f}', 'ѕ'],
        'i' => &['\u{131}', '\u{130}', 'і'],
        'a' => &['а', 'ª', 'á'],
        'o' => &['о', 'º', '0'],
        'e' => &['е', 'é'],
        'c' => &['с'],
        'p' => &['р', 'Ρ'],
        't' => &['т', 'Τ'],
        'y' => &['у', 'ÿ'],
        'm' => &['м', 'Μ'],
        'd' => &['ԁ'],
        'h' => &['һ', 'Η'],
        '-' => &['\u{2212}', '\u{2013}', '\u{ad}', '\u{2010}'],
        '+' => &['＋'],
        '.' => &['。', '·', '．'],
        ':' => &['：', '\u{2236}', ';'],
        '/' => &['\u{2044}', '\\'],
        ' ' => &['\u{a0}', '\u{2003}', '\u{b}', '\u{c}', '\r', '\n', '\u{3000}', '\u{0}', '\u{1c}', '\u{85}'],
        ',' => &['，', '\u{201a}'],
        _ => &[],
    };
    if c.is_ascii_digit() && s.bool() {
        let base = *s.pick(&[0x660u32, 0xff10, 0x966, 0x1d7ce, 0x2080, 0x2460 - 1, 0x6f0]);
        return char::from_u32(base + (c as u32 - 48)).unwrap_or('٣');
    }
    if near.is_empty() || s.one_in(5) {
        // a flipped bit, the same low byte elsewhere, or the other half of the byte range
        return match s.below(3) {
            0 => char::from_u32(c as u32 ^ 1 << s.below(8)).unwrap_or('?'),
            1 => char::from_u32((c as u32 & 0xff) | 0x100 << s.below(6)).unwrap_or('?'),
            _ => char::from_u32((c as u32 & 0x7f) | 0x80).unwrap_or('?'),
        };
    }
    *s.pick(near)
}

/// One to three small edits.
pub fn mutate(s: &mut Src, t: &str) -> String {
    let mut v: Vec<char> = t.chars().collect();
    for _ in 0..s.range(1, 3) {
        let n = v.len() as u64;
        let at = s.below(n + 1) as usize;
        match s.below(10) {
            8 if at < v.len() => v[at] = lookalike(s, v[at]),
            0 if at < v.len() => {
                v.remove(at);
            }
            1 => {
                let x = *s.pick(INSERTS);
                for (k, c) in x.chars().enumerate() {
                    v.insert(at + k, c);
                }
            }
            2 if at < v.len() => v[at] = s.pick(INSERTS).chars().next().unwrap(),
            3 if at < v.len() => {
                let c = v[at];
                v.insert(at, c);
            }
            4 if at + 1 < v.len() => v.swap(at, at + 1),
            5 if at < v.len() => {
                if v[at].is_ascii_digit() {
                    v[at] = (b'0' + s.below(10) as u8) as char;
                } else {
                    v[at] = if v[at].is_ascii_lowercase() { v[at].to_ascii_uppercase() } else { v[at].to_ascii_lowercase() };
                }
            }
            6 => v.truncate(at),
            _ => {
                // swap two words
                let t: String = v.iter().collect();
                let mut w: Vec<&str> = t.split(' ').collect();
                if w.len() > 1 {
                    let i = s.below(w.len() as u64) as usize;
                    let j = s.below(w.len() as u64) as usize;
                    w.swap(i, j);
                }
                v = w.join(" ").chars().collect();
            }
        }
    }
    v.into_iter().collect()
}

/// A notation with a few edits, or token soup.
pub fn vary(s: &mut Src, f: impl Fn(&mut Src) -> String) -> String {
    if s.one_in(3) {
        soup(s)
    } else {
        let t = f(s);
        mutate(s, &t)
    }
}

/// Random pieces of an ISO 8601 duration.
pub fn iso_soup(s: &mut Src) -> String {
    let mut t = String::from("P");
    t.push_str(&iso_frag(s));
    t
}

/// Any text: soup, a valid notation, or a mutated valid notation.
pub fn any_text(s: &mut Src) -> String {
    match s.weighted(&[5, 1, 2, 1, 2, 1, 2, 1, 2]) {
        0 => soup(s),
        1 => moment(s, false).text,
        2 => {
            let t = moment(s, false).text;
            mutate(s, &t)
        }
        3 => time_text(s).text,
        4 => {
            let t = time_text(s).text;
            mutate(s, &t)
        }
        5 => interval_text(s).text,
        6 => {
            let t = interval_text(s).text;
            mutate(s, &t)
        }
        7 => iso_text(s).text,
        _ => {
            let t = iso_text(s).text;
            mutate(s, &t)
        }
    }
}

/// Any string at all.
pub fn any_string(s: &mut Src) -> String {
    let n = s.range(0, 40);
    let mut t = String::new();
    for _ in 0..n {
        match s.weighted(&[8, 3, 1, 1]) {
            0 => t.push((b' ' + s.below(95) as u8) as char),
            1 => t.push(*s.pick(&['0', '1', '2', '9', '-', ':', '.', '/', ' ', 'T', 'P'])),
            2 => t.push(char::from_u32(s.below(0x250) as u32).unwrap_or('a')),
            _ => t.push(char::from_u32(s.below(0x11_0000) as u32).unwrap_or('\u{fffd}')),
        }
    }
    t
}
