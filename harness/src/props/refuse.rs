//! C12: texts that spell no valid value.

use crate::engine::*;
use crate::gen;
use crate::model::cal::*;
use crate::model::parse as reference;
use crate::props::robust::*;
use crate::textgen::*;
use crate::val::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C12",
        rule: "A case is a text made invalid in one named way, with the parser and order it is meant for. In the ungrammatical sub-check a case is a damaged notation or token soup, non-trivial when the reference grammar refuses it for some type; elsewhere every case is non-trivial.",
        assumptions: &["Leniencies of the PostgreSQL grammar (punctuation is ignored, a weekday need not match its date, a clock may end in a colon) are not counted as invalid."],
        subs: vec![random("moments", moments, 2_500_000), random("no-date", no_date, 300_000), random("times", times, 1_500_000), random("intervals", intervals, 2_000_000), random("ungrammatical", ungrammatical, 900_000)],
    }]
}

fn n2(v: i64) -> String {
    format!("{v:02}")
}

fn ymd(s: &mut Src, or: DateOrder, y: i64, m: i64, d: i64) -> (String, DateOrder) {
    // y >= 100
    match s.below(7) {
        0 => {
            let sep = *s.pick(&["-", "/", "."]);
            (format!("{y:04}{sep}{m}{sep}{d}"), or)
        }
        1 => (format!("{y:04}{m:02}{d:02}"), or),
        2 => (format!("y{y}m{m}d{d}"), or),
        3 => {
            let sep = *s.pick(&["-", "/", "."]);
            if s.bool() { (format!("{m:02}{sep}{d:02}{sep}{y:04}"), DateOrder::MDY) } else { (format!("{d:02}{sep}{m:02}{sep}{y:04}"), DateOrder::DMY) }
        }
        4 => (format!("{y:04} {m} {d}"), or),
        _ => (format!("{y:04}-{m:02}-{d:02}"), or),
    }
}

fn good_date(s: &mut Src) -> (i64, i64, i64) {
    let day = gen::date_ts(s) as i64;
    let (y, m, d) = civil(day);
    if (100..=9999).contains(&y) { (y, m, d) } else { (s.range(1000, 3000), m, d.min(28)) }
}

fn good_text(s: &mut Src) -> (String, DateOrder) {
    let (y, m, d) = good_date(s);
    let or = *s.pick(&ORDERS);
    ymd(s, or, y, m, d)
}

fn good_clock(s: &mut Src) -> String {
    let (h, m, sec, us) = hms(gen::tod(s));
    match s.below(3) {
        0 => format!("{h:02}:{m:02}"),
        1 => format!("{h:02}:{m:02}:{sec:02}"),
        _ => format!("{h:02}:{m:02}:{sec:02}.{us:06}"),
    }
}

/// A number too large for its field whose low bits are the given valid value.
fn wrapped(s: &mut Src, v: i64) -> i64 {
    let b = *s.pick(&[7u32, 8, 8, 15, 16, 31, 32, 32, 33]);
    v + (s.range(1, 3) << b)
}

/// A clock with a field out of range.
fn bad_clock(s: &mut Src) -> (String, &'static str) {
    let (h, m, sec, us) = hms(gen::tod(s));
    match s.below(11) {
        10 => {
            let t = match s.below(3) {
                0 => format!("{}:{m:02}:{sec:02}", wrapped(s, h)),
                1 => format!("{h:02}:{}:{sec:02}", wrapped(s, m)),
                _ => format!("{h:02}:{m:02}:{}", wrapped(s, sec)),
            };
            (t, "a field past its range by a power of two")
        }
        9 => (format!("{h:02}:{m:02}:{sec:02}:{:02}", s.range(0, 99)), "a fourth clock part"),
        0 => (format!("{}:{m:02}:{sec:02}", s.range(25, 99)), "hour above 24"),
        1 => (format!("24:{:02}:{:02}", s.range(0, 59), s.range(1, 59)), "past 24:00:00"),
        2 => (format!("24:00:00.{:06}", s.range(1, 999_999)), "past 24:00:00"),
        3 => (format!("{h:02}:{}:{sec:02}", s.range(60, 99)), "minute above 59"),
        4 => (format!("{h:02}:{m:02}:{}", s.range(61, 99)), "second above 60"),
        5 => (format!("{:02}:{m:02}:{sec:02} {}", s.range(13, 23), if s.bool() { "PM" } else { "AM" }), "AM or PM after 12 o'clock"),
        6 => (format!("{h:02}{:02}{sec:02}", s.range(60, 99)), "run-together minute above 59"),
        7 => (format!("{}{m:02}{sec:02}", s.range(25, 99)), "run-together hour above 24"),
        _ => (format!("{h:02}:{m:02}:{sec:02}.{us:06}{}", n2(s.range(0, 99))), "more than seven fraction digits"),
    }
}

fn unknown_word(s: &mut Src) -> String {
    loop {
        let n = s.range(1, 12) as usize;
        let base = match s.below(5) {
            // near misses of known words
            0 => {
                let m = s.range(0, 11) as usize;
                let w = *s.pick(MONTH_NAMES[m]);
                let w = w.to_ascii_lowercase();
                if s.bool() { w[..w.len() - 1].to_string() } else { format!("{w}x") }
            }
            1 => {
                let d = s.range(0, 6) as usize;
                let w = *s.pick(WEEKDAY_NAMES[d]);
                format!("{}{}", w.to_ascii_lowercase(), (b'a' + s.below(26) as u8) as char)
            }
            2 => s.pick(&["bce", "ce", "amm", "pmm", "noon", "midnight", "o", "clock", "th", "st", "nd", "of", "the", "doyy", "infinit", "infinites", "tt"]).to_string(),
            _ => (0..n).map(|_| (b'a' + s.below(26) as u8) as char).collect(),
        };
        if !base.is_empty() && reference::word(&base) == reference::Word::Unknown {
            return recase(s, &base);
        }
        if n == 1 {
            return "xyzzy".into();
        }
    }
}

fn zone(s: &mut Src) -> String {
    match s.below(6) {
        0 => format!("+{:02}", s.range(0, 14)),
        1 => format!("-{:02}:{:02}", s.range(0, 14), s.range(0, 59)),
        2 => format!("+{:02}{:02}", s.range(0, 14), s.range(0, 59)),
        3 => format!(" {}", s.pick(&["UTC", "GMT", "Z", "EST", "PST", "PDT", "CET", "CEST", "JST", "MSK", "zulu", "utc", "z"])),
        4 => format!(" {}", s.pick(&["America/New_York", "Europe/Paris", "Asia/Tokyo", "Etc/GMT+5"])),
        _ => format!(" GMT{}{}", s.pick(&["+", "-"]), s.range(1, 12)),
    }
}

fn bad_moment(s: &mut Src) -> (String, DateOrder, &'static str) {
    let (y, m, d) = good_date(s);
    let or = *s.pick(&ORDERS);
    match s.below(20) {
        0 => {
            let mm = *s.pick(&[0i64, 13, 14, 19, 20, 31, 99]);
            let (t, or) = ymd(s, or, y, mm, d.min(28));
            (t, or, "month outside 1..12")
        }
        1 => {
            let len = month_len(y, m);
            let dd = match s.below(3) {
                0 => len + 1,
                1 => s.range(32, 99),
                _ => 0,
            };
            let (t, or) = ymd(s, or, y, m, dd);
            (t, or, "day the month does not have")
        }
        2 => {
            let mo = *s.pick(&[2i64, 4, 6, 9, 11]);
            let dd = month_len(y, mo) + 1;
            let name = *s.pick(MONTH_NAMES[mo as usize - 1]);
            let t = match s.below(3) {
                0 => format!("{dd}-{name}-{y:04}"),
                1 => format!("{name} {dd} {y:04}"),
                _ => format!("{y:04}-{name}-{dd}"),
            };
            (t, or, "day the named month does not have")
        }
        3 => {
            let t = match s.below(5) {
                0 => format!("0000-{m:02}-{d:02}"),
                1 => format!("0000-{m:02}-{d:02} BC"),
                2 => format!("0000{m:02}{d:02}"),
                3 => format!("{d}-{}-0000", MONTH_NAMES[m as usize - 1][0]),
                _ => format!("y0m{m}d{d}"),
            };
            (t, or, "year 0")
        }
        4 => {
            let n = match s.below(3) {
                0 => year_len(y) + 1,
                1 => s.range(367, 999),
                _ => 0,
            };
            let sep = *s.pick(&[".", "-", "/", " "]);
            (format!("{y:04}{sep}{n:03}"), or, "day the year does not have")
        }
        5 => {
            let (c, why) = bad_clock(s);
            let (t, or) = good_text(s);
            let sep = *s.pick(&[" ", " ", "T"]);
            (format!("{t}{sep}{c}"), or, why)
        }
        6 => {
            let (a, or) = good_text(s);
            let b = if s.bool() { a.clone() } else { format!("{y:04}-{m:02}-{d:02}") };
            (format!("{a} {b}"), or, "two dates")
        }
        7 => {
            let (t, or) = good_text(s);
            let c = good_clock(s);
            let c2 = good_clock(s);
            (format!("{t} {c} {c2}"), or, "two times")
        }
        8 => {
            let (t, or) = good_text(s);
            let c = good_clock(s);
            let w = *s.pick(&["AM PM", "PM PM", "BC BC", "AD BC", "Mon Tue", "Fri Fri", "allballs", "infinity infinity"]);
            if w.starts_with("infinity") { (w.to_string(), or, "a repeated word") } else { (format!("{t} {c} {w}"), or, "a repeated field") }
        }
        9 => {
            let n = MONTH_NAMES[m as usize - 1][0];
            let n2 = MONTH_NAMES[(m as usize) % 12][0];
            (format!("{n} {n2} {} {y:04}", d.min(28)), or, "two months")
        }
        10 => {
            let t = match s.below(4) {
                0 => format!("y{y}m{m}d{d}y{y}"),
                1 => format!("y{y}m{m}d{d}d{d}"),
                2 => format!("J2451187 J2451187"),
                _ => format!("y{y}m{m}d{d}h4h5"),
            };
            (t, or, "a repeated labelled field")
        }
        11 => {
            let n = MONTH_NAMES[m as usize - 1][0];
            let t = match s.below(16) {
                0 => String::new(),
                1 => " ".into(),
                2 => format!("{y:04}-{m:02}"),
                3 => format!("{n} {y:04}"),
                4 => format!("{n} {d}"),
                5 => format!("{y:04}"),
                6 => format!("{d}"),
                7 => "BC".into(),
                8 => "PM".into(),
                9 => "Friday".into(),
                10 => "at".into(),
                11 => format!("y{y}m{m}"),
                12 => s.pick(&["J", "T", "y", "d", "julian", "h"]).to_string(),
                13 => format!("{n} {d} 04:05"),
                14 => format!("Fri {n} {d}"),
                _ => s.pick(&[",", "-", "+", "/", "@", ".", ":", "\t"]).to_string(),
            };
            (t, or, "missing fields")
        }
        12 => {
            let (t, or) = good_text(s);
            let w = unknown_word(s);
            let t = if s.bool() { format!("{t} {w}") } else { format!("{w} {t}") };
            (t, or, "an unknown word")
        }
        13 => {
            let (t, or) = good_text(s);
            let c = good_clock(s);
            (format!("{t} {c}{}", zone(s)), or, "a time zone")
        }
        14 | 15 => {
            // past the ends of every type
            let t = match s.below(5) {
                0 => format!("4714-11-{:02} BC", s.range(1, 23)),
                1 => format!("{:04}-{m:02}-{d:02} BC", s.range(4715, 9_999_999)),
                2 => format!("{}-{m:02}-{:02}", s.range(5_874_898, 99_999_999), d.min(28)),
                3 => format!("J{}", s.range(2_147_483_494, i32::MAX as i64)),
                _ => format!("{}{m:02}{:02}", s.range(5_874_898, 9_999_999), d.min(28)),
            };
            (t, or, "before or after the supported range")
        }
        16 => {
            let (t, or) = good_text(s);
            let c = *s.pick(&["x", " x", "é", "\u{1}", " +", " -", " ٣", "\u{a0}", "\u{7f}", "q", " =5x", "’"]);
            (format!("{t}{c}"), or, "stray characters")
        }
        17 => {
            let (t, or) = good_text(s);
            let c = good_clock(s);
            let x = match s.below(4) {
                0 => s.range(0, 9999).to_string(),
                1 => format!("{:06}", s.range(0, 999_999)),
                2 => format!("{}.5", s.range(0, 99)),
                _ => good_clock(s),
            };
            (format!("{t} {c} {x}"), or, "a trailing number")
        }
        18 => {
            let t = match s.below(8) {
                4 => format!("{y:04}-{}-{d:02}", wrapped(s, m)),
                5 => format!("{y:04}-{m:02}-{}", wrapped(s, d)),
                6 => format!("J{}", wrapped(s, 2_451_187).max(2_147_483_494)),
                7 => format!("{}-{m:02}-{d:02}", wrapped(s, y).max(10_000_000)),
                0 => format!("{y}{}-01-01", "0".repeat(s.range(8, 20) as usize)),
                1 => format!("{:011}-01-01", y),
                2 => format!("J{}", "9".repeat(s.range(10, 30) as usize)),
                _ => format!("y{}m1d1", "1".repeat(s.range(10, 30) as usize)),
            };
            (t, or, "a number too large")
        }
        _ => {
            let t = s.pick(&["now", "today", "tomorrow", "yesterday", "current", "invalid", "undefined", "epoch", "now 04:05", "today 04:05"]).to_string();
            (recase(s, &t), or, "a word for no fixed value")
        }
    }
}

fn moments(s: &mut Src, o: &mut Obs) -> R {
    let (t, or, why) = bad_moment(s);
    o.case(true, (&t, or as u8), || format!("{t:?} under {or:?}: {why}"));
    o.label(why);
    let r = Date::try_from_str(&t, or).map(dv);
    // a date ignores the time of day it stands next to only if that is valid
    ensure!(r.is_err(), "date {t:?} under {or:?} has {why}; read {r:?}");
    let r = Timestamp::try_from_str(&t, -1, or).map(tsv);
    ensure!(r.is_err(), "timestamp {t:?} under {or:?} has {why}; read {r:?}");
    Ok(())
}

/// A time of day with no date, for the types that need one; and dates only a date can hold.
fn no_date(s: &mut Src, o: &mut Obs) -> R {
    let or = *s.pick(&ORDERS);
    let t = match s.below(2) {
        0 => format!("{}-01-01", s.range(294_277, 5_874_897)),
        _ => "294276-12-31 24:00:00".to_string(),
    };
    let c = good_clock(s);
    o.case(true, (&t, &c), || format!("{t:?}, {c:?}"));
    let r = Timestamp::try_from_str(&t, -1, or).map(tsv);
    ensure!(r.is_err(), "timestamp {t:?} is past the supported range; read {r:?}");
    let r = Date::try_from_str(&c, or).map(dv);
    ensure!(r.is_err(), "date {c:?} under {or:?} has no date; read {r:?}");
    if let Ok(v) = Timestamp::try_from_str(&c, -1, or).map(tsv) {
        let mut f = Fail::from(format!("timestamp {c:?} under {or:?} has no date; read {v}"));
        if reference::dateless(&c, or) == Some(v) {
            f.fingerprint = Some(DATELESS.into());
        }
        return Err(f);
    }
    Ok(())
}

fn bad_time(s: &mut Src) -> (String, &'static str) {
    match s.below(10) {
        0 | 1 => bad_clock(s),
        2 => {
            let c = good_clock(s);
            let c2 = good_clock(s);
            (format!("{c} {c2}"), "two times")
        }
        3 => {
            let t = *s.pick(&["", " ", "AM", "T", "12", "5", "h", "at", "on", "1999-01-08", "y1999m1d8", "J2451187", "BC", "123", "12345", ",", ":", ".", "-", "h4 h5", "mm"]);
            (t.to_string(), "missing fields")
        }
        4 => {
            let c = good_clock(s);
            let w = unknown_word(s);
            (if s.bool() { format!("{c} {w}") } else { format!("{w} {c}") }, "an unknown word")
        }
        5 => {
            let c = good_clock(s);
            (format!("{c}{}", zone(s)), "a time zone")
        }
        6 => {
            let c = good_clock(s);
            let x = *s.pick(&["x", " x", "é", "\u{1}", " +", " -", "\u{a0}", " AM PM", " 5", " 0506", " 050607", " allballs", "t"]);
            (format!("{c}{x}"), "stray or repeated parts")
        }
        7 => {
            let t = *s.pick(&["infinity", "-infinity", "now", "today", "tomorrow", "current", "invalid", "epoch", "Monday", "January"]);
            (recase(s, t), "a word that is no time")
        }
        8 => {
            let t = match s.below(4) {
                0 => format!("{}:00:00", "1".repeat(s.range(3, 20) as usize)),
                1 => format!("h{}mm0s0.5", s.range(25, 99)),
                2 => format!("h4mm{}s0.5", s.range(60, 999)),
                _ => format!("h4mm5s{}.5", s.range(61, 999)),
            };
            (t, "a labelled or long field out of range")
        }
        _ => {
            let t = match s.below(4) {
                0 => format!("T{:02}{:02}", s.range(25, 99), s.range(0, 59)),
                1 => format!("T{:02}{:02}", s.range(0, 23), s.range(60, 99)),
                2 => format!("{:02}{:02}{:02}", s.range(0, 23), s.range(0, 59), s.range(61, 99)),
                _ => format!("{:02}:{:02}:{:02}.{:07}{}", s.range(0, 23), s.range(0, 59), s.range(0, 59), s.range(0, 9_999_999), s.range(0, 99)),
            };
            (t, "a run-together or fraction field out of range")
        }
    }
}

fn times(s: &mut Src, o: &mut Obs) -> R {
    let (t, why) = bad_time(s);
    let or = *s.pick(&ORDERS);
    o.case(true, (&t, or as u8), || format!("{t:?} under {or:?}: {why}"));
    o.label(why);
    let r = Time::try_from_str(&t, -1, or).map(tv);
    ensure!(r.is_err(), "time {t:?} under {or:?} has {why}; read {r:?}");
    Ok(())
}

const UNITS_ONE: [&str; 8] = ["year", "mon", "week", "day", "hour", "min", "sec", "decade"];

/// A number of up to ten digits above the 32-bit range, often by little or at a power of two.
fn past_32_bits(s: &mut Src) -> i64 {
    let lo = i32::MAX as i64 + 1;
    match s.below(4) {
        0 => lo + s.range(0, 3),
        1 => (1 << 32) + s.range(-2, 2),
        2 => (1 << 33) + s.range(-2, 2),
        _ => s.range(lo, 9_999_999_998),
    }
}

fn bad_interval(s: &mut Src) -> (String, &'static str) {
    let n = s.range(0, 100);
    let k = s.range(0, 100);
    let u = *s.pick(&UNITS_ONE);
    match s.below(16) {
        0 => {
            let t = match s.below(6) {
                0 => u.to_string(),
                1 => "ago".into(),
                2 => format!("{u} ago"),
                3 => format!("@ {u}"),
                4 => format!("{n} ago"),
                _ => s.pick(&["", " ", "@", ",", "-", "+", ".", "\t", "-.", "@ @", "@ ago"]).to_string(),
            };
            (t, "missing fields")
        }
        1 => (format!("{n} {u} {k} {u}"), "a repeated unit"),
        2 => (format!("{n} {k}"), "two bare numbers"),
        3 => {
            let (a, b, _) = (good_clock(s), good_clock(s), ());
            (format!("{a} {b}"), "two clocks")
        }
        4 => {
            let w = loop {
                let w = unknown_word(s).to_ascii_lowercase();
                let cut = &w[..w.len().min(10)];
                let known = reference::UNIT_WORDS.iter().any(|(_, ws)| ws.contains(&cut));
                if !known && !["ago", "p", "quarter", "qtr"].contains(&cut) && !cut.starts_with("timezone") {
                    break w;
                }
            };
            (if s.bool() { format!("{n} {w}") } else { format!("{n} {u} {w}") }, "an unknown word")
        }
        5 => (format!("{:02}:{}:00", s.range(0, 50), s.range(60, 99)), "minute above 59"),
        6 => match s.below(4) {
            0 => (format!("{:02}:{}:{:02}", s.range(0, 50), wrapped(s, k % 60), s.range(0, 59)), "minute above 59"),
            1 => (format!("{:02}:{:02}:{}", s.range(0, 50), s.range(0, 59), wrapped(s, k % 60)), "second above 60"),
            _ => (format!("{:02}:{:02}:{}", s.range(0, 50), s.range(0, 59), s.range(61, 99)), "second above 60"),
        },
        7 => (format!("{n}-{}", s.range(12, 99)), "more than eleven months"),
        8 => (format!("{n}-1-{k}"), "a date"),
        9 => {
            let big = past_32_bits(s);
            let sign = if s.bool() { "-" } else { "" };
            let big = if sign == "-" { big + 1 } else { big };
            let fr = *s.pick(&["", "", ".", ".0", ".5", ".25"]);
            (format!("{sign}{big}{fr} {u}"), "a number past 32 bits")
        }
        10 => {
            let t = match s.below(6) {
                0 => format!("{} years", s.range(178_956_971, i32::MAX as i64)),
                1 => format!("{} weeks", s.range(306_783_379, i32::MAX as i64)),
                2 => format!("{} decades", s.range(17_895_698, i32::MAX as i64)),
                3 => format!("{} centuries", s.range(1_789_570, i32::MAX as i64)),
                4 => format!("{} millennia", s.range(178_957, i32::MAX as i64)),
                _ => format!("{} mons {} years", s.range(i32::MAX as i64 - 11, i32::MAX as i64), s.range(1, 1000)),
            };
            (t, "a sum past 32 bits")
        }
        11 => {
            let t = match s.below(3) {
                0 => format!("1.{} {u}", "3".repeat(s.range(8, 20) as usize)),
                1 => format!("{}1 {u}", "1".repeat(s.range(10, 30) as usize)),
                _ => format!("04:05:06.{}", "1".repeat(s.range(8, 20) as usize)),
            };
            (t, "too many digits")
        }
        12 => {
            let x = *s.pick(&["x", "é", "\u{1}", " +", " -", "\u{a0}", " +-", "\u{7f}", " 5 x"]);
            (format!("{n} {u}{x}"), "stray characters")
        }
        13 => {
            let t = *s.pick(&["infinity", "-infinity", "now", "1 january", "1 monday", "1 am", "1 bc", "1 utc", "1 quarter", "2 qtr", "1 timezone", "1 day infinity", "1 dow", "1 julian"]);
            (recase(s, t), "a word that is no unit")
        }
        14 => {
            let t = match s.below(12) {
                0 => "P".to_string(),
                1 => format!("P{n}S"),
                2 => format!("PT{n}D"),
                3 => format!("PT{n}Y"),
                4 => format!("PT{n}W"),
                5 => format!("P{n}H"),
                6 => format!("p{n}y"),
                7 => format!("P{n}Y{k}"),
                8 => format!("PT{n}H{k}"),
                9 => format!("P{n} Y"),
                10 => format!("P{n}Y {k}M"),
                _ => format!("P{n}Q"),
            };
            (t, "a malformed ISO 8601 duration")
        }
        _ => {
            let t = match s.below(14) {
                8 => format!("P{n}Y{:08}", s.range(0, 99_999_999)),
                9 => format!("PT{n}H{:06}", s.range(0, 999_999)),
                10 => format!("P{n}Y{k}-2-3"),
                11 => format!("PT{n}H{k}:2:3"),
                12 => format!("P{n}D{:08}T1H", s.range(0, 99_999_999)),
                0 => format!("P1.2.{n}Y"),
                1 => format!("P--{n}Y"),
                2 => format!("P1-2-3-{n}"),
                3 => format!("PT1:2:3:{n}"),
                4 => format!("P{n}Y-"),
                5 => {
                    let (t, d) = *s.pick(&[("", 'Y'), ("", 'M'), ("", 'W'), ("", 'D'), ("T", 'H'), ("T", 'M'), ("T", 'S')]);
                    let fr = *s.pick(&["", "", ".", ".0", ".5"]);
                    format!("P{t}{}{fr}{d}", past_32_bits(s))
                }
                6 => format!("P{}Y", "1".repeat(s.range(11, 30) as usize)),
                7 => format!("P0.{}Y", "1".repeat(s.range(8, 30) as usize)),
                _ => format!("P{n}Y{k}é"),
            };
            (t, "a malformed ISO 8601 duration")
        }
    }
}

fn intervals(s: &mut Src, o: &mut Obs) -> R {
    let (t, why) = bad_interval(s);
    let st = *s.pick(&ISTYLES);
    o.case(true, (&t, st as u8), || format!("{t:?} under {st:?}: {why}"));
    o.label(why);
    let r = Interval::try_from_str(&t, -1, st).map(fields);
    ensure!(r.is_err(), "interval {t:?} under {st:?} has {why}; read {r:?}");
    Ok(())
}

/// A damaged notation, or token soup, which the reference grammar (see C14) refuses.
fn ungrammatical(s: &mut Src, o: &mut Obs) -> R {
    let which = s.below(4);
    let t = match which {
        0 => vary(s, |s| moment(s, false).text),
        1 => vary(s, |s| time_text(s).text),
        2 => vary(s, |s| interval_text(s).text),
        _ => {
            let t = iso_text(s).text;
            mutate(s, &t)
        }
    };
    let (or, st) = (*s.pick(&ORDERS), *s.pick(&ISTYLES));
    let mut n = 0;
    let mut known = None;
    if which < 2 {
        if reference::date(&t, or) == reference::Ref::Err {
            n += 1;
            diff_date(&t, or)?;
        }
        if reference::time(&t, or) == reference::Ref::Err {
            n += 1;
            diff_time(&t, or)?;
        }
        if reference::timestamp(&t, or) == reference::Ref::Err {
            n += 1;
            match diff_timestamp(&t, or) {
                Err(f) if f.fingerprint.is_some() => known = Some(f),
                r => {
                    r?;
                }
            }
        }
    } else if matches!(reference::interval(&t, reference::range::FULL, st), reference::Ref::Err) {
        n += 1;
        diff_interval(&t, st)?;
    }
    o.case(n > 0, (&t, or as u8, st as u8), || format!("{t:?} under {or:?}, {st:?}, refused for {n} types"));
    match known {
        Some(f) => Err(f),
        None => Ok(()),
    }
}
