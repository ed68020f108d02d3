//! Reference output text for intervals, in the four styles, written from PostgreSQL's rules.

use super::fmt::frac;
use pgdatetime::IntervalStyle;

/// The broken-down interval: every field carries its own sign.
#[derive(Debug, Clone, Copy)]
pub struct Parts {
    pub year: i64,
    pub mon: i64,
    pub day: i64,
    pub hour: i64,
    pub min: i64,
    pub sec: i64,
    pub us: i64,
}

pub fn parts(m: i32, d: i32, t: i64) -> Parts {
    Parts {
        year: m as i64 / 12,
        mon: m as i64 % 12,
        day: d as i64,
        hour: t / 3_600_000_000,
        min: t / 60_000_000 % 60,
        sec: t / 1_000_000 % 60,
        us: t % 1_000_000,
    }
}

pub fn displayable(t: i64) -> bool {
    let h = t / 3_600_000_000;
    h >= i32::MIN as i64 && h <= i32::MAX as i64
}

/// None: the interval has no text (hours exceed 32 bits).
pub fn format(m: i32, d: i32, t: i64, style: IntervalStyle) -> Option<String> {
    if !displayable(t) {
        return None;
    }
    let p = parts(m, d, t);
    Some(match style {
        IntervalStyle::Postgres => postgres(p),
        IntervalStyle::PostgresVerbose => verbose(p),
        IntervalStyle::SQLStandard => sql(p),
        IntervalStyle::ISO8601 => iso(p),
    })
}

fn secs2(p: &Parts) -> String {
    format!("{:02}{}", p.sec.abs(), frac(p.us.abs()))
}
fn secs1(p: &Parts) -> String {
    format!("{}{}", p.sec.abs(), frac(p.us.abs()))
}

fn postgres(p: Parts) -> String {
    let mut words: Vec<String> = vec![];
    let mut after_negative = false;
    for (v, u) in [(p.year, "year"), (p.mon, "mon"), (p.day, "day")] {
        if v != 0 {
            let plus = if after_negative && v > 0 { "+" } else { "" };
            words.push(format!("{plus}{v} {u}{}", if v == 1 { "" } else { "s" }));
            after_negative = v < 0;
        }
    }
    let neg = p.hour < 0 || p.min < 0 || p.sec < 0 || p.us < 0;
    let any = p.hour != 0 || p.min != 0 || p.sec != 0 || p.us != 0;
    if any || words.is_empty() {
        let sign = if neg { "-" } else if after_negative { "+" } else { "" };
        words.push(format!("{sign}{:02}:{:02}:{}", p.hour.abs(), p.min.abs(), secs2(&p)));
    }
    words.join(" ")
}

fn verbose(p: Parts) -> String {
    let mut out = String::from("@");
    let mut first = true;
    let mut ago = false;
    for (v, u) in [(p.year, "year"), (p.mon, "mon"), (p.day, "day"), (p.hour, "hour"), (p.min, "min")] {
        if v == 0 {
            continue;
        }
        if first {
            ago = v < 0;
            first = false;
        }
        let shown = if ago { -v } else { v };
        out += &format!(" {shown} {u}{}", if shown == 1 { "" } else { "s" });
    }
    if p.sec != 0 || p.us != 0 {
        let neg = p.sec < 0 || p.us < 0;
        if first {
            ago = neg;
            first = false;
        }
        let sign = if neg != ago { "-" } else { "" };
        let plural = if p.sec.abs() != 1 || p.us != 0 { "s" } else { "" };
        out += &format!(" {sign}{} sec{plural}", secs1(&p));
    }
    if first {
        out += " 0";
    }
    if ago {
        out += " ago";
    }
    out
}

fn sql(p: Parts) -> String {
    let all = [p.year, p.mon, p.day, p.hour, p.min, p.sec, p.us];
    let neg = all.iter().any(|&v| v < 0);
    let pos = all.iter().any(|&v| v > 0);
    let ym = p.year != 0 || p.mon != 0;
    let dt = all[2..].iter().any(|&v| v != 0);
    let clock_neg = all[3..].iter().any(|&v| v < 0);
    if !neg && !pos {
        return "0".into();
    }
    let clock = format!("{}:{:02}:{}", p.hour.abs(), p.min.abs(), secs2(&p));
    if (neg && pos) || (ym && dt) {
        let s = |b: bool| if b { '-' } else { '+' };
        return format!(
            "{}{}-{} {}{} {}{}",
            s(p.year < 0 || p.mon < 0),
            p.year.abs(),
            p.mon.abs(),
            s(p.day < 0),
            p.day.abs(),
            s(clock_neg),
            clock
        );
    }
    let sign = if neg { "-" } else { "" };
    if ym {
        format!("{sign}{}-{}", p.year.abs(), p.mon.abs())
    } else if p.day != 0 {
        format!("{sign}{} {clock}", p.day.abs())
    } else {
        format!("{sign}{clock}")
    }
}

fn iso(p: Parts) -> String {
    let mut s = String::from("P");
    for (v, u) in [(p.year, 'Y'), (p.mon, 'M'), (p.day, 'D')] {
        if v != 0 {
            s += &format!("{v}{u}");
        }
    }
    if p.hour != 0 || p.min != 0 || p.sec != 0 || p.us != 0 {
        s.push('T');
    }
    for (v, u) in [(p.hour, 'H'), (p.min, 'M')] {
        if v != 0 {
            s += &format!("{v}{u}");
        }
    }
    if p.sec != 0 || p.us != 0 {
        if p.sec < 0 || p.us < 0 {
            s.push('-');
        }
        s += &format!("{}S", secs1(&p));
    }
    if s == "P" {
        s = "PT0S".into();
    }
    s
}
