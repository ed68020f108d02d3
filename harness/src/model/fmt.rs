//! Reference output text for dates, times and timestamps.

use super::cal::*;
use pgdatetime::{DateOrder, DateStyle};

pub const MONTHS: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
pub const WDAYS: [&str; 7] = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"];

pub fn frac(us: i64) -> String {
    if us == 0 {
        return String::new();
    }
    let s = format!(".{us:06}");
    s.trim_end_matches('0').to_string()
}

pub fn time(t: i64) -> String {
    let (h, m, s, us) = hms(t);
    format!("{h:02}:{m:02}:{s:02}{}", frac(us))
}

fn year(y: i64) -> (i64, &'static str) {
    if y > 0 { (y, "") } else { (1 - y, " BC") }
}

pub fn date(n: i32, style: DateStyle, order: DateOrder) -> String {
    if n == i32::MIN {
        return "-infinity".into();
    }
    if n == i32::MAX {
        return "infinity".into();
    }
    let (y, m, d) = civil(n as i64);
    let (y, bc) = year(y);
    let dmy = order == DateOrder::DMY;
    match style {
        DateStyle::ISO | DateStyle::XSD => format!("{y:04}-{m:02}-{d:02}{bc}"),
        DateStyle::SQL if dmy => format!("{d:02}/{m:02}/{y:04}{bc}"),
        DateStyle::SQL => format!("{m:02}/{d:02}/{y:04}{bc}"),
        DateStyle::German => format!("{d:02}.{m:02}.{y:04}{bc}"),
        DateStyle::Postgres if dmy => format!("{d:02}-{m:02}-{y:04}{bc}"),
        DateStyle::Postgres => format!("{m:02}.{d:02}.{y:04}{bc}"),
    }
}

pub fn timestamp(t: i64, style: DateStyle, order: DateOrder) -> String {
    if t == i64::MIN {
        return "-infinity".into();
    }
    if t == i64::MAX {
        return "infinity".into();
    }
    let c = split(t);
    let (y, bc) = year(c.y);
    let (m, d) = (c.m, c.d);
    let clock = format!("{:02}:{:02}:{:02}{}", c.h, c.mi, c.s, frac(c.us));
    let dmy = order == DateOrder::DMY;
    match style {
        DateStyle::ISO => format!("{y:04}-{m:02}-{d:02} {clock}{bc}"),
        DateStyle::XSD => format!("{y:04}-{m:02}-{d:02}T{clock}{bc}"),
        DateStyle::SQL if dmy => format!("{d:02}/{m:02}/{y:04} {clock}{bc}"),
        DateStyle::SQL => format!("{m:02}/{d:02}/{y:04} {clock}{bc}"),
        DateStyle::German => format!("{d:02}.{m:02}.{y:04} {clock}{bc}"),
        DateStyle::Postgres => {
            let w = WDAYS[dow(c.day) as usize];
            let mon = MONTHS[m as usize - 1];
            if dmy {
                format!("{w} {d:02} {mon} {clock} {y:04}{bc}")
            } else {
                format!("{w} {mon} {d:02} {clock} {y:04}{bc}")
            }
        }
    }
}

/// Field order in which a style's output is to be read back.
pub fn read_orders(style: DateStyle, order: DateOrder, timestamp: bool) -> &'static [DateOrder] {
    use DateOrder::*;
    match style {
        DateStyle::ISO | DateStyle::XSD => &[YMD, DMY, MDY],
        DateStyle::SQL if order == DMY => &[DMY],
        DateStyle::SQL => &[MDY],
        DateStyle::German => &[DMY],
        DateStyle::Postgres if timestamp => match order {
            DMY => &[DMY],
            MDY => &[MDY],
            YMD => &[MDY, YMD],
        },
        DateStyle::Postgres if order == DMY => &[DMY],
        DateStyle::Postgres => &[MDY],
    }
}
