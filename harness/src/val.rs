//! Thin access to the library through its public API only.

pub use pgdatetime::{Date, DateOrder, DateStyle, DateTime, DateTimeError, DateUnit, FieldType, Interval, IntervalStyle, Time, Timestamp};

pub const STYLES: [DateStyle; 5] = [DateStyle::ISO, DateStyle::Postgres, DateStyle::SQL, DateStyle::German, DateStyle::XSD];
pub const ORDERS: [DateOrder; 3] = [DateOrder::YMD, DateOrder::DMY, DateOrder::MDY];
pub const ISTYLES: [IntervalStyle; 4] =
    [IntervalStyle::Postgres, IntervalStyle::PostgresVerbose, IntervalStyle::SQLStandard, IntervalStyle::ISO8601];
pub const UNITS: [DateUnit; 23] = [
    DateUnit::MicroSec,
    DateUnit::MilliSec,
    DateUnit::Second,
    DateUnit::Minute,
    DateUnit::Hour,
    DateUnit::Day,
    DateUnit::Week,
    DateUnit::Month,
    DateUnit::Quarter,
    DateUnit::Year,
    DateUnit::Decade,
    DateUnit::Century,
    DateUnit::Millennium,
    DateUnit::IsoYear,
    DateUnit::Dow,
    DateUnit::IsoDow,
    DateUnit::Doy,
    DateUnit::JULIAN,
    DateUnit::Epoch,
    DateUnit::Delta,
    DateUnit::Tz,
    DateUnit::TzMinute,
    DateUnit::TzHour,
];

pub fn date(v: i32) -> Date {
    Date::from(v)
}
pub fn dv(d: Date) -> i32 {
    d.into()
}
pub fn ts(v: i64) -> Timestamp {
    Timestamp::from(v)
}
pub fn tsv(t: Timestamp) -> i64 {
    t.into()
}
pub fn time(v: i64) -> Time {
    Time::from(v)
}
pub fn tv(t: Time) -> i64 {
    t.into()
}

/// Whether the binary form is (time, day, month), going by the value's own debug text.
/// Only when a change to the serializer breaks that are the slower detours below taken.
fn plain_layout() -> bool {
    use std::sync::OnceLock;
    static L: OnceLock<bool> = OnceLock::new();
    *L.get_or_init(|| {
        [(1i32, 2i32, 3i64), (-7, i32::MIN, i64::MAX), (i32::MAX, -9, -5)].iter().all(|&(m, d, t)| {
            let x: Result<Interval, _> = bincode::deserialize(&bytes(m, d, t));
            let y = x.as_ref().ok().and_then(|x| bincode::serialize(x).ok());
            let shown = x.map(|x| format!("{x:?}")).unwrap_or_default();
            match debug_fields(&shown) {
                Some(f) => f == (m, d, t) && y.as_deref() == Some(&bytes(m, d, t)[..]),
                None => true,
            }
        })
    })
}

fn bytes(m: i32, d: i32, t: i64) -> [u8; 16] {
    let mut b = [0u8; 16];
    b[..8].copy_from_slice(&t.to_le_bytes());
    b[8..12].copy_from_slice(&d.to_le_bytes());
    b[12..].copy_from_slice(&m.to_le_bytes());
    b
}

fn debug_fields(s: &str) -> Option<(i32, i32, i64)> {
    let get = |k: &str| -> Option<i64> {
        let i = s.find(&format!("{k}: "))? + k.len() + 2;
        let e = s[i..].find(|c: char| !(c == '-' || c.is_ascii_digit())).map_or(s.len(), |e| i + e);
        s[i..e].parse().ok()
    };
    Some((get("month")? as i32, get("day")? as i32, get("time")?))
}

/// An interval with exactly these fields.
pub fn iv(m: i32, d: i32, t: i64) -> Interval {
    if !plain_layout() {
        let md = Interval::try_from_ymwd_hms(0, m, 0, d, 0, 0, 0.0).expect("interval from months and days");
        return md.add_interval(Interval::from(Time::from(t))).expect("interval from its three fields");
    }
    bincode::deserialize(&bytes(m, d, t)).expect("interval from its three fields")
}

/// (months, days, microseconds).
pub fn fields(i: Interval) -> (i32, i32, i64) {
    if !plain_layout() {
        return debug_fields(&format!("{i:?}")).expect("interval's three fields");
    }
    let mut b = [0u8; 16];
    bincode::serialize_into(&mut b[..], &i).expect("interval to its three fields");
    (
        i32::from_le_bytes(b[12..].try_into().unwrap()),
        i32::from_le_bytes(b[8..12].try_into().unwrap()),
        i64::from_le_bytes(b[..8].try_into().unwrap()),
    )
}

pub fn ok<T>(r: Result<T, DateTimeError>, what: impl FnOnce() -> String) -> Result<T, crate::engine::Fail> {
    r.map_err(|e| crate::engine::Fail::from(format!("{}: refused: {e}", what())))
}
