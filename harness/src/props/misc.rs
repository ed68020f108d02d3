//! C31 infinities, C32 serialization, C33 numeric constructors.

use crate::engine::*;
use crate::gen;
use crate::model::{cal::*, fmt, ivtext};
use crate::val::*;
use crate::wire::{Reader, Rec, Wire};
use serde::{Deserialize, Serialize};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C31",
            rule: "A case is either an infinite date or timestamp put through every operation with generated arguments and spellings, or finite operands put through every operation to see that no infinity or out-of-range value results. Non-trivial: an infinity is involved, or a finite operand lies within a year of a range end or the argument exceeds 2^31.",
            assumptions: &[],
            subs: vec![random("infinite", inf_ops, 1_000_000), random("spellings", inf_text, 300_000), random("finite-closure", finite_ops, 3_000_000)],
        },
        Prop {
            id: "C32",
            rule: "A case is a value serialized to JSON, RON, bincode, CBOR (two implementations, with named and with numbered fields) and a binary format with named fields (read back as a sequence, and as a map in any field order, with fields dropped, repeated or renamed), alone or inside derived structures (nested, optional, flattened, tagged, untagged), or an integer, an arbitrary JSON document or byte string deserialized. Non-trivial: the value has a sub-unit part, is BC or infinite, or (interval) has at least two fields or a sign; for malformed input: every case.",
            assumptions: &["Intervals with a day or hour count at the 32-bit minimum are excluded from the text round trip (no notation can spell it)."],
            subs: vec![
                random("values", ser_values, 1_000_000),
                random("structs", ser_struct, 400_000),
                random("json-text", ser_text, 1_000_000),
                random("named-fields", ser_named, 400_000),
                random("malformed", ser_malformed, 600_000),
                random("formats", ser_formats, 300_000),
                random("records", ser_records, 60_000),
            ],
        },
        Prop {
            id: "C33",
            rule: "A case is a tuple of numeric fields given to the three constructors. Non-trivial: a fraction of a second, a field at or outside its limit, or a refusal.",
            assumptions: &["Interval sums whose fields do not fit their types are not constrained (the library documents no limit and its tests fix wrapping)."],
            subs: vec![random("times", ctor_time, 2_500_000), random("timestamps", ctor_ts, 2_500_000), random("intervals", ctor_iv, 2_500_000)],
        },
    ]
}

// ---------------------------------------------------------------- C31

fn inf_ops(s: &mut Src, o: &mut Obs) -> R {
    let neg = s.bool();
    let (d, t) = if neg { (date(i32::MIN), ts(i64::MIN)) } else { (date(i32::MAX), ts(i64::MAX)) };
    let f = gen::interval(s);
    let tm = gen::time(s);
    let k = gen::i32s(s);
    let fd = if s.one_in(8) { *s.pick(&[i32::MIN, i32::MAX]) } else { gen::date(s) };
    let ft = if s.one_in(8) { *s.pick(&[i64::MIN, i64::MAX]) } else { gen::ts(s) };
    o.case(true, (neg, f, tm, k, fd, ft), || format!("{}infinity with interval {f:?}, time {tm}, days {k}, date {fd}, timestamp {ft}", if neg { "-" } else { "" }));
    let x = iv(f.0, f.1, f.2);
    let word = if neg { "-infinity" } else { "infinity" };
    ensure!(d.is_infinite() && !d.is_finite(), "{word} date: is_infinite {} is_finite {}", d.is_infinite(), d.is_finite());
    ensure!(t.is_infinite() && !t.is_finite(), "{word} timestamp: is_infinite {} is_finite {}", t.is_infinite(), t.is_finite());
    let st = *s.pick(&STYLES);
    let or = *s.pick(&ORDERS);
    let a = d.format(st, or);
    ensure!(a.as_deref() == Ok(word), "{word} date formats as {a:?} under {st:?} {or:?}");
    let a = t.format(st, or);
    ensure!(a.as_deref() == Ok(word), "{word} timestamp formats as {a:?} under {st:?} {or:?}");

    macro_rules! same {
        ($e:expr, $want:expr, $what:expr) => {{
            let r = $e;
            ensure!(r == Ok($want), "{word} {} = {r:?}, want {word}", $what);
        }};
    }
    same!(d.add_days(k), d, format!("date + {k} days"));
    same!(d.sub_days(k), d, format!("date - {k} days"));
    same!(d.add_time(time(tm)), t, format!("date + time {tm}"));
    same!(d.add_interval(x), t, format!("date + interval {f:?}"));
    same!(t.add_time(time(tm)), t, format!("timestamp + time {tm}"));
    same!(t.sub_time(time(tm)), t, format!("timestamp - time {tm}"));
    same!(t.add_interval(x), t, format!("timestamp + interval {f:?}"));
    same!(d.sub_interval(x), t, format!("date - interval {f:?}"));
    same!(t.sub_interval(x), t, format!("timestamp - interval {f:?}"));
    macro_rules! refused {
        ($e:expr, $what:expr) => {{
            let r = $e;
            ensure!(r.is_err(), "{} = {r:?}, want an error", $what);
        }};
    }
    refused!(d.sub_date(date(fd)), format!("{word} date - date {fd}"));
    refused!(date(fd).sub_date(d), format!("date {fd} - {word} date"));
    refused!(t.sub_timestamp(ts(ft)), format!("{word} timestamp - timestamp {ft}"));
    refused!(ts(ft).sub_timestamp(t), format!("timestamp {ft} - {word} timestamp"));
    refused!(t.sub_date(date(fd)), format!("{word} timestamp - date {fd}"));
    refused!(ts(ft).sub_date(d), format!("timestamp {ft} - {word} date"));
    refused!(t.age(ts(ft)), format!("age({word}, {ft})"));
    refused!(ts(ft).age(t), format!("age({ft}, {word})"));

    let unit = *s.pick(&[DateUnit::Year, DateUnit::Month, DateUnit::Day, DateUnit::Hour, DateUnit::Week, DateUnit::Century]);
    same!(t.truncate(FieldType::Unit, unit), t, format!("timestamp truncated to {unit:?}"));
    let c: Result<Timestamp, _> = std::convert::TryFrom::try_from(d);
    same!(c, t, "date as timestamp");
    let c: Result<Date, _> = std::convert::TryFrom::try_from(t);
    same!(c, d, "timestamp as date");
    Ok(())
}

/// A word in a random letter case, with random space around it.
fn dress(s: &mut Src, w: &str) -> String {
    let mut out = String::new();
    for _ in 0..s.below(3) {
        out.push(*s.pick(&[' ', '\t', '\n']));
    }
    let mode = s.below(4);
    for (i, c) in w.chars().enumerate() {
        let up = match mode {
            0 => false,
            1 => true,
            2 => i == 0,
            _ => s.bool(),
        };
        out.push(if up { c.to_ascii_uppercase() } else { c });
    }
    for _ in 0..s.below(3) {
        out.push(*s.pick(&[' ', '\t', '\n']));
    }
    out
}

fn inf_text(s: &mut Src, o: &mut Obs) -> R {
    let neg = s.bool();
    let w = if neg { "-infinity" } else { "infinity" };
    let text = dress(s, w);
    let or = *s.pick(&ORDERS);
    let typmod = s.range(-1, 6) as i32;
    o.case(true, (&text, or as u8, typmod), || format!("{text:?} under {or:?} precision {typmod}"));
    let r = Date::try_from_str(&text, or).map(dv);
    ensure!(r == Ok(if neg { i32::MIN } else { i32::MAX }), "date {text:?} under {or:?} = {r:?}");
    let r = Timestamp::try_from_str(&text, typmod, or).map(tsv);
    ensure!(r == Ok(if neg { i64::MIN } else { i64::MAX }), "timestamp {text:?} under {or:?}, precision {typmod} = {r:?}");
    let r = Time::try_from_str(&text, typmod, or);
    ensure!(r.is_err(), "time of day {text:?} = {r:?}, want an error");
    for st in ISTYLES {
        let r = Interval::try_from_str(&text, -1, st).map(fields);
        ensure!(r.is_err(), "interval {text:?} = {r:?}, want an error");
    }
    Ok(())
}

fn finite_ops(s: &mut Src, o: &mut Obs) -> R {
    let d = gen::date(s);
    let v = gen::ts(s);
    let f = gen::interval(s);
    let tm = gen::time(s);
    let k = gen::i32s(s);
    let edge = v < MIN_TS + 366 * DAY || v > END_TS - 366 * DAY || (d as i64) < MIN_DATE + 366 || d as i64 > END_DATE - 366;
    o.case(edge || k.unsigned_abs() > 1 << 30 || f.2.unsigned_abs() > 1 << 62, (d, v, f, tm, k), || {
        format!("date {d}, timestamp {v}, interval {f:?}, time {tm}, days {k}")
    });
    let x = iv(f.0, f.1, f.2);
    ensure!(date(d).is_finite() && !date(d).is_infinite(), "finite date {d} reports itself infinite");
    ensure!(ts(v).is_finite() && !ts(v).is_infinite(), "finite timestamp {v} reports itself infinite");
    macro_rules! fin_d {
        ($e:expr, $what:expr) => {{
            if let Ok(r) = $e {
                let r = dv(r);
                ensure!(valid_date(r as i128), "{} gives date {r}, which is infinite or out of range", $what);
            }
        }};
    }
    macro_rules! fin_t {
        ($e:expr, $what:expr) => {{
            if let Ok(r) = $e {
                let r = tsv(r);
                ensure!(valid_ts(r as i128), "{} gives timestamp {r}, which is infinite or out of range", $what);
            }
        }};
    }
    fin_d!(date(d).add_days(k), format!("date {d} + {k} days"));
    fin_d!(date(d).sub_days(k), format!("date {d} - {k} days"));
    fin_t!(date(d).add_interval(x), format!("date {d} + {f:?}"));
    fin_t!(date(d).sub_interval(x), format!("date {d} - {f:?}"));
    fin_t!(date(d).add_time(time(tm)), format!("date {d} + time {tm}"));
    fin_t!(ts(v).add_interval(x), format!("timestamp {v} + {f:?}"));
    fin_t!(ts(v).sub_interval(x), format!("timestamp {v} - {f:?}"));
    fin_t!(ts(v).add_time(time(tm)), format!("timestamp {v} + time {tm}"));
    fin_t!(ts(v).sub_time(time(tm)), format!("timestamp {v} - time {tm}"));
    for u in [DateUnit::Week, DateUnit::Month, DateUnit::Quarter, DateUnit::Year, DateUnit::Decade, DateUnit::Century, DateUnit::Millennium, DateUnit::Day, DateUnit::Second] {
        fin_t!(ts(v).truncate(FieldType::Unit, u), format!("timestamp {v} truncated to {u:?}"));
        fin_d!(date(d).truncate(FieldType::Unit, u), format!("date {d} truncated to {u:?}"));
    }
    fin_t!(<Timestamp as std::convert::TryFrom<Date>>::try_from(date(d)), format!("date {d} as timestamp"));
    fin_d!(<Date as std::convert::TryFrom<Timestamp>>::try_from(ts(v)), format!("timestamp {v} as date"));
    Ok(())
}

// ---------------------------------------------------------------- C32

fn round_trip<T>(x: T, text: Option<&str>, bytes: &[u8], what: &str) -> R
where
    T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug + Copy,
{
    let j = serde_json::to_string(&x);
    match text {
        Some(t) => {
            let want = serde_json::to_string(t).unwrap();
            match &j {
                Ok(j) => ensure!(*j == want, "{what} serializes to JSON {j}, want {want}"),
                Err(e) => return Err(format!("{what} does not serialize to JSON: {e}").into()),
            }
        }
        None => ensure!(j.is_err(), "{what} has no text but serializes to JSON {j:?}"),
    }
    let v = serde_json::to_value(&x);
    ensure!(v.is_ok() == text.is_some(), "{what} as a JSON value: {v:?}");
    if let Ok(v) = v {
        ensure!(v.as_str() == text, "{what} as a JSON value: {v:?}, want string {text:?}");
    }
    let b = bincode::serialize(&x);
    match &b {
        Ok(b) => ensure!(b == bytes, "{what} serializes to bytes {b:?}, want its plain fields {bytes:?}"),
        Err(e) => return Err(format!("{what} does not serialize to bytes: {e}").into()),
    }
    let r: Result<T, _> = bincode::deserialize(bytes);
    match r {
        Ok(y) => ensure!(y == x, "{what} reads back from bytes as {y:?}"),
        Err(e) => return Err(format!("{what} does not read back from bytes: {e}").into()),
    }
    Ok(())
}

fn read_json<T: serde::de::DeserializeOwned>(text: &str) -> Result<T, String> {
    serde_json::from_str(&serde_json::to_string(text).unwrap()).map_err(|e| e.to_string())
}

fn iv_by_hand(f: (i32, i32, i64)) -> Result<Interval, Fail> {
    // built without the serializer under test
    let a = ok(Interval::try_from_ymwd_hms(0, f.0, 0, f.1, 0, 0, 0.0), || format!("interval from fields {f:?}"))?;
    ok(a.add_interval(Interval::from(time(f.2))), || format!("interval from fields {f:?} plus time"))
}

fn ser_values(s: &mut Src, o: &mut Obs) -> R {
    match s.below(4) {
        0 => {
            let d = if s.one_in(20) { *s.pick(&[i32::MIN, i32::MAX]) } else { gen::date(s) };
            let text = fmt::date(d, DateStyle::ISO, DateOrder::YMD);
            o.case(text.len() != 10, (0, d, 0, 0i64), || format!("date {text}"));
            round_trip(date(d), Some(&text), &d.to_le_bytes(), &format!("date {d}"))?;
            let r = read_json::<Date>(&text).map(dv);
            ensure!(r == Ok(d), "JSON text {text:?} of date {d} reads back as {r:?}");
        }
        1 => {
            let t = gen::time(s);
            let text = fmt::time(t);
            o.case(t % USEC != 0 || t == DAY, (1, 0, 0, t), || format!("time {text}"));
            round_trip(time(t), Some(&text), &t.to_le_bytes(), &format!("time {t}"))?;
            let r = read_json::<Time>(&text).map(tv);
            ensure!(r == Ok(t), "JSON text {text:?} of time {t} reads back as {r:?}");
        }
        2 => {
            let v = if s.one_in(20) { *s.pick(&[i64::MIN, i64::MAX]) } else { gen::ts(s) };
            let text = fmt::timestamp(v, DateStyle::ISO, DateOrder::YMD);
            o.case(text.len() != 19, (2, 0, 0, v), || format!("timestamp {text}"));
            round_trip(ts(v), Some(&text), &v.to_le_bytes(), &format!("timestamp {v}"))?;
            let r = read_json::<Timestamp>(&text).map(tsv);
            ensure!(r == Ok(v), "JSON text {text:?} of timestamp {v} reads back as {r:?}");
        }
        _ => {
            let f = if s.bool() { gen::small_interval(s) } else { gen::interval(s) };
            let text = ivtext::format(f.0, f.1, f.2, IntervalStyle::SQLStandard);
            let p = ivtext::parts(f.0, f.1, f.2);
            let all = [p.year, p.mon, p.day, p.hour, p.min, p.sec, p.us];
            o.case(all.iter().filter(|v| **v != 0).count() > 1 || all.iter().any(|v| *v < 0), (3, f.0, f.1, f.2), || format!("interval {f:?} = {text:?}"));
            let mut b = f.2.to_le_bytes().to_vec();
            b.extend(f.1.to_le_bytes());
            b.extend(f.0.to_le_bytes());
            let x = iv_by_hand(f)?;
            round_trip(x, text.as_deref(), &b, &format!("interval {f:?}"))?;
            // `==` compares lengths, so look at the fields too
            let y: Interval = bincode::deserialize(&b).map_err(|e| Fail::from(e.to_string()))?;
            for st in [IntervalStyle::ISO8601, IntervalStyle::Postgres] {
                ensure!(x.format(st).ok() == y.format(st).ok(), "interval {f:?} reads back from bytes with other fields: {:?}", y.format(st));
            }
            if let Some(t) = text {
                if f.1 != i32::MIN && f.2 / HOUR != i32::MIN as i64 {
                    let r = read_json::<Interval>(&t).map(fields);
                    ensure!(r == Ok(f), "JSON text {t:?} of interval {f:?} reads back as {r:?}");
                }
            }
        }
    }
    Ok(())
}

type Row = (Option<Date>, Vec<Timestamp>, (Time, Interval), std::collections::BTreeMap<String, Interval>, Date);

fn ser_struct(s: &mut Src, o: &mut Obs) -> R {
    let f = gen::small_interval(s);
    let g = gen::small_interval(s);
    let row: Row = (
        if s.bool() { Some(date(gen::date(s))) } else { None },
        (0..s.below(4)).map(|_| ts(gen::ts(s))).collect(),
        (time(gen::time(s)), iv(f.0, f.1, f.2)),
        (0..s.below(3)).map(|k| (format!("k{k}"), iv(g.0, g.1, g.2))).collect(),
        date(gen::date(s)),
    );
    o.case(true, format!("{row:?}"), || format!("{row:?}"));
    let j = serde_json::to_string(&row).map_err(|e| Fail::from(format!("{row:?} to JSON: {e}")))?;
    let back: Row = serde_json::from_str(&j).map_err(|e| Fail::from(format!("{j} from JSON: {e}")))?;
    ensure!(back == row, "{row:?} -> {j} -> {back:?}");
    let back: Row = serde_json::from_value(serde_json::to_value(&row).unwrap()).map_err(|e| Fail::from(format!("{j} from a JSON value: {e}")))?;
    ensure!(back == row, "{row:?} -> JSON value -> {back:?}");
    let b = bincode::serialize(&row).map_err(|e| Fail::from(format!("{row:?} to bytes: {e}")))?;
    let back: Row = bincode::deserialize(&b).map_err(|e| Fail::from(format!("{row:?} from bytes: {e}")))?;
    ensure!(back == row, "{row:?} -> bytes -> {back:?}");
    Ok(())
}

fn agree(text: &str) -> R {
    let j = read_json::<Date>(text).ok().map(dv);
    let p = Date::try_from_str(text, DateOrder::YMD).ok().map(dv);
    ensure!(j == p, "date from JSON {text:?} = {j:?}, but parsing the text gives {p:?}");
    let j = read_json::<Time>(text).ok().map(tv);
    let p = Time::try_from_str(text, -1, DateOrder::YMD).ok().map(tv);
    ensure!(j == p, "time from JSON {text:?} = {j:?}, but parsing the text gives {p:?}");
    let j = read_json::<Timestamp>(text).ok().map(tsv);
    let p = Timestamp::try_from_str(text, -1, DateOrder::YMD).ok().map(tsv);
    ensure!(j == p, "timestamp from JSON {text:?} = {j:?}, but parsing the text gives {p:?}");
    let j = read_json::<Interval>(text).ok().map(fields);
    let p = Interval::try_from_str(text, -1, IntervalStyle::SQLStandard).ok().map(fields);
    ensure!(j == p, "interval from JSON {text:?} = {j:?}, but parsing the text gives {p:?}");
    Ok(())
}

/// Valid and damaged text in JSON strings: same outcome as parsing the text.
fn ser_text(s: &mut Src, o: &mut Obs) -> R {
    let mut text = match s.below(5) {
        0 => fmt::date(gen::date(s), DateStyle::ISO, DateOrder::YMD),
        1 => fmt::time(gen::time(s)),
        2 => fmt::timestamp(gen::ts(s), DateStyle::ISO, DateOrder::YMD),
        3 => {
            let f = gen::small_interval(s);
            ivtext::format(f.0, f.1, f.2, *s.pick(&ISTYLES)).unwrap_or_default()
        }
        _ => {
            let n = s.below(4);
            (0..n).map(|_| s.pick(&gen::dict().words).clone()).collect::<Vec<_>>().join(" ")
        }
    };
    let damage = s.below(4);
    for _ in 0..damage {
        let mut cs: Vec<char> = text.chars().collect();
        let at = s.below(cs.len() as u64 + 1) as usize;
        match s.below(3) {
            0 if at < cs.len() => {
                cs.remove(at);
            }
            1 if at < cs.len() => cs[at] = *s.pick(&['0', '9', '-', ':', '.', ' ', '+', 'x', 'T', '/', '"', '\\', 'é', '\n']),
            _ => cs.insert(at, *s.pick(&['1', '6', '-', ':', '.', ' ', '+', 'y', 'T', '/', '"', '\\', '\u{0}'])),
        }
        text = cs.into_iter().collect();
    }
    o.case(damage > 0, &text, || format!("JSON string {text:?}"));
    agree(&text)
}

fn ser_malformed(s: &mut Src, o: &mut Obs) -> R {
    let doc = match s.below(9) {
        0 => "null".to_string(),
        1 => format!("{}", gen::i64s(s)),
        2 => format!("{}.5", gen::i32s(s)),
        3 => "true".to_string(),
        4 => format!("[{}, {}, {}]", gen::i64s(s), gen::i32s(s), gen::i32s(s)),
        5 => format!("{{\"time\": {}, \"day\": {}, \"month\": {}}}", gen::i64s(s), gen::i32s(s), gen::i32s(s)),
        6 => "\"".to_string(),
        7 => "\"\\ud800\"".to_string(),
        _ => "{}".to_string(),
    };
    let n = s.below(16) as usize;
    let bytes: Vec<u8> = (0..n).map(|_| s.below(256) as u8).collect();
    o.case(true, (&doc, &bytes), || format!("JSON document {doc}, bytes {bytes:?}"));
    macro_rules! refused {
        ($t:ty) => {{
            let r: Result<$t, _> = serde_json::from_str(&doc);
            ensure!(r.is_err(), "{} accepted from JSON document {doc}: {r:?}", stringify!($t));
        }};
    }
    refused!(Date);
    refused!(Time);
    refused!(Timestamp);
    refused!(Interval);
    macro_rules! short {
        ($t:ty, $n:expr) => {{
            let r: Result<$t, _> = bincode::deserialize(&bytes);
            ensure!(r.is_ok() == (bytes.len() >= $n), "{} from {} bytes: {r:?}", stringify!($t), bytes.len());
        }};
    }
    short!(Date, 4);
    short!(Time, 8);
    short!(Timestamp, 8);
    short!(Interval, 16);
    Ok(())
}

/// A binary format with named fields: plain integers, readable as a map in any order.
fn ser_named(s: &mut Src, o: &mut Obs) -> R {
    let d = if s.one_in(20) { *s.pick(&[i32::MIN, i32::MAX]) } else { gen::date(s) };
    let t = gen::time(s);
    let v = if s.one_in(20) { *s.pick(&[i64::MIN, i64::MAX]) } else { gen::ts(s) };
    let f = if s.bool() { gen::small_interval(s) } else { gen::interval(s) };
    let mut order = [0usize, 1, 2];
    for i in 0..2 {
        let j = i + s.below(3 - i as u64) as usize;
        order.swap(i, j);
    }
    let damage = s.below(4);
    let at = s.below(3) as usize;
    o.case(damage > 0 || order != [0, 1, 2], (d, t, v, f, order, damage, at), || {
        format!("date {d}, time {t}, timestamp {v}, interval {f:?} in field order {order:?}, {}", ["intact", "a field dropped", "a field repeated", "a field renamed"][damage as usize])
    });
    macro_rules! plain {
        ($x:expr, $w:expr, $t:ty, $val:expr) => {{
            let w = $x.serialize(Rec);
            ensure!(w == Ok($w), "{} {} is recorded as {w:?}, want {:?}", stringify!($t), $val, $w);
            let r = <$t>::deserialize(Reader { value: $w, seq: false });
            match r {
                Ok(y) => ensure!(y == $x, "{} {} reads back as {y:?}", stringify!($t), $val),
                Err(e) => return Err(format!("{} {} does not read back: {e}", stringify!($t), $val).into()),
            }
        }};
    }
    plain!(date(d), Wire::I32(d), Date, d);
    plain!(time(t), Wire::I64(t), Time, t);
    plain!(ts(v), Wire::I64(v), Timestamp, v);
    let x = iv_by_hand(f)?;
    let want = [("time", Wire::I64(f.2)), ("day", Wire::I32(f.1)), ("month", Wire::I32(f.0))].map(|(n, w)| (n.to_string(), w));
    let rec = x.serialize(Rec);
    ensure!(rec == Ok(Wire::Struct(want.to_vec())), "interval {f:?} is recorded as {rec:?}, want {want:?}");
    let read = |value: Wire, seq: bool| Interval::deserialize(Reader { value, seq }).map(fields);
    let r = read(Wire::Struct(want.to_vec()), true);
    ensure!(r == Ok(f), "interval {f:?} reads back from a sequence as {r:?}");
    let mut shuffled: Vec<(String, Wire)> = order.iter().map(|&i| want[i].clone()).collect();
    let r = read(Wire::Struct(shuffled.clone()), false);
    ensure!(r == Ok(f), "interval {f:?} reads back from the map {shuffled:?} as {r:?}");
    match damage {
        0 => return Ok(()),
        1 => {
            shuffled.remove(at);
            let r = read(Wire::Struct(shuffled.clone()), true);
            ensure!(r.is_err(), "an interval is read from the short sequence {shuffled:?}: {r:?}");
        }
        2 => {
            let again = shuffled[at].clone();
            shuffled.push(again);
        }
        _ => shuffled[at].0.push('s'),
    }
    let r = read(Wire::Struct(shuffled.clone()), false);
    ensure!(r.is_err(), "an interval is read from the map {shuffled:?}: {r:?}");
    Ok(())
}

/// The CBOR encoding of an integer.
fn cbor_int(n: i128) -> Vec<u8> {
    let (major, v) = if n < 0 { (0x20u8, (-1 - n) as u64) } else { (0, n as u64) };
    match v {
        0..=23 => vec![major | v as u8],
        24..=0xff => vec![major | 24, v as u8],
        0x100..=0xffff => [&[major | 25], &(v as u16).to_be_bytes()[..]].concat(),
        0x1_0000..=0xffff_ffff => [&[major | 26], &(v as u32).to_be_bytes()[..]].concat(),
        _ => [&[major | 27], &v.to_be_bytes()[..]].concat(),
    }
}

fn plain_fields<T: Serialize>(x: &T) -> Vec<u8> {
    bincode::serialize(x).unwrap_or_default()
}

/// Binary formats that keep integers in their narrowest width and name or number the
/// fields of structures, and a text format other than JSON.
fn through_formats<T>(x: T, text: Option<&str>, bytes: &[u8], packed: &[u8], what: &str) -> R
where
    T: Serialize + serde::de::DeserializeOwned + std::fmt::Debug,
{
    let want = plain_fields(&x);
    let same = |how: &str, y: Result<T, String>| -> R {
        match y {
            Ok(y) => ensure!(plain_fields(&y) == want, "{what} reads back from {how} as {y:?}"),
            Err(e) => return Err(format!("{what} does not read back from {how}: {e}").into()),
        }
        Ok(())
    };
    let b = serde_cbor::to_vec(&x).map_err(|e| e.to_string());
    ensure!(b.as_deref() == Ok(bytes), "{what} serializes to CBOR {b:?}, want its plain fields {bytes:?}");
    let mut c = Vec::new();
    let r = ciborium::into_writer(&x, &mut c);
    ensure!(r.is_ok() && c == bytes, "{what} serializes to CBOR (ciborium) {r:?} {c:?}, want its plain fields {bytes:?}");
    let p = serde_cbor::ser::to_vec_packed(&x).map_err(|e| e.to_string());
    ensure!(p.as_deref() == Ok(packed), "{what} serializes to packed CBOR {p:?}, want its plain fields {packed:?}");
    same("CBOR", serde_cbor::from_slice(bytes).map_err(|e| e.to_string()))?;
    same("a CBOR reader", serde_cbor::from_reader(bytes).map_err(|e| e.to_string()))?;
    same("packed CBOR", serde_cbor::from_slice(packed).map_err(|e| e.to_string()))?;
    let v = serde_cbor::value::to_value(&x);
    same("a CBOR value", v.and_then(serde_cbor::value::from_value).map_err(|e| e.to_string()))?;
    same("CBOR (ciborium)", ciborium::from_reader(bytes).map_err(|e| e.to_string()))?;
    let v = ciborium::Value::serialized(&x).map_err(|e| e.to_string());
    same("a CBOR value (ciborium)", v.and_then(|v| v.deserialized().map_err(|e| e.to_string())))?;
    match text {
        Some(t) => {
            let r = ron::to_string(&x).map_err(|e| e.to_string());
            let want = format!("\"{t}\"");
            ensure!(r == Ok(want.clone()), "{what} serializes to RON {r:?}, want {want}");
            same("RON", ron::from_str(&want).map_err(|e| e.to_string()))
        }
        None => Ok(()),
    }
}

fn ser_formats(s: &mut Src, o: &mut Obs) -> R {
    match s.below(5) {
        0 => {
            let d = if s.one_in(20) { *s.pick(&[i32::MIN, i32::MAX]) } else { gen::date(s) };
            o.case(d.unsigned_abs() > 255, (0, d, 0, 0i64), || format!("date {d} in CBOR and RON"));
            let b = cbor_int(d as i128);
            through_formats(date(d), Some(&fmt::date(d, DateStyle::ISO, DateOrder::YMD)), &b, &b, &format!("date {d}"))
        }
        1 => {
            let t = gen::time(s);
            o.case(t > 255, (1, 0, 0, t), || format!("time {t} in CBOR and RON"));
            let b = cbor_int(t as i128);
            through_formats(time(t), Some(&fmt::time(t)), &b, &b, &format!("time {t}"))
        }
        2 => {
            let v = if s.one_in(20) { *s.pick(&[i64::MIN, i64::MAX]) } else { gen::ts(s) };
            o.case(v.unsigned_abs() > 255, (2, 0, 0, v), || format!("timestamp {v} in CBOR and RON"));
            let b = cbor_int(v as i128);
            through_formats(ts(v), Some(&fmt::timestamp(v, DateStyle::ISO, DateOrder::YMD)), &b, &b, &format!("timestamp {v}"))
        }
        3 => {
            let f = if s.bool() { gen::small_interval(s) } else { gen::interval(s) };
            o.case(f != (0, 0, 0), (3, f.0, f.1, f.2), || format!("interval {f:?} in CBOR and RON"));
            let ints = [f.2 as i128, f.1 as i128, f.0 as i128].map(cbor_int);
            let mut named = vec![0xa3];
            let mut packed = vec![0xa3];
            for (k, n) in ["time", "day", "month"].iter().enumerate() {
                named.push(0x60 | n.len() as u8);
                named.extend(n.bytes());
                named.extend(&ints[k]);
                packed.push(k as u8);
                packed.extend(&ints[k]);
            }
            let spelt = f.1 != i32::MIN && f.2 / HOUR != i32::MIN as i64;
            let text = ivtext::format(f.0, f.1, f.2, IntervalStyle::SQLStandard).filter(|_| spelt);
            through_formats(iv_by_hand(f)?, text.as_deref(), &named, &packed, &format!("interval {f:?}"))
        }
        _ => {
            // an integer that the type does not have is refused, not cut down
            let n: i128 = match s.below(3) {
                0 => gen::i64s(s) as i128 + if s.bool() { 1i128 << 63 } else { 0 },
                1 => gen::i32s(s) as i128 + *s.pick(&[1i128 << 32, -(1i128 << 32), 1 << 31, -(1 << 31)]),
                _ => *s.pick(&[u64::MAX as i128, i64::MAX as i128 + 1, i64::MIN as i128, i32::MAX as i128 + 1, i32::MIN as i128 - 1, u32::MAX as i128, -1 - u64::MAX as i128]),
            };
            o.case(true, n, || format!("the integer {n} in CBOR"));
            let b = cbor_int(n);
            macro_rules! fits {
                ($t:ty, $raw:ty, $how:expr, $r:expr) => {{
                    if let Ok(v) = $r.map(<$raw>::from) {
                        ensure!(v as i128 == n, "{} read from the integer {n} in {} is {v}", stringify!($t), $how);
                    }
                }};
            }
            fits!(Date, i32, "CBOR", serde_cbor::from_slice::<Date>(&b));
            fits!(Time, i64, "CBOR", serde_cbor::from_slice::<Time>(&b));
            fits!(Timestamp, i64, "CBOR", serde_cbor::from_slice::<Timestamp>(&b));
            fits!(Date, i32, "CBOR (ciborium)", ciborium::from_reader::<Date, _>(&b[..]));
            fits!(Time, i64, "CBOR (ciborium)", ciborium::from_reader::<Time, _>(&b[..]));
            fits!(Timestamp, i64, "CBOR (ciborium)", ciborium::from_reader::<Timestamp, _>(&b[..]));
            Ok(())
        }
    }
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Plain {
    day: Date,
    time: Time,
    at: Vec<Timestamp>,
    span: Interval,
    due: Option<Date>,
    last: Option<Interval>,
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Flat {
    id: u32,
    #[serde(flatten)]
    row: Plain,
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(tag = "kind")]
enum Tagged {
    Row(Plain),
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(untagged)]
enum Untagged {
    Number(u32),
    Row(Plain),
}

/// Values as fields of a user's own structures, in several formats.
fn ser_records(s: &mut Src, o: &mut Obs) -> R {
    let f = gen::small_interval(s);
    let g = gen::small_interval(s);
    let row = Plain {
        day: date(gen::date(s)),
        time: time(gen::time(s)),
        at: (0..s.below(3)).map(|_| ts(gen::ts(s))).collect(),
        span: iv(f.0, f.1, f.2),
        due: if s.bool() { Some(date(gen::date(s))) } else { None },
        last: if s.bool() { Some(iv(g.0, g.1, g.2)) } else { None },
    };
    o.case(true, format!("{row:?}"), || format!("{row:?} in JSON, RON, CBOR and bincode"));
    let want = plain_fields(&row);
    let same = |how: &str, r: Result<Plain, String>| -> R {
        match r {
            Ok(y) => ensure!(plain_fields(&y) == want, "{row:?} reads back from {how} as {y:?}"),
            Err(e) => return Err(format!("{row:?} does not read back from {how}: {e}").into()),
        }
        Ok(())
    };
    macro_rules! via {
        ($how:expr, $x:expr, $ser:expr, $de:expr, $out:expr) => {{
            let r = $ser(&$x).map_err(|e| e.to_string()).and_then(|d| $de(&d).map_err(|e| e.to_string()));
            same($how, r.map($out))?;
        }};
    }
    let flat = Flat { id: 7, row: row.clone() };
    let tagged = Tagged::Row(row.clone());
    let either = Untagged::Row(row.clone());
    let pick = |u: Untagged| match u {
        Untagged::Row(r) => r,
        Untagged::Number(_) => Plain { at: vec![], ..row.clone() },
    };
    via!("JSON", row, serde_json::to_string, |d: &String| serde_json::from_str::<Plain>(d), |r| r);
    via!("a JSON reader", row, serde_json::to_vec, |d: &Vec<u8>| serde_json::from_reader::<_, Plain>(&d[..]), |r| r);
    via!("flattened JSON", flat, serde_json::to_string, |d: &String| serde_json::from_str::<Flat>(d), |r: Flat| r.row);
    via!("tagged JSON", tagged, serde_json::to_string, |d: &String| serde_json::from_str::<Tagged>(d), |r| match r { Tagged::Row(r) => r });
    via!("untagged JSON", either, serde_json::to_string, |d: &String| serde_json::from_str::<Untagged>(d), pick);
    via!("RON", row, ron::to_string, |d: &String| ron::from_str::<Plain>(d), |r| r);
    via!("CBOR", row, serde_cbor::to_vec, |d: &Vec<u8>| serde_cbor::from_slice::<Plain>(d), |r| r);
    via!("packed CBOR", row, serde_cbor::ser::to_vec_packed, |d: &Vec<u8>| serde_cbor::from_slice::<Plain>(d), |r| r);
    let mut c = Vec::new();
    let r = ciborium::into_writer(&row, &mut c).map_err(|e| e.to_string());
    same("CBOR (ciborium)", r.and_then(|_| ciborium::from_reader::<Plain, _>(&c[..]).map_err(|e| e.to_string())))?;
    via!("bincode", row, bincode::serialize, |d: &Vec<u8>| bincode::deserialize::<Plain>(d), |r| r);
    Ok(())
}

// ---------------------------------------------------------------- C33

fn small_or_any(s: &mut Src, lo: i64, hi: i64) -> i32 {
    let v = match s.weighted(&[16, 3, 1]) {
        0 => s.range(lo, hi),
        1 => *s.pick(&[lo - 1, hi + 1, lo, hi, 0, -1]),
        _ => gen::i32s(s) as i64,
    };
    v as i32
}

fn seconds(s: &mut Src) -> f64 {
    match s.weighted(&[5, 5, 3, 2, 2]) {
        0 => s.range(0, 59) as f64,
        1 => s.range(0, 59) as f64 + gen::usec(s) as f64 / 1e6,
        2 => s.range(0, 60_000_000) as f64 / 1e6 + *s.pick(&[0.0, 4e-7, 5e-7, 6e-7, -4e-7]),
        3 => *s.pick(&[60.0, 59.9999999, 59.9999995, 60.0000001, 0.0, -0.0, -1e-9, 0.0000005, 1e-300]),
        _ => gen::f64s(s),
    }
}

/// Whole microseconds of day, or None if the fields are out of range.
fn tod_of(h: i32, m: i32, sec: f64) -> Option<i64> {
    if !(0..=24).contains(&h) || !(0..=59).contains(&m) || !(sec >= 0.0 && sec <= 60.0) {
        return None;
    }
    if h == 24 && (m != 0 || sec > 0.0) {
        return None;
    }
    Some((h as i64 * 60 + m as i64) * MIN + (sec * 1e6).round() as i64)
}

fn ctor_time(s: &mut Src, o: &mut Obs) -> R {
    let h = small_or_any(s, 0, 24);
    let m = if s.one_in(6) { 0 } else { small_or_any(s, 0, 59) };
    let sec = if s.one_in(8) { 0.0 } else { seconds(s) };
    let want = tod_of(h, m, sec);
    o.case(want.is_none() || sec.fract() != 0.0 || sec == 60.0 || h == 24, (h, m, sec.to_bits()), || format!("time ({h}, {m}, {sec:?}) -> {want:?}"));
    o.label(if want.is_some() { "valid" } else { "refused" });
    let r = Time::try_from_hms(h, m, sec).map(tv);
    ensure!(r.as_ref().ok().copied() == want, "Time::try_from_hms({h}, {m}, {sec:?}) = {r:?}, want {want:?}");
    Ok(())
}

fn ctor_ts(s: &mut Src, o: &mut Obs) -> R {
    let y = match s.weighted(&[8, 4, 1]) {
        0 => gen::year(s, 1, 294_277) as i32,
        1 => *s.pick(&[1, 2000, 1999, 1900, 2004, 294_276, 294_277, 0, -1, -4713]),
        _ => gen::i32s(s),
    };
    let mo = small_or_any(s, 1, 12);
    let d = if (1..=12).contains(&mo) && !s.one_in(10) { small_or_any(s, 1, month_len(y as i64, mo as i64)) } else { small_or_any(s, 0, 32) };
    let h = small_or_any(s, 0, 24);
    let m = if s.one_in(6) { 0 } else { small_or_any(s, 0, 59) };
    let sec = if s.one_in(8) { 0.0 } else { seconds(s) };
    let valid = y >= 1 && (1..=12).contains(&mo) && d >= 1 && d as i64 <= month_len(y as i64, mo.clamp(1, 12) as i64);
    let want = match tod_of(h, m, sec) {
        Some(t) if valid => {
            let r = days(y as i64, mo as i64, d as i64) as i128 * DAY as i128 + t as i128;
            if valid_ts(r) { Some(r as i64) } else { None }
        }
        _ => None,
    };
    o.case(want.is_none() || sec.fract() != 0.0 || h == 24, (y, mo, d, h, m, sec.to_bits()), || format!("timestamp ({y}, {mo}, {d}, {h}, {m}, {sec:?}) -> {want:?}"));
    o.label(if want.is_some() { "valid" } else { "refused" });
    let r = Timestamp::try_from_ymd_hms(y, mo, d, h, m, sec).map(tsv);
    ensure!(r.as_ref().ok().copied() == want, "Timestamp::try_from_ymd_hms({y}, {mo}, {d}, {h}, {m}, {sec:?}) = {r:?}, want {want:?}");
    // equal to building the date and adding the time of day
    if let (Some(w), Ok(dd)) = (want, Date::try_from_ymd(y, mo, d)) {
        if let Ok(t) = Time::try_from_hms(h, m, sec) {
            let r = dd.add_time(t).map(tsv);
            ensure!(r == Ok(w), "date ({y}, {mo}, {d}) + time ({h}, {m}, {sec:?}) = {r:?}, want {w}");
        }
    }
    Ok(())
}

fn ctor_iv(s: &mut Src, o: &mut Obs) -> R {
    let small = s.bool();
    let g = |s: &mut Src| -> i32 { if small { s.range(-1000, 1000) as i32 } else { gen::i32s(s) } };
    let (y, mo, w, d, h, mi) = (g(s), g(s), g(s), g(s), g(s), g(s));
    let sec = match s.below(3) {
        0 => seconds(s),
        1 => -seconds(s),
        _ => gen::f64s(s),
    };
    let m = y as i64 * 12 + mo as i64;
    let dd = w as i64 * 7 + d as i64;
    let us = (sec * 1e6).round();
    let fits = |v: i64| v >= i32::MIN as i64 && v <= i32::MAX as i64;
    let finite = sec.is_finite();
    let t = if finite && us.abs() < 9.2e18 { Some(h as i128 * HOUR as i128 + mi as i128 * MIN as i128 + us as i128) } else { None };
    let ok_t = t.map_or(false, |t| t >= i64::MIN as i128 && t <= i64::MAX as i128);
    let constrained = !finite || (fits(m) && fits(dd) && ok_t);
    o.case(constrained && (sec.fract() != 0.0 || !small || !finite), (y, mo, w, d, h, mi, sec.to_bits()), || format!("interval ({y}, {mo}, {w}, {d}, {h}, {mi}, {sec:?})"));
    let r = Interval::try_from_ymwd_hms(y, mo, w, d, h, mi, sec);
    if !finite {
        ensure!(r.is_err(), "Interval::try_from_ymwd_hms with {sec} seconds = {r:?}, want an error");
    } else if constrained {
        o.label("exact");
        let want = (m as i32, dd as i32, t.unwrap() as i64);
        let r = r.map(fields);
        ensure!(r == Ok(want), "Interval::try_from_ymwd_hms({y}, {mo}, {w}, {d}, {h}, {mi}, {sec:?}) = {r:?}, want {want:?}");
    }
    Ok(())
}
