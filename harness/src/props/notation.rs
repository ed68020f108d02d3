//! C08-C11: texts written from a known moment or interval, read by the library.

use crate::engine::*;
use crate::model::cal::*;
use crate::model::parse as reference;
use crate::model::parse::Ref;
use crate::props::robust::{diff_date, diff_interval, diff_time, diff_timestamp};
use crate::textgen::{self, *};
use crate::val::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08",
            rule: "A case is a known date or timestamp written in a random supported notation with the order it is read under. Non-trivial: the notation is not plain year-month-day, or it has a BC year, a weekday, or a time.",
            assumptions: &[
                "Which notations are supported is taken from PostgreSQL's date/time input description; only moments in range are written.",
                "A Julian day fraction may be off by one microsecond.",
            ],
            subs: vec![random("dates", dates, 2_000_000), random("timestamps", stamps, 3_000_000), random("varied", varied_moments, 700_000)],
        },
        Prop {
            id: "C09",
            rule: "A case is a known time of day written in a random supported notation. Non-trivial: not plain hh:mm:ss.",
            assumptions: &["A labelled time whose seconds have no fraction may also be refused, as PostgreSQL does.", "A Julian day fraction may be off by one microsecond."],
            subs: vec![random("times", times, 4_000_000), random("varied", varied_times, 1_000_000)],
        },
        Prop {
            id: "C10",
            rule: "A case is a list of unit amounts written in a random supported notation. Non-trivial: at least two amounts, or a fraction or sign.",
            assumptions: &[
                "Fractions of at most seven digits; a fraction finer than a microsecond may round either way.",
                "Where a fraction of a year times twelve is exactly a whole number only in decimal, or a fraction of a month or week gives whole days only in decimal, the neighbouring whole number with the rest carried down is also accepted.",
            ],
            subs: vec![random("traditional", traditional, 4_000_000), random("varied", varied_traditional, 700_000)],
        },
        Prop {
            id: "C11",
            rule: "A case is an ISO 8601 duration written from known fields in designator or alternative form, under a random interval style. Non-trivial: at least two fields, a fraction or a sign.",
            assumptions: &["Number and fraction share a 53-bit float, as in PostgreSQL: the tolerance grows with the number."],
            subs: vec![random("iso8601", iso, 4_000_000), random("varied", varied_iso, 1_000_000)],
        },
    ]
}

fn near(v: i64, want: i64, tol: i64) -> bool {
    (v as i128 - want as i128).abs() <= tol as i128
}

fn dates(s: &mut Src, o: &mut Obs) -> R {
    let m = moment(s, true);
    o.case(m.form != "year-month-day" || m.timed || m.day < 0, (&m.text, m.order as u8), || format!("{:?} under {:?} ({})", m.text, m.order, m.form));
    o.label(m.form);
    let r = Date::try_from_str(&m.text, m.order);
    let want = m.day as i32;
    ensure!(r == Ok(date(want)), "{:?} under {:?} ({}) spells day {want} = {}; read: {r:?}", m.text, m.order, m.form, show(m.day));
    Ok(())
}

fn show(day: i64) -> String {
    let (y, m, d) = civil(day);
    format!("{y:04}-{m:02}-{d:02} (year 0 = 1 BC)")
}

fn stamps(s: &mut Src, o: &mut Obs) -> R {
    let m = moment(s, false);
    o.case(m.form != "year-month-day" || m.timed, (&m.text, m.order as u8), || format!("{:?} under {:?} ({})", m.text, m.order, m.form));
    o.label(m.form);
    let want = m.day as i128 * DAY as i128 + m.tod as i128;
    if !valid_ts(want) {
        return Ok(());
    }
    let want = want as i64;
    let r = Timestamp::try_from_str(&m.text, -1, m.order);
    let good = matches!(&r, Ok(t) if near(tsv(*t), want, m.tol)) || (r.is_err() && !valid_ts((want + m.tol) as i128));
    ensure!(good, "{:?} under {:?} ({}) spells {want} = {} + {} us; read: {:?}", m.text, m.order, m.form, show(m.day), m.tod, r.map(tsv));
    Ok(())
}

fn times(s: &mut Src, o: &mut Obs) -> R {
    let t = time_text(s);
    o.case(t.form != "clock" || t.text.len() != 8, (&t.text, t.order as u8), || format!("{:?} under {:?} ({})", t.text, t.order, t.form));
    o.label(t.form);
    let r = Time::try_from_str(&t.text, -1, t.order);
    if t.tod > DAY {
        return Ok(());
    }
    let good = match &r {
        Ok(v) => near(tv(*v), t.tod, t.tol),
        Err(_) => t.may_refuse,
    };
    ensure!(good, "{:?} under {:?} ({}) spells {} us; read: {:?}", t.text, t.order, t.form, t.tod, r.map(tv));
    Ok(())
}

fn check_iv(x: textgen::IvText, o: &mut Obs) -> R {
    let nt = x.pieces > 1 || x.text.contains(['.', '-', '+']);
    o.case(nt, (&x.text, x.style as u8), || format!("{:?} under {:?} ({})", x.text, x.style, x.form));
    o.label(x.form);
    let shown = format!("{:?}", x.sum);
    let Ok(want) = x.sum.finish() else {
        o.label("out of range");
        return Ok(());
    };
    let r = Interval::try_from_str(&x.text, -1, x.style);
    let good = matches!(&r, Ok(v) if want.admits(fields(*v)));
    ensure!(good, "{:?} under {:?} ({}) spells {want:?}; read: {:?} [{shown}]", x.text, x.style, x.form, r.map(fields));
    Ok(())
}

fn traditional(s: &mut Src, o: &mut Obs) -> R {
    check_iv(interval_text(s), o)
}

fn iso(s: &mut Src, o: &mut Obs) -> R {
    check_iv(iso_text(s), o)
}

// Texts a few edits away from a notation, or made of its pieces at random. The reference grammar
// (see C14) says what they spell; those it refuses are C12's and not judged here.

fn spells<T>(r: &Ref<T>) -> bool {
    !matches!(r, Ref::Err | Ref::Skip)
}

fn varied_moments(s: &mut Src, o: &mut Obs) -> R {
    let t = vary(s, |s| moment(s, false).text);
    let or = *s.pick(&ORDERS);
    let mut n = 0;
    if spells(&reference::date(&t, or)) {
        n += 1;
        diff_date(&t, or)?;
    }
    if spells(&reference::timestamp(&t, or)) {
        n += 1;
        diff_timestamp(&t, or)?;
    }
    o.case(n > 0, (&t, or as u8), || format!("{t:?} under {or:?}, spelled for {n} types"));
    Ok(())
}

fn varied_times(s: &mut Src, o: &mut Obs) -> R {
    let t = vary(s, |s| time_text(s).text);
    let or = *s.pick(&ORDERS);
    let sp = spells(&reference::time(&t, or));
    if sp {
        diff_time(&t, or)?;
    }
    o.case(sp, (&t, or as u8), || format!("{t:?} under {or:?}"));
    Ok(())
}

fn varied_iv(t: String, s: &mut Src, o: &mut Obs) -> R {
    let st = *s.pick(&ISTYLES);
    let sp = spells(&reference::interval(&t, reference::range::FULL, st));
    if sp {
        diff_interval(&t, st)?;
    }
    o.case(sp, (&t, st as u8), || format!("{t:?} under {st:?}"));
    Ok(())
}

fn varied_traditional(s: &mut Src, o: &mut Obs) -> R {
    let t = vary(s, |s| interval_text(s).text);
    varied_iv(t, s, o)
}

fn varied_iso(s: &mut Src, o: &mut Obs) -> R {
    let t = match s.below(4) {
        0 => iso_soup(s),
        _ => {
            let t = iso_text(s).text;
            mutate(s, &t)
        }
    };
    varied_iv(t, s, o)
}
