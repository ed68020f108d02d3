//! C25 order, equality and hashing.

use crate::engine::*;
use crate::gen;
use crate::model::cal::*;
use crate::val::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        rule: "A case is a pair, triple or small set of values of one type; half of the interval pairs are built to have equal totals with different fields, or totals one microsecond apart. Non-trivial: the values differ.",
        assumptions: &["Hash consistency is observed through std's DefaultHasher."],
        subs: vec![
            random("intervals", intervals, 3_000_000),
            random("interval-sets", sets, 200_000),
            random("scalars", scalars, 3_000_000),
        ],
    }]
}

fn total(f: (i32, i32, i64)) -> i128 {
    (f.0 as i128 * 30 + f.1 as i128) * DAY as i128 + f.2 as i128
}

fn hash<T: Hash>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// Another interval of the same total, give or take `delta` microseconds.
fn redistribute(s: &mut Src, f: (i32, i32, i64), delta: i64) -> Option<(i32, i32, i64)> {
    let dm = s.range(-40, 40);
    let dd = s.range(-40, 40);
    let m = f.0 as i64 + dm;
    let d = f.1 as i64 - 30 * dm + dd;
    let t = f.2 as i128 - dd as i128 * DAY as i128 + delta as i128;
    Some((i32::try_from(m).ok()?, i32::try_from(d).ok()?, i64::try_from(t).ok()?))
}

fn intervals(s: &mut Src, o: &mut Obs) -> R {
    let a = if s.bool() { gen::small_interval(s) } else { gen::interval(s) };
    let b = match s.below(4) {
        0 => gen::interval(s),
        1 => redistribute(s, a, 0).unwrap_or(a),
        2 => {
            let k = s.range(-2, 2);
            redistribute(s, a, k).unwrap_or(a)
        }
        _ => gen::small_interval(s),
    };
    let (x, y) = (iv(a.0, a.1, a.2), iv(b.0, b.1, b.2));
    let want = total(a).cmp(&total(b));
    o.case(a != b, (a, b), || format!("{a:?} vs {b:?}: {want:?}"));
    if want == Ordering::Equal && a != b {
        o.label("equal with different fields");
    }
    ensure!(i128::from(x) == total(a), "i128 of {a:?} is {}, want {}", i128::from(x), total(a));
    ensure!(x.cmp(&y) == want, "{a:?} cmp {b:?} = {:?}, want {want:?}", x.cmp(&y));
    ensure!(y.cmp(&x) == want.reverse(), "{b:?} cmp {a:?} = {:?}", y.cmp(&x));
    ensure!(x.partial_cmp(&y) == Some(want), "{a:?} partial_cmp {b:?} = {:?}, want {want:?}", x.partial_cmp(&y));
    ensure!((x == y) == (want == Ordering::Equal), "{a:?} == {b:?} is {}, but they compare {want:?}", x == y);
    ensure!((x != y) != (x == y), "{a:?} != {b:?} disagrees with ==");
    ensure!((x < y) == (want == Ordering::Less) && (x >= y) == (want != Ordering::Less), "operators on {a:?}, {b:?}");
    ensure!((x > y) == (want == Ordering::Greater) && (x <= y) == (want != Ordering::Greater), "operators on {a:?}, {b:?}");
    if x == y {
        ensure!(hash(&x) == hash(&y), "{a:?} and {b:?} are equal but hash differently");
    }
    ensure!(x == x && hash(&x) == hash(&iv(a.0, a.1, a.2)), "{a:?} not equal to itself");
    Ok(())
}

fn sets(s: &mut Src, o: &mut Obs) -> R {
    let n = s.range(2, 8);
    let mut v = vec![];
    for _ in 0..n {
        let f = if v.is_empty() || s.bool() {
            gen::small_interval(s)
        } else {
            let base = v[s.below(v.len() as u64) as usize];
            redistribute(s, base, 0).unwrap_or((0, 0, 0))
        };
        v.push(f);
    }
    let vals: Vec<Interval> = v.iter().map(|f| iv(f.0, f.1, f.2)).collect();
    let distinct: HashSet<i128> = v.iter().map(|f| total(*f)).collect();
    o.case(distinct.len() > 1, &v, || format!("{v:?}: {} distinct totals", distinct.len()));
    let h: HashSet<Interval> = vals.iter().copied().collect();
    let b: BTreeSet<Interval> = vals.iter().copied().collect();
    ensure!(h.len() == distinct.len(), "hash set of {v:?} has {} members, {} distinct lengths", h.len(), distinct.len());
    ensure!(b.len() == distinct.len(), "tree set of {v:?} has {} members", b.len());
    for x in &vals {
        ensure!(h.contains(x) && b.contains(x), "set lost a member of {v:?}");
    }
    let mut sorted = vals.clone();
    sorted.sort();
    ensure!(sorted.windows(2).all(|w| total(fields(w[0])) <= total(fields(w[1]))), "sorting {v:?} gave {sorted:?}");
    Ok(())
}

fn scalar<T: Ord + Copy + Hash + std::fmt::Debug>(x: T, y: T, want: Ordering) -> R {
    ensure!(x.cmp(&y) == want, "{x:?} cmp {y:?} = {:?}, want {want:?}", x.cmp(&y));
    ensure!(x.partial_cmp(&y) == Some(want), "{x:?} partial_cmp {y:?}");
    ensure!(y.cmp(&x) == want.reverse(), "{y:?} cmp {x:?} = {:?}", y.cmp(&x));
    ensure!((x == y) == (want == Ordering::Equal), "{x:?} == {y:?} is {}", x == y);
    ensure!((x < y) == (want == Ordering::Less) && (x > y) == (want == Ordering::Greater), "operators on {x:?} {y:?}");
    ensure!(x != y || hash(&x) == hash(&y), "hash of equal {x:?} {y:?}");
    Ok(())
}

fn scalars(s: &mut Src, o: &mut Obs) -> R {
    let near = |s: &mut Src, v: i64| if s.bool() { Some(v.saturating_add(s.range(-1, 1))) } else { None };
    let kind = s.below(3);
    match kind {
        0 => {
            let g = |s: &mut Src| match s.below(12) {
                0 => i32::MIN,
                1 => i32::MAX,
                _ => gen::date(s),
            };
            let a = g(s);
            let b = match near(s, a as i64) {
                Some(v) => v.clamp(i32::MIN as i64, i32::MAX as i64) as i32,
                None => g(s),
            };
            o.case(a != b, (0, a as i64, b as i64), || format!("dates {a} {b}"));
            scalar(date(a), date(b), a.cmp(&b))?;
            // order of dates is order of their calendar fields
            if a > i32::MIN && a < i32::MAX && b > i32::MIN && b < i32::MAX && valid_date(a as i128) && valid_date(b as i128) {
                scalar(date(a), date(b), civil(a as i64).cmp(&civil(b as i64)))?;
            }
        }
        1 => {
            let g = |s: &mut Src| match s.below(12) {
                0 => i64::MIN,
                1 => i64::MAX,
                _ => gen::ts(s),
            };
            let a = g(s);
            let b = near(s, a).unwrap_or_else(|| g(s));
            o.case(a != b, (1, a, b), || format!("timestamps {a} {b}"));
            scalar(ts(a), ts(b), a.cmp(&b))?;
        }
        _ => {
            let a = gen::time(s);
            let b = near(s, a).map(|v| v.clamp(0, DAY)).unwrap_or_else(|| gen::time(s));
            o.case(a != b, (2, a, b), || format!("times {a} {b}"));
            scalar(time(a), time(b), a.cmp(&b))?;
        }
    }
    Ok(())
}
