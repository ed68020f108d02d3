//! Reference parser: the PostgreSQL 12 date/time input grammar, restricted to the documented
//! limits of this library (no time zones; no now/today words; integers of at most ten digits
//! that fit 32 bits; fractions of at most seven digits). Fields are exact integers throughout;
//! where the definition involves a rounding the library does in floating point, the verdict
//! carries the tolerance it implies.

use super::cal;
use crate::val::{DateOrder, IntervalStyle};

/// What the grammar says about a text.
#[derive(Debug, Clone, PartialEq)]
pub enum Ref<T> {
    /// This value.
    Val(T),
    /// This value, up to so many microseconds.
    Near(T, i64),
    Err,
    /// This value or a refusal: the grammar accepts, but the text spells less than a full value.
    Either(T, i64),
    /// Outside what is specified: any result that is not a panic.
    Skip,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Stop {
    Bad,
    Skip,
}
pub type P<T> = Result<T, Stop>;
const BAD: Stop = Stop::Bad;

// ------------------------------------------------------------------ tokens

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Kind {
    Num,
    Date,
    Time,
    /// sign and digits
    Signed,
    /// letters
    Word,
    /// sign and letters
    SignedWord,
}

pub type Tok = (Kind, String);

struct Cur<'a> {
    s: &'a [u8],
    i: usize,
    out: String,
}

impl<'a> Cur<'a> {
    fn peek(&self) -> Option<u8> {
        self.s.get(self.i).copied()
    }
    fn is(&self, f: impl Fn(u8) -> bool) -> bool {
        self.peek().map_or(false, f)
    }
    fn take(&mut self) {
        self.out.push(self.s[self.i].to_ascii_lowercase() as char);
        self.i += 1;
    }
    fn take_while(&mut self, f: impl Fn(u8) -> bool) {
        while self.is(&f) {
            self.take()
        }
    }
}

fn digit(c: u8) -> bool {
    c.is_ascii_digit()
}
fn space(c: u8) -> bool {
    matches!(c, b' ' | b'\t' | b'\n' | b'\r' | 0x0c)
}

pub fn tokens(text: &str) -> P<Vec<Tok>> {
    if text.contains('\x0b') {
        return Err(Stop::Skip); // C isspace, not Rust ASCII whitespace
    }
    let mut c = Cur { s: text.as_bytes(), i: 0, out: String::new() };
    let mut v: Vec<Tok> = vec![];
    let mut total = 0;
    let mut bad = false;
    loop {
        while c.is(space) {
            c.i += 1
        }
        let Some(b) = c.peek() else { break };
        if v.len() == 25 {
            // only ignored punctuation after the last word there is room for: either way
            if c.s[c.i..].iter().all(|&b| space(b) || b.is_ascii_punctuation() && b != b'+' && b != b'-' && b != b'.') {
                return Err(Stop::Skip);
            }
            bad = true;
            break;
        }
        let kind;
        if digit(b) {
            c.take_while(digit);
            if c.is(|b| b == b':') {
                kind = Kind::Time;
                c.take_while(|b| digit(b) || b == b':' || b == b'.');
            } else if c.is(|b| matches!(b, b'-' | b'/' | b'.')) {
                let sep = c.peek().unwrap();
                c.take();
                if c.is(digit) {
                    c.take_while(digit);
                    if c.is(|b| b == sep) {
                        kind = Kind::Date;
                        c.take_while(|b| digit(b) || b == sep);
                    } else {
                        kind = if sep == b'.' { Kind::Num } else { Kind::Date };
                    }
                } else if sep == b'.' && c.peek().is_none() {
                    kind = Kind::Num; // a number with nothing after its point
                } else {
                    kind = Kind::Date;
                    c.take_while(|b| b.is_ascii_alphanumeric() || b == sep);
                }
            } else {
                kind = Kind::Num;
            }
        } else if b == b'.' {
            c.take();
            c.take_while(digit);
            kind = Kind::Num;
        } else if b.is_ascii_alphabetic() {
            c.take_while(|b| b.is_ascii_alphabetic());
            let glued = match c.peek() {
                Some(b'-' | b'/' | b'.') => true,
                Some(b) if b == b'+' || digit(b) => !word_exists(&c.out),
                _ => false,
            };
            if glued {
                kind = Kind::Date;
                c.take_while(|b| b.is_ascii_alphanumeric() || b"+-/_.:".contains(&b));
            } else {
                kind = Kind::Word;
            }
        } else if b == b'+' || b == b'-' {
            c.take();
            while c.is(space) {
                c.i += 1
            }
            if c.is(digit) {
                kind = Kind::Signed;
                c.take_while(|b| digit(b) || matches!(b, b':' | b'.' | b'-'));
            } else if c.is(|b| b.is_ascii_alphabetic()) {
                kind = Kind::SignedWord;
                c.take_while(|b| b.is_ascii_alphabetic());
            } else {
                bad = true;
                break;
            }
        } else if b.is_ascii_punctuation() {
            c.i += 1;
            continue;
        } else {
            bad = true;
            break;
        }
        total += c.out.len();
        v.push((kind, std::mem::take(&mut c.out)));
    }
    if total > 128 {
        return Err(Stop::Skip);
    }
    if bad || v.is_empty() || v.len() > 25 {
        return Err(BAD);
    }
    Ok(v)
}

// ------------------------------------------------------------------ words

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Lab {
    Year,
    Month,
    Day,
    Hour,
    Minute,
    Second,
    Julian,
    Time,
    Other,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Word {
    Month(i64),
    Weekday,
    Filler,
    Am,
    Pm,
    Ad,
    Bc,
    Zero,
    Inf,
    NegInf,
    Label(Lab),
    T,
    /// a word for no value
    Void,
    Refused,
    Unknown,
}

const MONTHS: [&[&str]; 12] = [
    &["jan", "january"],
    &["feb", "february"],
    &["mar", "march"],
    &["apr", "april"],
    &["may"],
    &["jun", "june"],
    &["jul", "july"],
    &["aug", "august"],
    &["sep", "sept", "september"],
    &["oct", "october"],
    &["nov", "november"],
    &["dec", "december"],
];
const WEEKDAYS: &[&str] = &[
    "sun", "sunday", "mon", "monday", "tue", "tues", "tuesday", "wed", "weds", "wednesday", "thu", "thur", "thurs", "thursday", "fri",
    "friday", "sat", "saturday",
];

fn cut(w: &str) -> &str {
    &w[..w.len().min(10)]
}

pub fn word(w: &str) -> Word {
    let w = cut(w);
    for (i, names) in MONTHS.iter().enumerate() {
        if names.contains(&w) {
            return Word::Month(i as i64 + 1);
        }
    }
    if WEEKDAYS.contains(&w) {
        return Word::Weekday;
    }
    match w {
        "at" | "on" => Word::Filler,
        "am" => Word::Am,
        "pm" => Word::Pm,
        "ad" => Word::Ad,
        "bc" => Word::Bc,
        "allballs" => Word::Zero,
        "infinity" => Word::Inf,
        "-infinity" => Word::NegInf,
        "y" => Word::Label(Lab::Year),
        "m" => Word::Label(Lab::Month),
        "d" => Word::Label(Lab::Day),
        "h" => Word::Label(Lab::Hour),
        "mm" => Word::Label(Lab::Minute),
        "s" => Word::Label(Lab::Second),
        "j" | "jd" | "julian" => Word::Label(Lab::Julian),
        "dow" | "doy" | "isodow" => Word::Label(Lab::Other),
        "t" => Word::T,
        "invalid" | "undefined" | "epoch" => Word::Void,
        "now" | "today" | "tomorrow" | "yesterday" | "current" | "dst" => Word::Refused,
        _ => Word::Unknown,
    }
}

fn word_exists(w: &str) -> bool {
    word(w) != Word::Unknown
}

// ------------------------------------------------------------------ numbers

/// Optional sign and digits (possibly none: 0). The rest of the text follows.
fn int(s: &str) -> P<(i64, &str)> {
    let (neg, t) = match s.as_bytes().first() {
        Some(b'-') => (true, &s[1..]),
        Some(b'+') => (false, &s[1..]),
        _ => (false, s),
    };
    let n = t.bytes().take_while(|&b| digit(b)).count();
    if n > 10 {
        return Err(BAD);
    }
    let mut v = 0i64;
    for b in t[..n].bytes() {
        v = v * 10 + (b - b'0') as i64;
    }
    if neg {
        v = -v
    }
    if v < i32::MIN as i64 || v > i32::MAX as i64 {
        return Err(BAD);
    }
    Ok((v, &t[n..]))
}

/// "." and digits, alone: ten-millionths.
fn tenmillionths(s: &str) -> P<i64> {
    let (v, rest) = tenmillionths_prefix(s)?;
    if rest.is_empty() { Ok(v) } else { Err(BAD) }
}

fn tenmillionths_prefix(s: &str) -> P<(i64, &str)> {
    let t = &s[1..];
    let n = t.bytes().take_while(|&b| digit(b)).count();
    if n > 7 || n == 0 {
        return Err(BAD);
    }
    let mut v = 0;
    for k in 0..7 {
        v = v * 10 + t[..n].as_bytes().get(k).map_or(0, |b| (b - b'0') as i64);
    }
    Ok((v, &t[n..]))
}

// ------------------------------------------------------------------ dates and times

mod bit {
    pub const YEAR: u32 = 1;
    pub const MONTH: u32 = 2;
    pub const DAY: u32 = 4;
    pub const DATE: u32 = 7;
    pub const HOUR: u32 = 8;
    pub const MINUTE: u32 = 16;
    pub const SECOND: u32 = 32;
    pub const SUBSEC: u32 = 64;
    pub const TIME: u32 = 8 + 16 + 32 + 64;
    pub const DOY: u32 = 128;
    pub const WEEKDAY: u32 = 256;
    pub const AMPM: u32 = 512;
    pub const ERA: u32 = 1024;
    pub const SPECIAL: u32 = 2048;
    pub const ZONE: u32 = 4096;
}
use bit::*;

#[derive(Debug, Clone, Copy, PartialEq)]
enum Dest {
    Date,
    Time,
    Inf(bool),
    Void,
}

#[derive(Debug, Clone)]
struct St {
    order: DateOrder,
    y: i64,
    mo: i64,
    d: i64,
    doy: i64,
    h: i64,
    mi: i64,
    s: i64,
    us: i64,
    tol: i64,
    have: u32,
    julian: bool,
    short_year: bool,
    text_month: bool,
    bc: bool,
    half: Option<bool>,
    label: Option<Lab>,
    dest: Dest,
}

impl St {
    fn new(order: DateOrder) -> St {
        St {
            order,
            y: 0,
            mo: 0,
            d: 0,
            doy: 0,
            h: 0,
            mi: 0,
            s: 0,
            us: 0,
            tol: 0,
            have: 0,
            julian: false,
            short_year: false,
            text_month: false,
            bc: false,
            half: None,
            label: None,
            dest: Dest::Date,
        }
    }

    fn mark(&mut self, got: u32) -> P<()> {
        if self.have & got != 0 {
            return Err(BAD);
        }
        self.have |= got;
        Ok(())
    }

    fn set_fraction(&mut self, ten: i64) {
        self.us = (ten + 5) / 10;
        self.tol = (ten % 10 == 5) as i64;
    }

    fn set_julian(&mut self, n: i64) {
        let (y, m, d) = cal::civil(n + cal::MIN_DATE);
        self.y = y;
        self.mo = m;
        self.d = d;
        self.julian = true;
    }

    /// hh:mm, hh:mm:ss[.f] or mm:ss.f
    fn clock(&mut self, s: &str) -> P<()> {
        self.clock_in(s, false)
    }

    /// `minute_second`: nn:nn is mm:ss.
    fn clock_in(&mut self, s: &str, minute_second: bool) -> P<()> {
        let (a, r) = int(s)?;
        let r = r.strip_prefix(':').ok_or(BAD)?;
        let (b, r) = int(r)?;
        self.us = 0;
        self.tol = 0;
        if r.is_empty() {
            (self.h, self.mi, self.s) = if minute_second { (0, a, b) } else { (a, b, 0) };
        } else if r.starts_with('.') {
            let f = tenmillionths(r)?;
            (self.h, self.mi, self.s) = (0, a, b);
            self.set_fraction(f);
        } else {
            let (c, r) = int(r.strip_prefix(':').ok_or(BAD)?)?;
            (self.h, self.mi, self.s) = (a, b, c);
            if r.starts_with('.') {
                let f = tenmillionths(r)?;
                self.set_fraction(f);
            } else if !r.is_empty() {
                return Err(BAD);
            }
        }
        if self.h < 0 || !(0..60).contains(&self.mi) || !(0..=60).contains(&self.s) {
            return Err(BAD);
        }
        Ok(())
    }

    /// Run-together yymmdd.., hhmmss or hhmm; what it sets. `have` is what counts as known.
    fn run_together(&mut self, s: &str, have: u32) -> P<u32> {
        let mut n = s;
        if let Some(p) = s.find('.') {
            let (f, _) = tenmillionths_prefix(&s[p..])?;
            self.set_fraction(f);
            n = &s[..p];
        } else if have & DATE != DATE && s.len() >= 6 {
            let l = s.len();
            self.d = int(&s[l - 2..])?.0;
            self.mo = int(&s[l - 4..l - 2])?.0;
            self.y = int(&s[..l - 4])?.0;
            if l == 6 {
                self.short_year = true;
            }
            return Ok(DATE);
        }
        if have & TIME != TIME && (n.len() == 6 || n.len() == 4) {
            self.h = int(&n[..2])?.0;
            self.mi = int(&n[2..4])?.0;
            self.s = if n.len() == 6 { int(&n[4..])?.0 } else { 0 };
            return Ok(TIME);
        }
        Err(BAD)
    }

    /// A number whose meaning comes from the order and from what is known already.
    fn number(&mut self, s: &str, text_month: bool, have: u32) -> P<u32> {
        let (v, r) = int(s)?;
        if r.len() == s.len() {
            return Err(BAD);
        }
        if r.starts_with('.') {
            if s.len() - r.len() > 2 {
                return self.run_together(s, have | DATE);
            }
            let f = tenmillionths(r)?;
            self.set_fraction(f);
        } else if !r.is_empty() {
            return Err(BAD);
        }
        let date = have & DATE;
        if s.len() == 3 && date == YEAR && (1..=366).contains(&v) {
            self.doy = v;
            return Ok(DOY | MONTH | DAY);
        }
        let long = s.len() >= 3;
        let what = match date {
            0 if long || self.order == DateOrder::YMD => YEAR,
            0 if self.order == DateOrder::DMY => DAY,
            0 => MONTH,
            YEAR | DAY => MONTH,
            MONTH if text_month && (long || self.order == DateOrder::YMD) => YEAR,
            MONTH => DAY,
            x if x == YEAR | MONTH => {
                if text_month && long && self.short_year {
                    // the first number was the day after all
                    self.d = self.y;
                    self.y = v;
                    self.short_year = false;
                    return Ok(DAY);
                }
                DAY
            }
            x if x == MONTH | DAY => YEAR,
            x if x == DATE => return self.run_together(s, have),
            _ => return Err(BAD), // year and day without a month
        };
        match what {
            YEAR => {
                self.y = v;
                self.short_year = s.len() <= 2;
            }
            MONTH => self.mo = v,
            _ => self.d = v,
        }
        Ok(what)
    }

    /// A date written with separators.
    fn date(&mut self, s: &str) -> P<u32> {
        let mut parts: Vec<&str> = vec![];
        let mut rest = s;
        while !rest.is_empty() && parts.len() < 25 {
            rest = rest.trim_start_matches(|c: char| !c.is_ascii_alphanumeric());
            if rest.is_empty() {
                return Err(BAD);
            }
            let alpha = rest.as_bytes()[0].is_ascii_alphabetic();
            let n = rest.bytes().take_while(|b| if alpha { b.is_ascii_alphabetic() } else { digit(*b) }).count();
            parts.push(&rest[..n]);
            rest = &rest[n..];
        }
        let mut have = self.have;
        let mut got = 0;
        let mut text_month = false;
        for p in &parts {
            if p.as_bytes()[0].is_ascii_alphabetic() {
                let Word::Month(m) = word(p) else { return Err(BAD) };
                if have & MONTH != 0 {
                    return Err(BAD);
                }
                self.mo = m;
                text_month = true;
                have |= MONTH;
                got |= MONTH;
            }
        }
        for p in &parts {
            if digit(p.as_bytes()[0]) {
                let k = self.number(p, text_month, have)?;
                if have & k != 0 {
                    return Err(BAD);
                }
                have |= k;
                got |= k;
            }
        }
        if have & !(DOY | ZONE) != DATE {
            return Err(BAD);
        }
        Ok(got)
    }

    /// The number after a label such as y, m, d, h, mm, s, j, t.
    fn labelled(&mut self, lab: Lab, s: &str) -> P<u32> {
        let (v, r) = int(s)?;
        if !r.is_empty() && !(r.starts_with('.') && matches!(lab, Lab::Julian | Lab::Time | Lab::Second)) {
            return Err(BAD);
        }
        let got = match lab {
            Lab::Year => {
                self.y = v;
                YEAR
            }
            Lab::Month if self.have & MONTH != 0 && self.have & HOUR != 0 => {
                self.mi = v;
                MINUTE
            }
            Lab::Month => {
                self.mo = v;
                MONTH
            }
            Lab::Day => {
                self.d = v;
                DAY
            }
            Lab::Hour => {
                self.h = v;
                HOUR
            }
            Lab::Minute => {
                self.mi = v;
                MINUTE
            }
            Lab::Second => {
                self.s = v;
                if r.is_empty() {
                    SECOND
                } else {
                    let f = tenmillionths(r)?;
                    self.set_fraction(f);
                    SECOND | SUBSEC
                }
            }
            Lab::Julian => {
                self.set_julian(v);
                if r.is_empty() {
                    DATE
                } else {
                    let us = tenmillionths(r)? * 8640;
                    (self.h, self.mi, self.s, self.us) = cal::hms(us);
                    self.tol = 1;
                    DATE | TIME
                }
            }
            Lab::Time => {
                let got = self.run_together(s, self.have | DATE)?;
                if got != TIME {
                    return Err(BAD);
                }
                got
            }
            Lab::Other => return Err(BAD),
        };
        self.label = None;
        Ok(got)
    }

    /// Era, two-digit years, day of year, and the calendar.
    fn check_date(&mut self) -> P<()> {
        if self.have & YEAR != 0 && !self.julian {
            if self.bc {
                if self.y <= 0 {
                    return Err(BAD);
                }
                self.y = 1 - self.y;
            } else if self.short_year {
                self.y += if self.y < 70 {
                    2000
                } else if self.y < 100 {
                    1900
                } else {
                    0
                };
            } else if self.y <= 0 {
                return Err(BAD);
            }
        }
        if self.have & DOY != 0 {
            if self.doy > cal::year_len(self.y) {
                return Err(BAD);
            }
            let n = cal::days(self.y, 1, 1) + self.doy - 1;
            (_, self.mo, self.d) = cal::civil(n);
        }
        if self.have & MONTH != 0 && !(1..=12).contains(&self.mo) {
            return Err(BAD);
        }
        if self.have & DAY != 0 && !(1..=31).contains(&self.d) {
            return Err(BAD);
        }
        if self.have & DATE == DATE && self.d > cal::month_len(self.y, self.mo) {
            return Err(BAD);
        }
        Ok(())
    }

    fn check_half(&mut self) -> P<()> {
        if let Some(pm) = self.half {
            if self.h > 12 {
                return Err(BAD);
            }
            self.h = self.h % 12 + if pm { 12 } else { 0 };
        }
        Ok(())
    }

    fn check_clock(&self) -> P<()> {
        let over = self.mi > 0 || self.s > 0 || self.us > 0;
        if !(0..=24).contains(&self.h) || !(0..60).contains(&self.mi) || !(0..=60).contains(&self.s) || (self.h == 24 && over) {
            return Err(BAD);
        }
        Ok(())
    }

    fn micros(&self) -> i64 {
        ((self.h * 60 + self.mi) * 60 + self.s) * cal::USEC + self.us
    }
}

fn date_time(text: &str, order: DateOrder) -> P<St> {
    let toks = tokens(text)?;
    let mut st = St::new(order);
    for (i, (kind, s)) in toks.iter().enumerate() {
        let got = match kind {
            Kind::Signed => return Err(BAD),
            Kind::Date => {
                // with a month and day already there, or after a label, it could only hold a zone
                if st.label.is_some() || st.have & (MONTH | DAY) == MONTH | DAY {
                    return Err(BAD);
                }
                st.date(s)?
            }
            Kind::Time => {
                match st.label {
                    None | Some(Lab::Time) => st.label = None,
                    _ => return Err(BAD),
                }
                st.clock(s)?;
                st.check_clock()?;
                TIME
            }
            Kind::Num => match st.label {
                Some(l) => {
                    let got = st.labelled(l, s)?;
                    st.dest = Dest::Date;
                    got
                }
                None => {
                    let point = s.find('.');
                    let have = st.have;
                    if point.is_some() && have & DATE == 0 && s.len() <= 14 {
                        st.date(s)?
                    } else if point.map_or(false, |p| p > 2) || (s.len() >= 6 && (have & DATE == 0 || have & TIME == 0)) {
                        st.run_together(s, have)?
                    } else {
                        st.number(s, st.text_month, have)?
                    }
                }
            },
            Kind::Word | Kind::SignedWord => match word(s) {
                Word::Filler => continue,
                Word::Zero => {
                    (st.h, st.mi, st.s) = (0, 0, 0);
                    st.dest = Dest::Date;
                    TIME | ZONE
                }
                Word::Inf => {
                    st.dest = Dest::Inf(true);
                    SPECIAL
                }
                Word::NegInf => {
                    st.dest = Dest::Inf(false);
                    SPECIAL
                }
                Word::Month(m) => {
                    let mut got = MONTH;
                    if st.have & MONTH != 0 && !st.text_month && st.have & DAY == 0 && (1..=31).contains(&st.mo) {
                        // the number read as the month was the day
                        st.d = st.mo;
                        got = DAY;
                    }
                    st.text_month = true;
                    st.mo = m;
                    got
                }
                Word::Weekday => WEEKDAY,
                Word::Am | Word::Pm => {
                    st.half = Some(word(s) == Word::Pm);
                    AMPM
                }
                Word::Ad | Word::Bc => {
                    st.bc = word(s) == Word::Bc;
                    ERA
                }
                Word::Label(l) => {
                    st.label = Some(l);
                    0
                }
                Word::T => {
                    let next = toks.get(i + 1).map(|t| t.0);
                    if st.have & DATE != DATE || !matches!(next, Some(Kind::Num | Kind::Time | Kind::Date)) {
                        return Err(BAD);
                    }
                    st.label = Some(Lab::Time);
                    0
                }
                Word::Void => {
                    st.dest = Dest::Void;
                    SPECIAL
                }
                Word::Refused | Word::Unknown => return Err(BAD),
            },
        };
        st.mark(got)?;
    }
    // No representable date has a year with more than seven digits.
    if st.have & YEAR != 0 && st.y.abs() > 9_999_999 {
        // ... but next to an infinity the date plays no part
        return Err(if st.dest == Dest::Date { BAD } else { Stop::Skip });
    }
    if st.dest != Dest::Date && st.have & DOY != 0 && st.y > 4713 {
        return Err(Stop::Skip);
    }
    st.check_date()?;
    st.check_half()?;
    st.check_clock()?;
    if st.dest == Dest::Void {
        return Err(BAD);
    }
    if st.dest == Dest::Date && st.have & DATE != DATE && st.have & TIME != TIME {
        return Err(BAD);
    }
    if st.dest == Dest::Date && st.have & SPECIAL != 0 {
        return Err(Stop::Skip); // "infinity j 0"
    }
    Ok(st)
}

fn verdict<T>(r: P<Ref<T>>) -> Ref<T> {
    match r {
        Ok(v) => v,
        Err(Stop::Bad) => Ref::Err,
        Err(Stop::Skip) => Ref::Skip,
    }
}

/// Day number, or the infinities' markers.
pub fn date(text: &str, order: DateOrder) -> Ref<i32> {
    verdict((|| {
        let st = date_time(text, order)?;
        match st.dest {
            Dest::Inf(true) => return Ok(Ref::Val(i32::MAX)),
            Dest::Inf(false) => return Ok(Ref::Val(i32::MIN)),
            _ => {}
        }
        if st.have & DATE != DATE {
            return Err(BAD);
        }
        let n = cal::days(st.y, st.mo, st.d);
        if !cal::valid_date(n as i128) {
            return Err(BAD);
        }
        Ok(Ref::Val(n as i32))
    })())
}

/// What a timestamp text without any date denotes in this library, by its tests: the time on
/// 30 November 2 BC's previous year end (month 0, day 0 of year 0).
pub fn dateless(text: &str, order: DateOrder) -> Option<i64> {
    let st = date_time(text, order).ok()?;
    if st.dest != Dest::Date || st.have & DATE == DATE {
        return None;
    }
    // year 0, month 0, day 0: the day before the first of month 0, i.e. 30 November of year -1
    Some((cal::days(-1, 12, 1) - 1) * cal::DAY + st.micros())
}

pub fn timestamp(text: &str, order: DateOrder) -> Ref<i64> {
    verdict((|| {
        let st = date_time(text, order)?;
        match st.dest {
            Dest::Inf(true) => return Ok(Ref::Val(i64::MAX)),
            Dest::Inf(false) => return Ok(Ref::Val(i64::MIN)),
            _ => {}
        }
        if st.have & DATE != DATE {
            return Err(BAD);
        }
        let v = cal::days(st.y, st.mo, st.d) as i128 * cal::DAY as i128 + st.micros() as i128;
        if !cal::valid_ts(v) {
            return if cal::valid_ts(v - st.tol as i128) { Ok(Ref::Either((v - st.tol as i128) as i64, 0)) } else { Err(BAD) };
        }
        Ok(done(v as i64, st.tol))
    })())
}

fn done(v: i64, tol: i64) -> Ref<i64> {
    if tol == 0 { Ref::Val(v) } else { Ref::Near(v, tol) }
}

pub fn time(text: &str, order: DateOrder) -> Ref<i64> {
    verdict((|| {
        let toks = tokens(text)?;
        let last = toks.last().unwrap().0;
        let mut st = St::new(order);
        for (i, (kind, s)) in toks.iter().enumerate() {
            let got = match kind {
                Kind::Signed => return Err(BAD),
                Kind::Date => {
                    if i == 0 && toks.len() >= 2 && (last == Kind::Date || toks[1].0 == Kind::Time) {
                        st.date(s)?
                    } else {
                        return Err(BAD);
                    }
                }
                Kind::Time => {
                    st.clock(s)?;
                    TIME
                }
                Kind::Num => match st.label {
                    Some(l) => st.labelled(l, s)?,
                    None => {
                        let point = s.find('.');
                        if point.is_some() && i == 0 && toks.len() >= 2 && last == Kind::Date {
                            st.date(s)?
                        } else if point.map_or(s.len() > 4, |p| p > 2) {
                            st.run_together(s, st.have | DATE)?
                        } else if point.is_some() {
                            return Err(BAD);
                        } else {
                            st.number(s, false, st.have | DATE)?
                        }
                    }
                },
                Kind::Word | Kind::SignedWord => match word(s) {
                    Word::Filler => continue,
                    Word::Zero => {
                        (st.h, st.mi, st.s) = (0, 0, 0);
                        TIME | ZONE
                    }
                    Word::Am | Word::Pm => {
                        st.half = Some(word(s) == Word::Pm);
                        AMPM
                    }
                    Word::Ad | Word::Bc => {
                        st.bc = word(s) == Word::Bc;
                        ERA
                    }
                    Word::Label(l) => {
                        st.label = Some(l);
                        0
                    }
                    Word::T => {
                        let next = toks.get(i + 1).map(|t| t.0);
                        if !matches!(next, Some(Kind::Num | Kind::Time | Kind::Date)) {
                            return Err(BAD);
                        }
                        st.label = Some(Lab::Time);
                        0
                    }
                    _ => return Err(BAD),
                },
            };
            st.mark(got)?;
        }
        if st.have & YEAR != 0 && st.y.abs() > 9_999_999 {
            return Err(Stop::Skip); // the date plays no part
        }
        if st.have & TIME == 0 {
            return Err(BAD);
        }
        if st.have & DOY != 0 && st.y > 4713 {
            return Err(Stop::Skip); // perhaps no representable date, but it plays no part
        }
        st.check_date()?;
        st.check_half()?;
        st.check_clock()?;
        let v = st.micros();
        if v > cal::DAY {
            // 23:59:60 and a fraction
            return Err(if v - st.tol <= cal::DAY { Stop::Skip } else { BAD });
        }
        if st.have & TIME != TIME {
            return Ok(Ref::Either(v, st.tol));
        }
        Ok(done(v, st.tol))
    })())
}

// ------------------------------------------------------------------ intervals

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Unit {
    Us,
    Ms,
    Second,
    Minute,
    Hour,
    Day,
    Week,
    Month,
    Year,
    Decade,
    Century,
    Millennium,
    /// a unit word no interval can count in
    Other,
}

enum IvWord {
    Unit(Unit),
    Ago,
    Refused,
}

pub const UNIT_WORDS: [(Unit, &[&str]); 12] = [
    (Unit::Us, &["us", "usec", "usecs", "usecond", "useconds", "microsecon"]),
    (Unit::Ms, &["ms", "msec", "msecs", "msecond", "mseconds", "millisecon"]),
    (Unit::Second, &["s", "sec", "secs", "second", "seconds"]),
    (Unit::Minute, &["m", "min", "mins", "minute", "minutes"]),
    (Unit::Hour, &["h", "hr", "hrs", "hour", "hours"]),
    (Unit::Day, &["d", "day", "days"]),
    (Unit::Week, &["w", "week", "weeks"]),
    (Unit::Month, &["mon", "mons", "month", "months"]),
    (Unit::Year, &["y", "yr", "yrs", "year", "years"]),
    (Unit::Decade, &["dec", "decs", "decade", "decades"]),
    (Unit::Century, &["c", "cent", "century", "centuries"]),
    (Unit::Millennium, &["mil", "mils", "millennia", "millennium"]),
];

fn iv_word(w: &str) -> IvWord {
    let w = cut(w);
    for (u, names) in UNIT_WORDS {
        if names.contains(&w) {
            return IvWord::Unit(u);
        }
    }
    if ["qtr", "quarter", "timezone", "timezone_h", "timezone_m"].contains(&w) {
        return IvWord::Unit(Unit::Other);
    }
    if w == "ago" { IvWord::Ago } else { IvWord::Refused }
}

/// An interval up to stated slack.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Iv {
    pub m: i64,
    pub d: i64,
    /// microseconds
    pub t: i64,
    /// months may be off by so many (fractions of a year that make whole months exactly)
    pub m_slack: i64,
    /// a whole number of days out of a fraction: may also be one day less and 24 hours more
    pub d_slack: i64,
    pub t_slack: i64,
}

impl Iv {
    pub fn admits(&self, (m, d, t): (i32, i32, i64)) -> bool {
        let (m, d, t) = (m as i64, d as i64, t as i128);
        let months = (m - self.m).abs() <= self.m_slack;
        let total = |d: i64, t: i128| d as i128 * cal::DAY as i128 + t;
        let split = (d - self.d).abs() <= self.d_slack;
        months && split && (total(d, t) - total(self.d, self.t as i128)).abs() <= self.t_slack as i128
    }
}

/// Field sums of an interval being read. Everything exact: fractions of any unit coarser than
/// the second are whole microseconds.
#[derive(Default, Clone, Debug)]
pub struct Sum {
    pub y: i128,
    pub mo: i128,
    pub d: i128,
    pub h: i128,
    pub mi: i128,
    pub s: i128,
    pub us: i128,
    pub slack: i128,
    pub m_slack: i64,
    pub d_slack: i64,
    /// an intermediate field left 32 bits
    pub wide: bool,
    /// an intermediate field came near the ends of 32 bits
    pub edge: bool,
    /// a large number with a fraction that its floating point form may round up to a whole
    pub rounds_up: bool,
    /// seconds came from amounts of these signs (bit 0: positive, bit 1: negative)
    pub signs: u8,
}

impl Sum {
    pub fn note(&mut self) {
        let fits = |v: i128| v >= i32::MIN as i128 + 1 && v <= i32::MAX as i128;
        if ![self.y, self.mo, self.d, self.h, self.mi, self.s].iter().all(|&v| fits(v)) {
            self.wide = true;
        }
        if [self.y, self.mo, self.d, self.h, self.mi, self.s].iter().any(|v| v.abs() > i32::MAX as i128 - 1_000_000) {
            self.edge = true;
        }
    }

    fn whole(&mut self, frac: i128, err: f64) {
        if err > 0.0 && frac.abs() as f64 + 4.0 * err >= 1e7 {
            self.rounds_up = true;
        }
    }

    fn sign(&mut self, v: i128) {
        self.signs |= (v > 0) as u8 | ((v < 0) as u8) << 1;
    }

    /// frac: signed ten-millionths of a unit of `us` microseconds; err: relative error of the
    /// number it was split from, in ten-millionths.
    pub fn frac_time(&mut self, frac: i128, us: i128, err: f64) {
        self.whole(frac, err);
        let exact = frac * us; // in 1e-7 microseconds
        self.sign(frac);
        self.s += exact / 10_000_000_000_000;
        self.us += div_round(exact % 10_000_000_000_000, 10_000_000);
        // floating point decides halves of a microsecond, and what its error makes one of
        let off = err * us as f64 + 1e3;
        let half = ((exact % 10_000_000).abs() as f64 - 5e6).abs();
        if off >= 5e6 {
            self.slack += (off / 1e7).ceil() as i128;
        } else if half <= off {
            self.slack += 1;
        }
    }

    /// frac of a unit of `days` days: whole days, then time.
    pub fn frac_days(&mut self, frac: i128, days: i128, err: f64) {
        self.whole(frac, err);
        // an error below half a ten-millionth does not show: fractions have seven digits
        let err = if err < 0.4 { 0.0 } else { err };
        let total = frac * days;
        let whole = total / 10_000_000;
        let rest = total % 10_000_000;
        self.d += whole;
        if frac != 0 {
            let e = (err * days as f64).ceil() as i128;
            if e > 0 && (rest.abs() <= e || rest.abs() >= 10_000_000 - e) {
                self.d_slack += 1;
            }
        }
        self.frac_time(rest, 86_400_000_000, err * days as f64);
    }

    pub fn frac_months(&mut self, frac: i128, months: i128, err: f64) {
        self.whole(frac, err);
        let total = frac * months;
        self.mo += total / 10_000_000;
        if frac != 0 {
            // A year's halves and quarters are exact in floating point; nothing else of it is
            // a whole month.
            let r = (total % 10_000_000).abs() as f64;
            let e = err * months as f64;
            if r > 0.0 && (r <= e || r >= 1e7 - e) {
                self.m_slack += 1;
            }
        }
    }

    pub fn finish(self) -> P<Iv> {
        let m = self.y * 12 + self.mo;
        let fits = |v: i128| v >= i32::MIN as i128 && v <= i32::MAX as i128;
        if !fits(m) || !fits(self.d) {
            return Err(if self.m_slack > 0 || self.d_slack > 0 { Stop::Skip } else { BAD });
        }
        if self.wide || self.rounds_up || (self.edge && (self.m_slack + self.d_slack > 0 || self.slack > 0)) {
            return Err(Stop::Skip);
        }
        let t = ((self.h * 60 + self.mi) * 60 + self.s) * 1_000_000 + self.us;
        Ok(Iv { m: m as i64, d: self.d as i64, t: t as i64, m_slack: self.m_slack, d_slack: self.d_slack, t_slack: self.slack as i64 })
    }
}

/// Nearest, halves away from zero.
pub fn div_round(a: i128, b: i128) -> i128 {
    if a >= 0 { (a + b / 2) / b } else { -((-a + b / 2) / b) }
}

pub mod range {
    pub const YEAR: i32 = 1 << 2;
    pub const MONTH: i32 = 1 << 1;
    pub const DAY: i32 = 1 << 3;
    pub const HOUR: i32 = 1 << 10;
    pub const MINUTE: i32 = 1 << 11;
    pub const SECOND: i32 = 1 << 12;
    pub const FULL: i32 = 0x7fff;
}

/// The finest field of a range limit; None when the mask is not one of the limits.
pub fn finest(r: i32) -> Option<Unit> {
    use range::*;
    let (y, m, d, h, mi, s) = (YEAR, MONTH, DAY, HOUR, MINUTE, SECOND);
    Some(match r {
        x if x == y => Unit::Year,
        x if x == m || x == y | m => Unit::Month,
        x if x == d => Unit::Day,
        x if x == h || x == d | h => Unit::Hour,
        x if x == mi || x == h | mi || x == d | h | mi => Unit::Minute,
        x if x == s || x == mi | s || x == h | mi | s || x == d | h | mi | s => Unit::Second,
        _ => return None,
    })
}

mod ivbit {
    pub const YEAR: u32 = 1;
    pub const MONTH: u32 = 2;
    pub const DAY: u32 = 4;
    pub const HOUR: u32 = 8;
    pub const MINUTE: u32 = 16;
    pub const SECOND: u32 = 32;
    pub const MS: u32 = 64;
    pub const US: u32 = 128;
    pub const TIME: u32 = 8 + 16 + 32 + 64 + 128;
    pub const WEEK: u32 = 256;
    pub const DECADE: u32 = 512;
    pub const CENTURY: u32 = 1024;
    pub const MILLENNIUM: u32 = 2048;
}

fn iv_clock(sum: &mut Sum, s: &str, minute_second: bool, neg: bool) -> P<()> {
    let mut st = St::new(DateOrder::YMD);
    st.clock_in(s, minute_second)?;
    let k = if neg { -1 } else { 1 };
    // a clock sets the fields, it does not add to them
    sum.h = k * st.h as i128;
    sum.mi = k * st.mi as i128;
    sum.s = k * st.s as i128;
    sum.us = k * st.us as i128;
    sum.slack = st.tol as i128;
    sum.sign((sum.s + sum.us).signum());
    Ok(())
}

/// A number in an interval: unit by the word to its right, or by default.
fn iv_number(sum: &mut Sum, s: &str, unit: &mut Option<Unit>, ago_unit: bool, default: Unit) -> P<u32> {
    let mut u = unit.unwrap_or(default);
    let (v, r) = int(s)?;
    let neg = s.starts_with('-');
    let mut val = v as i128;
    let mut frac = 0i128;
    if let Some(r) = r.strip_prefix('-') {
        let (v2, r) = int(r)?;
        if !(0..12).contains(&v2) || !r.is_empty() {
            return Err(BAD);
        }
        let v2 = if neg { -v2 } else { v2 };
        val = val * 12 + v2 as i128;
        u = Unit::Month;
        *unit = Some(u);
        if val < i32::MIN as i128 || val > i32::MAX as i128 {
            return Err(BAD);
        }
    } else if r.starts_with('.') {
        frac = tenmillionths(r)? as i128;
        if neg {
            frac = -frac;
        }
        if ago_unit && unit.is_none() {
            return Err(BAD);
        }
    } else if !r.is_empty() {
        return Err(BAD);
    }
    if ago_unit && unit.is_none() {
        return Err(BAD); // "1 ago": ago is no unit
    }
    *unit = Some(u);
    use ivbit::*;
    let got = match u {
        Unit::Us => {
            sum.sign(val);
            sum.us += val;
            sum.frac_time(frac, 1, 0.0);
            US
        }
        Unit::Ms => {
            sum.sign(val);
            sum.s += val / 1000;
            sum.us += val % 1000 * 1000;
            sum.frac_time(frac, 1000, 0.0);
            MS
        }
        Unit::Second => {
            sum.sign(val);
            sum.s += val;
            sum.frac_time(frac, 1_000_000, 0.0);
            if frac == 0 { SECOND } else { SECOND | MS | US }
        }
        Unit::Minute => {
            sum.mi += val;
            sum.frac_time(frac, 60_000_000, 0.0);
            MINUTE
        }
        Unit::Hour => {
            sum.h += val;
            sum.frac_time(frac, 3_600_000_000, 0.0);
            *unit = Some(Unit::Day);
            HOUR
        }
        Unit::Day => {
            sum.d += val;
            sum.frac_time(frac, 86_400_000_000, 0.0);
            DAY
        }
        Unit::Week => {
            sum.d += val * 7;
            sum.frac_days(frac, 7, 0.0);
            WEEK
        }
        Unit::Month => {
            sum.mo += val;
            sum.frac_days(frac, 30, 0.0);
            MONTH
        }
        Unit::Year => {
            sum.y += val;
            sum.frac_months(frac, 12, 0.0);
            YEAR
        }
        Unit::Decade => {
            sum.y += val * 10;
            sum.frac_months(frac, 120, 0.0);
            DECADE
        }
        Unit::Century => {
            sum.y += val * 100;
            sum.frac_months(frac, 1200, 0.0);
            CENTURY
        }
        Unit::Millennium => {
            sum.y += val * 1000;
            sum.frac_months(frac, 12000, 0.0);
            MILLENNIUM
        }
        Unit::Other => return Err(BAD),
    };
    sum.note();
    Ok(got)
}

fn traditional(text: &str, limit: i32, style: IntervalStyle) -> P<Sum> {
    let toks = tokens(text)?;
    let default = finest(limit).unwrap_or(Unit::Second);
    let minute_second = limit == range::MINUTE | range::SECOND;
    let mut sum = Sum::default();
    let mut unit: Option<Unit> = None;
    let mut ago = false;
    let mut ago_unit = false;
    let mut have = 0;
    for (kind, s) in toks.iter().rev() {
        let got = match kind {
            Kind::Time => {
                iv_clock(&mut sum, s, minute_second, false)?;
                unit = Some(Unit::Day);
                ago_unit = false;
                ivbit::TIME
            }
            Kind::Signed if s.contains(':') => {
                iv_clock(&mut sum, &s[1..], minute_second, s.starts_with('-'))?;
                unit = Some(Unit::Day);
                ago_unit = false;
                ivbit::TIME
            }
            Kind::Signed | Kind::Date | Kind::Num => iv_number(&mut sum, s, &mut unit, ago_unit, default)?,
            Kind::Word | Kind::SignedWord => match iv_word(s) {
                IvWord::Unit(u) => {
                    unit = Some(u);
                    ago_unit = false;
                    0
                }
                IvWord::Ago => {
                    ago = true;
                    ago_unit = true;
                    unit = None;
                    0
                }
                IvWord::Refused => return Err(BAD),
            },
        };
        if have & got != 0 {
            return Err(BAD);
        }
        have |= got;
    }
    if have == 0 {
        return Err(BAD);
    }
    sum.s += sum.us / 1_000_000;
    sum.us %= 1_000_000;
    sum.note();
    if style == IntervalStyle::SQLStandard && toks[0].1.starts_with('-') && !toks[1..].iter().any(|t| t.1.starts_with(['-', '+'])) {
        // The sign rule looks at each field on its own; seconds and their fraction are two. How
        // a sum of mixed signs falls into the two depends on rounding.
        if sum.signs == 3 {
            return Err(Stop::Skip);
        }
        for f in [&mut sum.y, &mut sum.mo, &mut sum.d, &mut sum.h, &mut sum.mi, &mut sum.s, &mut sum.us] {
            *f = -f.abs();
        }
    }
    if ago {
        for f in [&mut sum.y, &mut sum.mo, &mut sum.d, &mut sum.h, &mut sum.mi, &mut sum.s, &mut sum.us] {
            *f = -*f;
        }
    }
    Ok(sum)
}

/// Number at the head of an ISO 8601 field: whole part, ten-millionths (same sign), error, rest.
fn iso_number(s: &str, sign: bool) -> P<(i128, i128, f64, &str)> {
    let b = s.as_bytes().first().copied().unwrap_or(0);
    if !(digit(b) || b == b'.' || (sign && b == b'-')) {
        return Err(BAD);
    }
    let neg = b == b'-';
    let t = if neg { &s[1..] } else { s };
    let n = t.bytes().take_while(|&b| digit(b)).count();
    if n > 10 {
        return Err(BAD);
    }
    let v: i128 = if n == 0 { 0 } else { t[..n].parse().unwrap() };
    let mut rest = &t[n..];
    let mut frac = 0i128;
    let mut digits = n;
    if rest.starts_with('.') {
        let k = rest[1..].bytes().take_while(|&b| digit(b)).count();
        if k > 7 {
            return Err(BAD);
        }
        digits += k;
        if k > 0 {
            frac = tenmillionths(&rest[..k + 1])? as i128;
        }
        rest = &rest[k + 1..];
    }
    if digits == 0 {
        return Err(BAD);
    }
    // outside 32 bits, the whole and the fraction together
    let whole = v * 10_000_000 + frac;
    let (lo, hi) = (i32::MIN as i128 * 10_000_000, i32::MAX as i128 * 10_000_000);
    let signed = if neg { -whole } else { whole };
    if signed < lo || signed > hi {
        return Err(BAD);
    }
    let k = if neg { -1 } else { 1 };
    // the whole number and its fraction share one 53-bit significand
    let err = if frac == 0 { 0.0 } else { v as f64 * 2.3e-16 * 1e7 };
    Ok((k * v, k * frac, err, rest))
}

fn iso(text: &str) -> P<Sum> {
    let mut s = text.strip_prefix('P').filter(|s| !s.is_empty()).ok_or(BAD)?;
    let mut sum = Sum::default();
    let mut date = true;
    let mut field = false;
    while !s.is_empty() {
        if let Some(r) = s.strip_prefix('T') {
            date = false;
            field = false;
            s = r;
            continue;
        }
        let start = s;
        let (v, f, e, rest) = iso_number(s, true)?;
        let unit = rest.as_bytes().first().copied().unwrap_or(0);
        s = if unit == 0 { rest } else { rest.get(1..).ok_or(BAD)? };
        let width = start.trim_start_matches('-').bytes().take_while(|&b| digit(b)).count();
        if start.starts_with('-') && matches!(unit, 0 | b'-' | b':' | b'T') {
            return Err(BAD);
        }
        match (date, unit) {
            (true, b'Y') => {
                sum.y += v;
                sum.frac_months(f, 12, e);
            }
            (true, b'M') => {
                sum.mo += v;
                sum.frac_days(f, 30, e);
            }
            (true, b'W') => {
                sum.d += v * 7;
                sum.frac_days(f, 7, e);
            }
            (true, b'D') => {
                sum.d += v;
                sum.frac_time(f, 86_400_000_000, e);
            }
            (false, b'H') => {
                sum.h += v;
                sum.frac_time(f, 3_600_000_000, e);
            }
            (false, b'M') => {
                sum.mi += v;
                sum.frac_time(f, 60_000_000, e);
            }
            (false, b'S') => {
                sum.s += v;
                sum.frac_time(f, 1_000_000, e);
            }
            // alternative forms
            (true, 0 | b'T') if width == 8 && !field => {
                sum.y += v / 10000;
                sum.mo += v / 100 % 100;
                sum.d += v % 100;
                sum.frac_time(f, 86_400_000_000, e);
                if unit == b'T' {
                    date = false;
                    field = false;
                    sum.note();
                    continue;
                }
                break;
            }
            (true, 0 | b'T' | b'-') => {
                if field {
                    return Err(BAD);
                }
                sum.y += v;
                sum.frac_months(f, 12, e);
                if unit == 0 {
                    break;
                }
                if unit == b'-' {
                    let (v, f, e, r) = iso_number(s, false)?;
                    sum.mo += v;
                    sum.frac_days(f, 30, e);
                    s = r;
                    if let Some(r) = s.strip_prefix('-') {
                        let (v, f, e, r) = iso_number(r, false)?;
                        sum.d += v;
                        sum.frac_time(f, 86_400_000_000, e);
                        s = r;
                    }
                    if !s.is_empty() && !s.starts_with('T') {
                        return Err(BAD);
                    }
                }
                sum.note();
                date = false;
                field = false;
                if s.is_empty() && unit == b'-' {
                    break;
                }
                continue;
            }
            (false, 0) if width == 6 && !field => {
                sum.h += v / 10000;
                sum.mi += v / 100 % 100;
                sum.s += v % 100;
                sum.frac_time(f, 1_000_000, e);
                break;
            }
            (false, 0 | b':') => {
                if field {
                    return Err(BAD);
                }
                sum.h += v;
                sum.frac_time(f, 3_600_000_000, e);
                if unit == b':' {
                    let (v, f, e, r) = iso_number(s, false)?;
                    sum.mi += v;
                    sum.frac_time(f, 60_000_000, e);
                    s = r;
                    if let Some(r) = s.strip_prefix(':') {
                        let (v, f, e, r) = iso_number(r, false)?;
                        sum.s += v;
                        sum.frac_time(f, 1_000_000, e);
                        s = r;
                    }
                    if !s.is_empty() {
                        return Err(BAD);
                    }
                }
                break;
            }
            _ => return Err(BAD),
        }
        sum.note();
        field = true;
    }
    sum.note();
    Ok(sum)
}

/// The interval a text denotes, before any precision or range limit is applied to it (the
/// limit matters only for what a bare number, or nn:nn, means).
pub fn interval(text: &str, limit: i32, style: IntervalStyle) -> Ref<Iv> {
    let r = match traditional(text, limit, style) {
        Err(Stop::Bad) if text.starts_with('P') && !text.contains('\0') => iso(text),
        r => r,
    };
    verdict(r.and_then(|s| s.finish()).map(Ref::Val))
}
