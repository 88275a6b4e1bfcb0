//! Shared pieces of the recurrence harnesses: starts, rules and a calendar model.
#![allow(dead_code)]
use crate::{sx, t};
use chrono::{Datelike, Timelike};
use ikal::{Date, DateTime, Freq, Recur};

pub const FREQS: [Freq; 7] = [Freq::Secondly, Freq::Minutely, Freq::Hourly, Freq::Daily, Freq::Weekly, Freq::Monthly, Freq::Yearly];
/// Seconds of a step of each frequency that has a fixed length.
pub const STEP: [i64; 5] = [1, 60, 3600, 86400, 604_800];

pub fn rule(freq: usize, interval: u8) -> Recur {
    Recur { freq: FREQS[freq].clone(), interval, ..Default::default() }
}
#[derive(Clone, Copy, PartialEq)]
pub struct Civil {
    pub y: i64,
    pub m: i64,
    pub d: i64,
    pub s: i64,
}
pub fn naive_date(c: Civil) -> chrono::NaiveDate {
    chrono::NaiveDate::from_ymd_opt(c.y as i32, c.m as u32, c.d as u32).unwrap()
}
pub fn naive(c: Civil) -> chrono::NaiveDateTime {
    naive_date(c).and_time(chrono::NaiveTime::from_num_seconds_from_midnight_opt(c.s as u32, 0).unwrap())
}
pub fn civil(d: chrono::NaiveDate) -> Civil {
    Civil { y: d.year() as i64, m: d.month() as i64, d: d.day() as i64, s: 0 }
}
pub fn civil_t(d: chrono::NaiveDateTime) -> Civil {
    Civil { s: d.time().num_seconds_from_midnight() as i64, ..civil(d.date()) }
}

/// The years of the starts: around leap years and centuries.
pub const YEARS: [i64; 8] = [2023, 2024, 2096, 1999, 2000, 1899, 9990, 4];
pub const INTERVALS: [u8; 16] = [1, 2, 3, 12, 0, 255, 5, 7, 4, 11, 13, 24, 31, 52, 100, 128];

pub const MONTHS: [i64; 12] = [1, 12, 2, 6, 3, 10, 4, 8, 11, 5, 7, 9];
/// An arbitrary day of one of the years; one path per year and month.
pub fn day() -> Civil {
    days(3, 12)
}
pub fn days(years: u64, months: u64) -> Civil {
    let y = YEARS[sx::choice(t::param("YEARS", years), "year")];
    let m = MONTHS[sx::choice(t::param("MONTHS", months), "month")];
    let d = sx::range(1, t::month_len(y, m), "day");
    Civil { y, m, d, s: 0 }
}
/// An arbitrary second of an arbitrary day.
pub fn second() -> Civil {
    with_second(day())
}
pub fn with_second(c: Civil) -> Civil {
    Civil { s: sx::range(0, 86399, "second"), ..c }
}
pub fn interval() -> u8 {
    intervals(6)
}
pub fn intervals(n: u64) -> u8 {
    let n = t::param("INTERVALS", n);
    if n > 16 { sx::choice(256, "interval") as u8 } else { INTERVALS[sx::choice(n, "interval")] }
}
/// The next day a whole multiple of `months` months after `c` that exists.
pub fn months_after(c: Civil, months: i64) -> Civil {
    let mut k = c.y * 12 + c.m - 1;
    loop {
        k += months;
        let (y, m) = (k / 12, k % 12 + 1);
        if c.d <= t::month_len(y, m) {
            return Civil { y, m, ..c };
        }
    }
}
pub fn months(freq: usize, interval: u8) -> i64 {
    interval as i64 * if freq == 6 { 12 } else { 1 }
}
/// Whether `b` is one step after `a` (interval at least 1).
pub fn steps(a: chrono::NaiveDateTime, b: chrono::NaiveDateTime, c: Civil, freq: usize, interval: u8) -> bool {
    if freq < 5 {
        b.signed_duration_since(a) == chrono::TimeDelta::seconds(STEP[freq] * interval as i64)
    } else {
        let n = months_after(c, months(freq, interval));
        let x = civil_t(b);
        (x.y == n.y) & (x.m == n.m) & (x.d == n.d) & (x.s == n.s) & (b.nanosecond() == 0)
    }
}

/// What the three recurring components have in common.
pub trait Item: Clone + PartialEq {
    fn make(start: Date, rule: Recur, exdate: Vec<Date>) -> Self;
    /// The component with another start, rule and exceptions.
    fn put(&self, start: Date, rule: Recur, exdate: Vec<Date>) -> Self;
    fn start(&self) -> Date;
    fn occ(&self) -> ikal::iter::Recur<Self>
    where
        Self: ikal::iter::Recurring;
}
macro_rules! item {
    ($t:ty, $make:expr, $start:expr) => {
        impl Item for $t {
            fn make(start: Date, rule: Recur, exdate: Vec<Date>) -> Self {
                Self { dtstart: $make(start), rrule: Some(rule), exdate, ..Default::default() }
            }
            fn put(&self, start: Date, rule: Recur, exdate: Vec<Date>) -> Self {
                Self { dtstart: $make(start), rrule: Some(rule), exdate, ..self.clone() }
            }
            fn start(&self) -> Date {
                $start(self.dtstart)
            }
            fn occ(&self) -> ikal::iter::Recur<Self> {
                self.recurrent()
            }
        }
    };
}
item!(ikal::VEvent, |x| x, |x| x);
item!(ikal::VJournal, |x| x, |x| x);
item!(ikal::VTodo, Some, |x: Option<Date>| x.unwrap());

/// A start of the kind 0: date, 1: floating time, 2: local time.
pub fn start(kind: usize, c: Civil) -> Date {
    match kind {
        0 => Date::Date(naive_date(c)),
        1 => Date::DateTime(DateTime::Naive(naive(c))),
        _ => Date::DateTime(DateTime::Local(local(c))),
    }
}
/// The two offsets of the zone in 2024.
pub fn offsets() -> [i64; 2] {
    [1, 7].map(|m| {
        let x = chrono::NaiveDate::from_ymd_opt(2024, m, 1).unwrap().and_hms_opt(12, 0, 0).unwrap();
        x.and_utc().with_timezone(&chrono::Local).naive_local().signed_duration_since(x).num_seconds()
    })
}
/// The first instant with this wall-clock time in the zone, if any.
pub fn first_instant(n: chrono::NaiveDateTime) -> Option<chrono::DateTime<chrono::Local>> {
    let mut o = offsets();
    if o[0] < o[1] {
        o.swap(0, 1);
    }
    // the largest offset gives the earliest instant
    for x in o {
        let y = (n - chrono::TimeDelta::seconds(x)).and_utc().with_timezone(&chrono::Local);
        if y.naive_local() == n {
            return Some(y);
        }
    }
    None
}
/// The local time at a UTC time.
pub fn local(c: Civil) -> chrono::DateTime<chrono::Local> {
    naive(c).and_utc().with_timezone(&chrono::Local)
}
pub fn wall(d: &Date) -> chrono::NaiveDateTime {
    match d {
        Date::Date(d) => d.and_hms_opt(0, 0, 0).unwrap(),
        Date::DateTime(DateTime::Naive(d)) => *d,
        Date::DateTime(DateTime::Local(d)) => d.naive_local(),
    }
}
pub fn kind(d: &Date) -> usize {
    match d {
        Date::Date(_) => 0,
        Date::DateTime(DateTime::Naive(_)) => 1,
        Date::DateTime(DateTime::Local(_)) => 2,
    }
}
/// The chronological order that ranges use: days if one of them is a day, instants of local times.
pub fn order(a: &Date, b: &Date) -> std::cmp::Ordering {
    match (a, b) {
        (Date::DateTime(DateTime::Local(a)), Date::DateTime(DateTime::Local(b))) => a.naive_utc().cmp(&b.naive_utc()),
        (Date::DateTime(_), Date::DateTime(_)) => wall(a).cmp(&wall(b)),
        _ => wall(a).date().cmp(&wall(b).date()),
    }
}
/// The same date or time of the same kind.
pub fn same(a: &Date, b: &Date) -> bool {
    match (a, b) {
        (Date::DateTime(DateTime::Local(a)), Date::DateTime(DateTime::Local(b))) => a.naive_utc() == b.naive_utc() && a.naive_local() == b.naive_local(),
        _ => kind(a) == kind(b) && wall(a) == wall(b),
    }
}

/// A component with only one of its properties (and the mandatory ones), or with all but one.
pub fn dressed<C: crate::props::Comp>() -> C {
    use crate::props::*;
    let i = sx::choice(C::PROPS.len() as u64, "property");
    let only = sx::flag("only");
    let mut c = C::empty();
    for (j, p) in C::PROPS.iter().enumerate() {
        if (j == i) == only || p.n == N::Must {
            (p.set)(&mut c, &sample(p, if j == i { digit("d") } else { b'5' }));
        }
    }
    c
}
pub const EXTRAS: u64 = 12;
/// The rule with parts that do not change its occurrences: WKST, one of the BY lists, or all of them.
pub fn extra(mut r: Recur, k: usize) -> Recur {
    use ikal::{Weekday, WeekdayNum};
    let all = k == 11;
    if k == 1 || all {
        r.wkst = Some([Weekday::Sunday, Weekday::Thurday][sx::choice(2, "wkst")].clone());
    }
    if k == 2 || all {
        r.by_day = vec![WeekdayNum { weekday: Weekday::Tuesday, ord: None }, WeekdayNum { weekday: Weekday::Friday, ord: Some(-1) }];
    }
    let x = if k > 2 { sx::int(8, "by") as i8 } else { 0 };
    for (i, l) in [&mut r.by_second, &mut r.by_minute, &mut r.by_hour, &mut r.by_monthday, &mut r.by_yearday, &mut r.by_weekno, &mut r.by_month, &mut r.by_setpos].into_iter().enumerate() {
        if k == 3 + i || all {
            *l = vec![x, 7];
        }
    }
    r
}
/// A few starts without symbolic parts.
pub fn fixed(k: usize) -> (Civil, Date) {
    let c = Civil { y: 2024, m: 1, d: 31, s: if k == 0 { 0 } else { 86399 } };
    (c, start(k, c))
}
/// The far future, of the kind of the start.
pub fn far(k: usize) -> Date {
    start(k, Civil { y: 9000, m: 1, d: 1, s: 0 })
}
