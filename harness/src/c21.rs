//! C21: ordering.
use crate::rec::*;
use crate::{sx, t};
use ikal::{Date, DateTime, Period};
use std::cmp::Ordering;

fn zone_day() -> Civil {
    // days around the clock changes of the zones, and others
    let md = [(10, 27), (11, 3), (3, 31), (2, 29)][sx::choice(t::param("DAYS", 2), "day")];
    Civil { y: 2024, m: md.0, d: md.1 + sx::choice(t::param("NEXT", 1), "next") as i64, s: 0 }
}
fn date_time() -> DateTime {
    let k = 1 + sx::choice(2, "kind");
    date_time_of(k)
}
fn date_time_of(k: usize) -> DateTime {
    match start(k, with_second(zone_day())) {
        Date::DateTime(x) => x,
        _ => unreachable!(),
    }
}
fn date() -> Date {
    match sx::choice(3, "kind") {
        0 => {
            let y = YEARS[sx::choice(2, "year")];
            Date::Date(naive_date(Civil { y, m: 10, d: sx::range(1, 31, "date"), s: 0 }))
        }
        k => Date::DateTime(date_time_of(k)),
    }
}
fn pair<T: Ord>(a: &T, b: &T) {
    let o = a.cmp(b);
    sx::check(b.cmp(a) == o.reverse(), "the order is not antisymmetric");
    sx::check(a.partial_cmp(b) == Some(o), "partial_cmp and cmp disagree");
    sx::check((a == b) == (o == Ordering::Equal), "order and equality disagree");
    sx::check((a < b) == (o == Ordering::Less) && (a >= b) == (o != Ordering::Less) && (a <= b) == (o != Ordering::Greater), "operators and cmp disagree");
}
fn triple<T: Ord>(a: &T, b: &T, c: &T) {
    let ab = a.cmp(b);
    let bc = b.cmp(c);
    let ac = a.cmp(c);
    if ab != Ordering::Greater && bc != Ordering::Greater {
        sx::check(ac != Ordering::Greater, "the order is not transitive");
        if ab == Ordering::Less || bc == Ordering::Less {
            sx::check(ac == Ordering::Less, "the order is not strictly transitive");
        }
        sx::cover("ordered triple");
    }
}
pub fn dates() {
    let (a, b) = (date(), date());
    pair(&a, &b);
    sx::check(a.cmp(&a) == Ordering::Equal, "a date is not equal to itself");
    let (x, y) = (wall(&a), wall(&b));
    if x != y {
        sx::check(a.cmp(&b) == x.cmp(&y), "dates are not in chronological order");
        sx::cover("different");
    } else {
        sx::cover("same wall clock");
    }
}
pub fn dates3() {
    triple(&date(), &date(), &date());
}
pub fn times() {
    let (a, b) = (date_time(), date_time());
    pair(&a, &b);
    let (x, y) = (a.naive(), b.naive());
    sx::check(x == wall(&a.into()) && y == wall(&b.into()), "the wall clock of a date-time");
    if x != y {
        sx::check(a.cmp(&b) == x.cmp(&y), "date-times are not in chronological order");
        sx::cover("different");
    } else {
        sx::cover("same wall clock");
    }
}
pub fn times3() {
    triple(&date_time(), &date_time(), &date_time());
}
fn near(kinds: u64) -> DateTime {
    // a second of an hour that a zone may repeat
    let k = sx::choice(kinds, "kind");
    let c = Civil { y: 2024, m: 10, d: 27, s: sx::range(0, t::param("SPAN", 7199) as i64, "second") };
    match start(if k == 0 { 1 } else { 2 }, Civil { s: c.s + if k == 2 { 7200 } else { 0 }, ..c }) {
        Date::DateTime(x) => x,
        _ => unreachable!(),
    }
}
fn period(kinds: u64) -> Period {
    let a = near(kinds);
    if sx::flag("duration") {
        Period::StartDur(ikal::period::StartDur { start: a, duration: chrono::TimeDelta::seconds(sx::range(-8000, 8000, "length")) })
    } else {
        Period::StartEnd(ikal::period::StartEnd { start: a, end: near(kinds) })
    }
}
pub fn periods() {
    let (a, b) = (period(3), period(3));
    pair(&a, &b);
    let (x, y) = (a.duration(), b.duration());
    if x != y {
        sx::check(a.cmp(&b) == x.cmp(&y), "periods are not ordered by length first");
        sx::cover("different lengths");
    } else {
        sx::cover("same length");
    }
    match (&a, &b) {
        (Period::StartEnd(a), Period::StartEnd(b)) => pair(a, b),
        (Period::StartDur(a), Period::StartDur(b)) => pair(a, b),
        _ => (),
    }
}
pub fn periods3() {
    let k = t::param("KINDS", 1);
    triple(&period(k), &period(k), &period(k));
}
/// Each kind of period on its own is ordered by length first.
pub fn lengths() {
    let k = t::param("KINDS", 2);
    let go = |o: Ordering, x: chrono::TimeDelta, y: chrono::TimeDelta| {
        if x != y {
            sx::check(o == x.cmp(&y), "periods of a kind are not ordered by length first");
            sx::cover("different lengths");
        }
    };
    let (a, b) = (near(k), near(k));
    if sx::flag("duration") {
        let (x, y) = (chrono::TimeDelta::seconds(sx::range(-8000, 8000, "length")), chrono::TimeDelta::seconds(sx::range(-8000, 8000, "length")));
        let (a, b) = (ikal::period::StartDur { start: a, duration: x }, ikal::period::StartDur { start: b, duration: y });
        go(a.cmp(&b), x, y)
    } else {
        let (a, b) = (ikal::period::StartEnd { start: a, end: near(k) }, ikal::period::StartEnd { start: b, end: near(k) });
        go(a.cmp(&b), a.end - a.start, b.end - b.start)
    }
}
/// Times and lengths with fractions of seconds.
pub fn fractions() {
    let part = |name: &str| (sx::range(0, 2, name), sx::range(0, 999_999_999, name) as u32);
    let at = |kind: usize, (s, n): (i64, u32)| {
        let day = chrono::NaiveDate::from_ymd_opt(2024, 7, 1).unwrap();
        let x = day.and_time(chrono::NaiveTime::from_hms_nano_opt(1, 0, s as u32, n).unwrap());
        match start(kind, Civil { y: 2024, m: 7, d: 1, s: 3600 }) {
            Date::DateTime(DateTime::Naive(_)) => DateTime::Naive(x),
            Date::DateTime(DateTime::Local(_)) => DateTime::Local(x.and_local_timezone(chrono::Local).unwrap()),
            _ => unreachable!(),
        }
    };
    let len = |(s, n): (i64, u32)| chrono::TimeDelta::new(s - 1, n).unwrap();
    let (x, y) = (part("first"), part("second"));
    let zero = at(1, (0, 0));
    if x != y {
        sx::cover("different");
    }
    match sx::choice(3, "what") {
        0 => {
            let (j, k) = (1 + sx::choice(2, "kind"), 1 + sx::choice(2, "kind"));
            let (a, b) = (at(j, x), at(k, y));
            pair(&a, &b);
            pair(&Date::DateTime(a), &Date::DateTime(b));
            if x != y {
                sx::check(a.cmp(&b) == x.cmp(&y), "fractions of seconds are not in chronological order");
            }
        }
        1 => {
            let of = |v| ikal::period::StartDur { start: zero, duration: len(v) };
            pair(&of(x), &of(y));
            pair(&Period::StartDur(of(x)), &Period::StartDur(of(y)));
        }
        _ => {
            let of = |v| ikal::period::StartEnd { start: zero, end: at(1, v) };
            pair(&of(x), &of(y));
            pair(&Period::StartEnd(of(x)), &Period::StartEnd(of(y)));
        }
    }
}
