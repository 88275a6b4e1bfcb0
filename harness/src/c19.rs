//! C19: range queries.
use crate::rec::*;
use crate::{sx, t};
use ikal::iter::Recurring;
use ikal::{Date, DateTime};
use std::cmp::Ordering;

#[derive(Clone, Copy)]
struct Query {
    kind: usize, // 0 between, 1 after, 2 at
    a: Date,
    b: Date,
}
fn inside(s: &Date, q: &Query) -> bool {
    order(s, &q.a) != Ordering::Less && (q.kind == 1 || order(s, &q.b) == Ordering::Less)
}
/// The results of a query against the occurrences `all`, in lockstep.
fn compare<T: Item + Recurring>(all: ikal::iter::Recur<T>, mut got: impl Iterator<Item = T>, q: Query) {
    for b in all {
        if inside(&b.start(), &q) {
            match got.next() {
                Some(x) => sx::check(same(&x.start(), &b.start()), "another occurrence than those in the window"),
                None => {
                    sx::check(false, "an occurrence in the window is missing");
                    return;
                }
            }
            sx::cover("inside");
        } else {
            sx::cover("outside");
        }
    }
    sx::check(got.next().is_none(), "an occurrence outside the window");
}
fn ask<T: Item + Recurring, D: Into<Date> + Copy>(item: &T, q: Query, a: D, b: D) {
    match q.kind {
        0 => compare(item.occ(), item.occ().between(a, b), q),
        1 => compare(item.occ(), item.occ().after(a), q),
        _ => compare(item.occ(), item.occ().at(a), q),
    }
}
/// The window: its bounds are whole days, floating times or local times, passed as one of several types.
fn window<T: Item + Recurring>(item: &T, kind: usize, a: Date, b: Date, library: bool) {
    let b = if kind == 2 {
        match a {
            Date::Date(x) => Date::Date(x + chrono::TimeDelta::days(1)),
            Date::DateTime(DateTime::Naive(x)) => (x + chrono::TimeDelta::days(1)).into(),
            Date::DateTime(DateTime::Local(x)) => (x + chrono::TimeDelta::days(1)).into(),
        }
    } else {
        b
    };
    let q = Query { kind, a, b };
    match (a, b, library && sx::flag("library type")) {
        (Date::Date(x), Date::Date(y), true) => ask(item, q, x, y),
        (Date::DateTime(DateTime::Naive(x)), Date::DateTime(DateTime::Naive(y)), true) => ask(item, q, x, y),
        (Date::DateTime(DateTime::Local(x)), Date::DateTime(DateTime::Local(y)), true) => ask(item, q, x, y),
        _ => ask(item, q, a, b),
    }
}
fn floating<T: Item + Recurring>() {
    let k = sx::choice(2, "start");
    let c = if k == 1 { with_second(days(1, 1)) } else { days(1, 1) };
    let f = sx::choice(7, "freq");
    let i = intervals(2);
    let item = T::make(start(k, c), ikal::Recur { count: Some(t::param("COUNT", 2) as u8), ..rule(f, i) }, vec![]);
    let kind = sx::choice(3, "query");
    let a = bound(c, f, i, "from");
    let b = if kind == 0 { bound(c, f, i, "to") } else { a };
    window(&item, kind, a, b, true);
}
/// An arbitrary day or second of the month of the start, or of the next occurrence.
fn bound(c: Civil, f: usize, i: u8, name: &str) -> Date {
    let steps = if f < 5 { 0 } else { sx::choice(2, "steps") as i64 };
    let n = c.y * 12 + c.m - 1 + steps * months(f, i);
    let (y, m) = (n / 12, n % 12 + 1);
    let u = sx::choice(2, "bound");
    let d = Civil { y, m, d: sx::range(1, t::month_len(y, m), name), s: 0 };
    start(u, if u == 1 { with_second(d) } else { d })
}
pub fn event() {
    floating::<ikal::VEvent>()
}
pub fn journal() {
    floating::<ikal::VJournal>()
}
pub fn todo() {
    floating::<ikal::VTodo>()
}
/// Local times around clock changes.
pub fn local() {
    let md = [(3, 30), (10, 26), (3, 9), (11, 2)][sx::choice(t::param("DAYS", 4), "day")];
    let c = with_second(Civil { y: 2024, m: md.0, d: md.1, s: 0 });
    let f = sx::choice(4, "freq");
    let item = ikal::VEvent::make(start(2, c), ikal::Recur { count: Some(2), ..rule(f, 1) }, vec![]);
    let kind = sx::choice(3, "query");
    let u = sx::choice(3, "bound");
    let mut b = |n| {
        let d = Civil { y: 2024, m: md.0, d: md.1 + sx::choice(2, n) as i64, s: 0 };
        start(u, if u > 0 { with_second(d) } else { d })
    };
    let from = b("from");
    let to = if kind == 0 { b("to") } else { from };
    window(&item, kind, from, to, true);
}
/// Many occurrences and an endless rule: any whole-day window.
pub fn many() {
    let k = sx::choice(2, "start");
    let f = 2 + sx::choice(5, "freq");
    let c = Civil { y: 2024, m: 1, d: 31, s: 0 };
    let n = [24 * 3, 9, 9, 9, 3][f - 2];
    let counted = sx::flag("count");
    let rule = ikal::Recur { count: if counted { Some(n as u8) } else { None }, ..rule(f, 1) };
    let item = ikal::VEvent::make(start(k, c), rule, vec![]);
    let m = 1 + sx::choice(3, "month") as i64;
    let y = if f == 6 { 2024 + sx::choice(2, "year") as i64 } else { 2024 };
    let day = |n| Date::Date(naive_date(Civil { y, m, d: sx::range(1, t::month_len(y, m), n), s: 0 }));
    let q = Query { kind: 0, a: day("from"), b: day("to") };
    let mut got = item.recurrent().between(q.a, q.b);
    for b in item.recurrent().take(n) {
        if inside(&b.start(), &q) {
            match got.next() {
                Some(x) => sx::check(same(&x.start(), &b.start()), "another occurrence than those in the window"),
                None => {
                    sx::check(false, "an occurrence in the window is missing");
                    return;
                }
            }
        }
    }
    if counted {
        sx::check(got.next().is_none(), "an occurrence outside the window");
    }
    sx::cover("many");
}

/// Components with other properties, a day or a second of the day as bounds.
pub fn context() {
    fn go<T: Item + crate::props::Comp + Recurring>() {
        let k = sx::choice(2, "start");
        let (c, first) = fixed(k);
        let f = [2, 5][sx::choice(2, "freq")];
        let item = dressed::<T>().put(first, ikal::Recur { count: Some(3), ..rule(f, 1) }, vec![]);
        near(&item, c, f, false)
    }
    match sx::choice(3, "component") {
        0 => go::<ikal::VEvent>(),
        1 => go::<ikal::VJournal>(),
        _ => go::<ikal::VTodo>(),
    }
}
/// A query whose bounds are occurrences or just before or after them.
fn near<T: Item + Recurring>(item: &T, c: Civil, f: usize, any: bool) {
    let u = sx::choice(2, "bound");
    let mut b = |name| {
        let n = if any { sx::choice(3, name) as u8 } else { 1 };
        let d = naive(c) + match f {
            5 => chrono::TimeDelta::days([0, 60, 121][n as usize]),
            6 => chrono::TimeDelta::days([0, 366, 731][n as usize]),
            _ => chrono::TimeDelta::seconds(STEP[f] * n as i64),
        };
        let off = sx::choice(3, name) as i64 - 1;
        if u == 0 { Date::Date(d.date() + chrono::TimeDelta::days(off)) } else { (d + chrono::TimeDelta::seconds(off)).into() }
    };
    let kind = sx::choice(3, "query");
    let from = b("from");
    let to = if kind == 0 { b("to") } else { from };
    window(item, kind, from, to, any);
}
/// Rules with other parts, exceptions, COUNT and UNTIL.
pub fn rules() {
    let f = [3, 1, 5, 6, 0, 2, 4][sx::choice(t::param("FREQS", 3), "freq")];
    let k = sx::choice(2, "start");
    let (c, first) = fixed(k);
    let mut r = extra(rule(f, 1), [0, 11][sx::choice(2, "extra")]);
    match sx::choice(3, "end") {
        0 => r.count = Some(3),
        1 => r.until = Some(rule(f, 2) + first),
        _ => {
            r.count = Some(4);
            r.until = Some(rule(f, 3) + first);
        }
    }
    let ex = if sx::flag("exception") { vec![rule(f, 1) + first] } else { vec![] };
    near(&ikal::VEvent::make(first, r, ex), c, f, true)
}
