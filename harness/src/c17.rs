//! C17: UNTIL.
use crate::rec::*;
use crate::{sx, t};
use ikal::Date;
use std::cmp::Ordering;

fn lockstep<T: Item + ikal::iter::Recurring>(first: Date, f: usize, i: u8, until: Date) {
    let mut all = T::make(first, rule(f, i), vec![]).occ();
    let mut it = T::make(first, ikal::Recur { until: Some(until), ..rule(f, i) }, vec![]).occ();
    for _ in 0..t::param("K", 3) {
        let b = all.next().unwrap();
        let inside = order(&b.start(), &until) != Ordering::Greater;
        match it.next() {
            Some(x) => {
                sx::check(inside, "an occurrence after UNTIL");
                sx::check(same(&x.start(), &b.start()), "another occurrence than without UNTIL");
            }
            None => {
                sx::check(!inside, "an occurrence up to UNTIL is missing");
                sx::check(it.next().is_none(), "occurrences after the end");
                sx::cover("ended");
                return;
            }
        }
    }
    sx::cover("going on");
}
/// Dates and floating times, UNTIL either of them.
fn floating<T: Item + ikal::iter::Recurring>() {
    let k = sx::choice(2, "start");
    let c = if k == 1 { with_second(days(1, 2)) } else { days(1, 2) };
    let f = sx::choice(7, "freq");
    let i = intervals(2);
    let u = sx::choice(2, "until");
    let d = until_day(c, f, i);
    let d = if u == 1 { with_second(d) } else { d };
    lockstep::<T>(start(k, c), f, i, start(u, d));
}
/// An arbitrary day of the month of the start, or of one that a step or two reach.
fn until_day(c: Civil, f: usize, i: u8) -> Civil {
    let steps = if f < 5 { 0 } else { sx::choice(3, "steps") as i64 };
    let n = c.y * 12 + c.m - 1 + steps * months(f, i);
    let (y, m) = (n / 12, n % 12 + 1);
    Civil { y, m, d: sx::range(1, t::month_len(y, m), "until day"), s: 0 }
}
pub fn event() {
    floating::<ikal::VEvent>()
}
pub fn journal() {
    floating::<ikal::VJournal>()
}
pub fn todo() {
    floating::<ikal::VTodo>()
}
/// Local times, UNTIL a local time or a date.
pub fn local() {
    let md = [(3, 30), (10, 26), (3, 9), (11, 2), (1, 31)][sx::choice(t::param("DAYS", 4), "day")];
    let c = with_second(Civil { y: 2024, m: md.0, d: md.1, s: 0 });
    let f = sx::choice(7, "freq");
    let first = start(2, c);
    let e = Civil { y: 2024, m: md.0, d: 0, s: 0 };
    let e = match f {
        5 => Civil { m: e.m + 1, d: md.1.min(30), ..e },
        6 => Civil { y: 2025, d: md.1, ..e },
        4 => Civil { d: (md.1 + 7) % 31 + 1, m: e.m + (md.1 + 7) / 31, ..e },
        _ => Civil { d: md.1 + sx::choice(2, "next day") as i64, ..e },
    };
    sx::assume(e.d <= t::month_len(e.y, e.m));
    let until = if sx::flag("until date") { start(0, e) } else { start(2, with_second(e)) };
    lockstep::<ikal::VEvent>(first, f, 1, until);
}
/// UNTIL as written in a component.
pub fn text() {
    let (ds, d) = t::digits(2, "day");
    let (hs, h) = t::digits(2, "hour");
    let (ms, m) = t::digits(2, "minute");
    sx::assume((d >= 1) & (d <= 31) & (h < 24) & (m < 60));
    let z = sx::choice(3, "shape");
    let tail = match z {
        0 => String::new(),
        1 => t::cat(&["T", &hs, &ms, "00"]),
        _ => t::cat(&["T", &hs, &ms, "00Z"]),
    };
    let date = if z == 0 { "20240115" } else { "20240115T120000" };
    let s = t::cat(&["BEGIN:VEVENT\r\nUID:u\r\nDTSTAMP:20240101T000000\r\nDTSTART:", date, if z == 2 { "Z" } else { "" }, "\r\nRRULE:FREQ=DAILY;UNTIL=202401", &ds, &tail, "\r\nEND:VEVENT\r\n"]);
    let item = match ikal::VEvent::try_from(s) {
        Ok(x) => x,
        Err(_) => {
            sx::check(false, "a rule with UNTIL is rejected");
            return;
        }
    };
    // the number of occurrences
    let late = z != 0 && h < 12;
    let n = if d < 15 { 0 } else { d - 14 - late as u64 };
    let mut it = item.recurrent();
    for j in 0..t::param("K", 18) {
        match it.next() {
            Some(_) => sx::check(n > j, "an occurrence after UNTIL in the text"),
            None => {
                sx::check(n <= j, "an occurrence up to UNTIL in the text is missing");
                break;
            }
        }
    }
    sx::cover("text");
}

fn both<T: Item + ikal::iter::Recurring>(base: &T, first: Date, r: ikal::Recur, ex: Vec<Date>, until: Date, max: u64) {
    let mut all = base.put(first, r.clone(), ex.clone()).occ();
    let mut it = base.put(first, ikal::Recur { until: Some(until), ..r }, ex).occ();
    for _ in 0..max {
        let b = all.next();
        let inside = b.as_ref().is_some_and(|b| order(&b.start(), &until) != Ordering::Greater);
        match (it.next(), b) {
            (Some(x), Some(b)) => {
                sx::check(inside, "an occurrence after UNTIL");
                sx::check(same(&x.start(), &b.start()), "another occurrence than without UNTIL");
            }
            (Some(_), None) => return sx::check(false, "more occurrences than without UNTIL"),
            (None, _) => {
                sx::check(!inside, "an occurrence up to UNTIL is missing");
                sx::check(it.next().is_none(), "occurrences after the end");
                sx::cover("ended");
                return;
            }
        }
    }
    sx::cover("going on");
}
/// Components with other properties.
pub fn context() {
    fn go<T: Item + crate::props::Comp + ikal::iter::Recurring>() {
        let base = dressed::<T>();
        let (f, u) = [(2, 0), (3, 0), (5, 1), (3, 1)][sx::choice(4, "freq")];
        let k = sx::choice(2, "start");
        let (c, first) = fixed(k);
        let d = until_day(c, f, 1);
        both(&base, first, rule(f, 1), vec![], start(u, Civil { s: if u == 1 { 86399 } else { 0 }, ..d }), 3)
    }
    match sx::choice(3, "component") {
        0 => go::<ikal::VEvent>(),
        1 => go::<ikal::VJournal>(),
        _ => go::<ikal::VTodo>(),
    }
}
/// Rules with other parts, exceptions, COUNT.
pub fn rules() {
    let f = sx::choice(7, "freq");
    let k = sx::choice(2, "start");
    let (c, first) = fixed(k);
    let i = [1, 3][sx::choice(2, "interval")];
    let mut r = extra(rule(f, i), sx::choice(EXTRAS, "extra"));
    r.count = [None, Some(2), Some(200)][sx::choice(3, "count")];
    let ex = if sx::flag("exception") { vec![first, rule(f, 2 * i) + first] } else { vec![] };
    let u = sx::choice(2, "until");
    let d = until_day(c, f, i);
    let until = start(u, if u == 1 && f < 3 { with_second(d) } else if u == 1 { Civil { s: 86399, ..d } } else { d });
    both(&ikal::VEvent::default(), first, r, ex, until, t::param("K", 3))
}
/// Many occurrences up to an arbitrary day.
pub fn many() {
    let f = 3 + sx::choice(3, "freq");
    let k = sx::choice(2, "start");
    let (_, first) = fixed(k);
    let m = [3, 9, 12][f - 3];
    let y = if f == 5 { 2024 + sx::choice(3, "year") as i64 } else { 2024 };
    let d = Civil { y, m, d: sx::range(1, t::month_len(y, m), "until day"), s: 0 };
    both(&ikal::VEvent::default(), first, rule(f, 1), vec![], start(0, d), 70)
}
