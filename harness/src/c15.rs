//! C15: steps of a recurrence.
use crate::rec::*;
use crate::{sx, t};
use ikal::{Date, DateTime};

fn midnight(d: chrono::NaiveDate) -> chrono::NaiveDateTime {
    d.and_hms_opt(0, 0, 0).unwrap()
}
/// One step from an arbitrary date, as a bare date and as a calendar-library date.
pub fn date() {
    let c = day();
    let f = 3 + sx::choice(4, "freq");
    let i = interval();
    sx::assume(i > 0);
    let a = naive_date(c);
    if sx::flag("library date") {
        let b = rule(f, i) + a;
        sx::check(steps(midnight(a), midnight(b), c, f, i), "step of a calendar-library date");
    } else {
        match rule(f, i) + Date::Date(a) {
            Date::Date(b) => sx::check(steps(midnight(a), midnight(b), c, f, i), "step of a date"),
            _ => sx::check(false, "a step of a date is no date"),
        }
    }
    sx::cover("date");
}
/// One step from an arbitrary floating time.
pub fn time() {
    let c = second();
    let f = sx::choice(7, "freq");
    let i = interval();
    sx::assume(i > 0);
    let a = naive(c);
    match sx::choice(3, "type") {
        0 => sx::check(steps(a, rule(f, i) + a, c, f, i), "step of a calendar-library time"),
        1 => match rule(f, i) + DateTime::Naive(a) {
            DateTime::Naive(b) => sx::check(steps(a, b, c, f, i), "step of a floating time"),
            _ => sx::check(false, "a step of a floating time is no floating time"),
        },
        _ => match rule(f, i) + Date::DateTime(DateTime::Naive(a)) {
            Date::DateTime(DateTime::Naive(b)) => sx::check(steps(a, b, c, f, i), "step of a start"),
            _ => sx::check(false, "a step of a floating start is no floating time"),
        },
    }
    sx::cover("floating time");
}

fn walk<T: Item + ikal::iter::Recurring>() {
    let k = sx::choice(2, "start");
    let c = if k == 1 { with_second(days(2, 3)) } else { days(2, 3) };
    let f = sx::choice(7, "freq");
    let i = intervals(4);
    let first = start(k, c);
    let mut it = T::make(first, rule(f, i), vec![]).occ();
    let i = i.max(1);
    match it.next() {
        Some(x) => sx::check(same(&x.start(), &first), "the first occurrence is another than the start"),
        None => sx::check(false, "no first occurrence"),
    }
    let mut last = wall(&first);
    let mut at = c;
    for _ in 0..t::param("K", 2) {
        match it.next() {
            Some(x) => {
                let s = x.start();
                sx::check(kind(&s) == if k == 0 && f < 3 { 1 } else { k }, "another kind of start");
                let b = wall(&s);
                sx::check(steps(last, b, at, f, i), "step of an iteration");
                last = b;
                if f >= 5 {
                    at = months_after(at, months(f, i));
                }
            }
            None => sx::check(false, "an endless rule ends"),
        }
    }
    sx::cover("iteration");
}
pub fn event() {
    walk::<ikal::VEvent>()
}
pub fn journal() {
    walk::<ikal::VJournal>()
}
pub fn todo() {
    walk::<ikal::VTodo>()
}
/// Local times: steps of fixed length are exact, months and years keep the wall-clock time.
pub fn local() {
    let y = sx::choice(t::param("YEARS", 1), "year");
    let md = [(3, 29), (10, 25), (3, 8), (11, 1), (1, 31), (2, 29), (12, 31), (7, 1)][sx::choice(t::param("DAYS", 6), "day")];
    let c = with_second(Civil { y: [2024, 2023][y], m: md.0, d: if y == 1 && md.0 == 2 { 28 } else { md.1 }, s: 0 });
    let f = sx::choice(7, "freq");
    let i = INTERVALS[sx::choice(t::param("INTERVALS", 3), "interval")];
    let a = crate::rec::local(c);
    let b = match (rule(f, i) + Date::DateTime(DateTime::Local(a)), sx::flag("library time")) {
        (_, true) => rule(f, i) + a,
        (Date::DateTime(DateTime::Local(b)), _) => b,
        _ => {
            sx::check(false, "a step of a local time is no local time");
            return;
        }
    };
    if f < 5 {
        let d = b.naive_utc().signed_duration_since(a.naive_utc());
        sx::check(d == chrono::TimeDelta::seconds(STEP[f] * i as i64), "length of a step of a local time");
    } else {
        let mut n = a.naive_local();
        loop {
            let m = months_after(civil_t(n), months(f, i));
            n = naive(m);
            match first_instant(n) {
                None => sx::cover("skipped"),
                Some(x) => {
                    sx::check(b.naive_utc() == x.naive_utc(), "month or year step of a local time");
                    break;
                }
            }
        }
    }
    sx::cover("local");
}

/// Every interval, from fixed starts.
pub fn every() {
    let k = sx::choice(2, "start");
    let (c, a) = fixed(k);
    let c = if sx::flag("leap day") { Civil { m: 2, d: 29, ..c } } else { c };
    let a = if c.m == 2 { start(k, c) } else { a };
    let f = sx::choice(7, "freq");
    let i = 1 + sx::choice(255, "interval") as u8;
    let b = match sx::choice(2, "how") {
        0 => rule(f, i) + a,
        _ => {
            let mut it = ikal::VEvent::make(a, rule(f, i), vec![]).recurrent();
            it.next();
            match it.next() {
                Some(x) => x.dtstart,
                None => return sx::check(false, "an endless rule ends"),
            }
        }
    };
    sx::check(steps(wall(&a), wall(&b), c, f, i), "step of an interval");
    sx::cover("interval");
}
/// The first occurrences of a component with other properties and parts of the rule that do not matter.
fn on<T: Item + ikal::iter::Recurring>(base: &T, k: usize, r: ikal::Recur, f: usize, i: u8, n: u64) {
    let (mut at, first) = fixed(k);
    let mut it = base.put(first, r, vec![]).occ();
    let mut last = None;
    for _ in 0..n {
        let Some(x) = it.next() else { return sx::check(false, "an endless rule ends") };
        let b = wall(&x.start());
        match last {
            None => sx::check(same(&x.start(), &first), "the first occurrence is another than the start"),
            Some(a) => {
                sx::check(steps(a, b, at, f, i), "step of an iteration");
                if f >= 5 {
                    at = months_after(at, months(f, i));
                }
            }
        }
        last = Some(b);
    }
}
pub fn context() {
    fn go<T: Item + crate::props::Comp + ikal::iter::Recurring>() {
        let base = dressed::<T>();
        let f = [1, 3, 5][sx::choice(3, "freq")];
        on(&base, sx::choice(2, "start"), rule(f, 2), f, 2, 3);
        sx::cover("context");
    }
    match sx::choice(3, "component") {
        0 => go::<ikal::VEvent>(),
        1 => go::<ikal::VJournal>(),
        _ => go::<ikal::VTodo>(),
    }
}
/// Many steps, with a week start, a large COUNT, a far UNTIL.
pub fn rules() {
    let f = sx::choice(7, "freq");
    let k = sx::choice(2, "start");
    let i = [1, 2, 6][sx::choice(3, "interval")];
    let mut r = extra(rule(f, i), sx::choice(2, "extra"));
    if sx::flag("count") {
        r.count = Some(200);
    }
    if sx::flag("until") {
        r.until = Some(far(sx::choice(2, "until kind")));
    }
    on(&ikal::VEvent::default(), k, r, f, i, t::param("K", 40));
    sx::cover("rules");
}
