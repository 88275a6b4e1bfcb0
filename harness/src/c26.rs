//! C26: an iteration can be repeated, resumed and stays ended.
use crate::rec::*;
use crate::{sx, t};
use ikal::iter::Recurring;
use ikal::{Date, Recur};

trait It: Item + Recurring {}
impl<T: Item + Recurring> It for T {}

#[inline(never)]
fn equal<T: PartialEq>(a: &Option<T>, b: &Option<T>, what: &str) {
    match (a, b) {
        (Some(a), Some(b)) => sx::check(a == b, what),
        (None, None) => {}
        _ => sx::check(false, what),
    }
}
fn over<T>(mut it: impl Iterator<Item = T>, what: &str) {
    for _ in 0..3 {
        sx::check(it.next().is_none(), what);
    }
}
/// Everything about the iteration of `item` over `n` occurrences.
fn stable<T: It>(item: &T, n: usize) {
    let before = item.clone();
    let mut it = item.occ();
    let mut list = vec![];
    while list.len() < n {
        match it.next() {
            Some(x) => list.push(x),
            None => break,
        }
    }
    let ended = list.len() < n;
    if ended {
        sx::cover("ended");
        over(it, "an occurrence after the end");
    } else {
        sx::cover("going on");
    }
    sx::check(*item == before, "the iteration changed the component");
    // again
    let mut it = item.occ();
    for x in &list {
        equal(&it.next().as_ref(), &Some(x), "another iteration of the same component");
    }
    if ended {
        over(it, "another iteration does not end");
    }
    // from any occurrence
    if !list.is_empty() {
        let j = sx::choice(list.len() as u64, "occurrence");
        let mut it = list[j].occ();
        for x in &list[j..] {
            equal(&it.next().as_ref(), &Some(x), "the iteration of an occurrence is not the rest");
        }
        if ended {
            over(it, "the iteration of an occurrence does not end");
        }
    }
}
fn bounded(k: usize, c: Civil, f: usize, i: u8) -> Recur {
    let r = rule(f, i);
    match sx::choice(3, "end") {
        0 => r,
        1 => Recur { count: Some(sx::choice(4, "count") as u8), ..r },
        _ => Recur { until: Some(near(k, c, f, i, 1)), ..r },
    }
}
/// The start some steps later.
fn near(k: usize, c: Civil, f: usize, i: u8, n: i64) -> Date {
    let c = if f < 5 {
        let x = (if k == 0 { naive_date(c).and_hms_opt(0, 0, 0).unwrap() } else { naive(c) }) + chrono::TimeDelta::seconds(STEP[f] * i.max(1) as i64 * n);
        civil_t(x)
    } else {
        (0..n).fold(c, |c, _| months_after(c, months(f, i.max(1))))
    };
    start(k, c)
}
fn any<T: It>() {
    let k = sx::choice(2, "start");
    let c = if k == 1 { with_second(days(1, 2)) } else { days(2, 2) };
    let (f, i) = (sx::choice(7, "freq"), intervals(3));
    let r = bounded(k, c, f, i);
    let ex = match sx::choice(3, "exceptions") {
        0 => vec![],
        1 => vec![start(k, c)],
        _ => vec![near(k, c, f, i, 2), near(k, c, f, i, 1)],
    };
    stable(&T::make(start(k, c), r, ex), t::param("K", 3) as usize)
}
pub fn event() {
    any::<ikal::VEvent>()
}
pub fn journal() {
    any::<ikal::VJournal>()
}
pub fn todo() {
    any::<ikal::VTodo>()
}
/// Local times.
pub fn local() {
    let d = 1 + sx::choice(t::param("DAYS", 3), "day") as i64 * 15;
    let c = with_second(Civil { y: 2024, m: [3, 10][sx::choice(2, "month")], d, s: 0 });
    let (f, i) = (sx::choice(7, "freq"), intervals(2));
    let count = [None, Some(2)][sx::choice(2, "count")];
    stable(&ikal::VEvent::make(start(2, c), Recur { count, ..rule(f, i) }, vec![]), 3)
}
/// Components with other properties, and ends.
pub fn context() {
    fn go<T: It + crate::props::Comp>(ends: fn(&mut T, Date)) {
        let (c, first) = fixed(sx::choice(2, "start"));
        let mut x: T = dressed();
        ends(&mut x, Date::DateTime(ikal::DateTime::Naive(naive(c) + chrono::TimeDelta::hours(1))));
        let f = [1, 3, 5][sx::choice(3, "freq")];
        let count = [None, Some(2)][sx::choice(2, "count")];
        let x = x.put(first, extra(Recur { count, ..rule(f, 1) }, [0, EXTRAS as usize - 1][sx::choice(2, "extra")]), vec![]);
        stable(&x, 3)
    }
    match sx::choice(3, "component") {
        0 => go::<ikal::VEvent>(|e, d| e.dtend = Some(d)),
        1 => go::<ikal::VJournal>(|_, _| {}),
        _ => go::<ikal::VTodo>(|e, d| e.due = Some(d)),
    }
}
/// Many occurrences, resumed at any.
pub fn many() {
    let (_, first) = fixed(sx::choice(3, "start"));
    let n = t::param("K", 12);
    let r = Recur { count: [None, Some(n as u8 - 2)][sx::choice(2, "count")], ..rule(sx::choice(7, "freq"), [1, 2, 5][sx::choice(3, "interval")]) };
    stable(&ikal::VTodo::make(first, r, vec![]), n as usize)
}
/// Ranges, and components that do not recur.
pub fn ranges() {
    let (c, first) = fixed(sx::choice(2, "start"));
    let k = kind(&first);
    // a bare date repeats for a whole day when its rule is faster
    let f = if k == 0 { 3 + sx::choice(4, "freq") } else { sx::choice(7, "freq") };
    let r = match sx::choice(2, "end") {
        0 => Recur { count: Some(sx::choice(4, "count") as u8), ..rule(f, 1) },
        _ => Recur { until: Some(near(k, c, f, 1, 2)), ..rule(f, 1) },
    };
    let e = ikal::VEvent::make(first, r, vec![]);
    let (a, b) = (near(k, c, f, 1, sx::choice(3, "from") as i64), near(k, c, f, 1, 1 + sx::choice(3, "to") as i64));
    let go = |what: usize| -> Vec<ikal::VEvent> {
        match what {
            0 => e.recurrent().between(a, b).take(3).collect(),
            1 => e.recurrent().after(a).take(3).collect(),
            _ => e.recurrent().at(a).take(3).collect(),
        }
    };
    let what = sx::choice(3, "range");
    sx::cover("range");
    sx::check(go(what) == go(what), "another range of the same component");
    if what == 0 {
        let mut it = e.recurrent().between(a, b);
        for _ in 0..8 {
            if it.next().is_none() {
                over(it, "an occurrence after the end of a range");
                break;
            }
        }
    }
    // no rule, no start
    let none = ikal::VEvent { rrule: None, ..e.clone() };
    over(none.recurrent(), "an occurrence without a rule");
    over(none.recurrent().after(a), "an occurrence without a rule");
    let t = ikal::VTodo { dtstart: None, rrule: e.rrule.clone(), ..Default::default() };
    over(t.recurrent(), "an occurrence without a start");
}
