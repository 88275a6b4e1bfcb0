//! C16: COUNT.
use crate::rec::*;
use crate::{sx, t};

fn rule_of(f: usize, i: u8, n: u64) -> ikal::Recur {
    ikal::Recur { count: Some(n as u8), ..rule(f, i) }
}
/// The first occurrences of a rule with an arbitrary COUNT against those of the rule without it.
fn prefix<T: Item + ikal::iter::Recurring>() {
    let k = sx::choice(2, "start");
    let c = if k == 1 { with_second(days(1, 2)) } else { days(1, 2) };
    let f = sx::choice(7, "freq");
    let i = intervals(2);
    let n = sx::int(8, "count");
    let first = start(k, c);
    let mut all = T::make(first, rule(f, i), vec![]).occ();
    let mut it = T::make(first, rule_of(f, i, n), vec![]).occ();
    for j in 0..t::param("K", 3) {
        let b = all.next().unwrap();
        match it.next() {
            Some(x) => {
                sx::check(n > j, "more occurrences than COUNT");
                sx::check(same(&x.start(), &b.start()), "another occurrence than without COUNT");
            }
            None => {
                sx::check(n <= j, "fewer occurrences than COUNT");
                sx::check(it.next().is_none(), "occurrences after the end");
                sx::cover("ended");
                return;
            }
        }
    }
    sx::cover("going on");
}
pub fn event() {
    prefix::<ikal::VEvent>()
}
pub fn journal() {
    prefix::<ikal::VJournal>()
}
pub fn todo() {
    prefix::<ikal::VTodo>()
}
/// All the occurrences of every COUNT, from a few starts.
pub fn total() {
    let c = [Civil { y: 2023, m: 12, d: 31, s: 86399 }, Civil { y: 2024, m: 1, d: 31, s: 0 }][sx::choice(2, "when")];
    let k = sx::choice(2, "start");
    let f = sx::choice(7, "freq");
    let i = [1, 7, 0][sx::choice(3, "interval")];
    let n = sx::int(8, "count");
    let item = ikal::VEvent::make(start(k, c), rule_of(f, i, n), vec![]);
    let mut m = 0u64;
    for _ in item.recurrent() {
        m += 1;
        sx::check(m <= n, "more occurrences than COUNT");
    }
    sx::check(m == n, "fewer occurrences than COUNT");
    sx::cover("counted");
}
/// COUNT as written in a component.
pub fn text() {
    let digits = 1 + sx::choice(3, "digits");
    let (s, n) = t::digits(digits, "count");
    sx::assume(n < 256);
    let f = sx::choice(7, "freq");
    let name = ["SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"][f];
    let rule = if sx::flag("count first") { t::cat(&["RRULE:COUNT=", &s, ";FREQ=", name, "\r\n"]) } else { t::cat(&["RRULE:FREQ=", name, ";COUNT=", &s, ";INTERVAL=2\r\n"]) };
    let item = match ikal::VEvent::try_from(t::vevent(&rule)) {
        Ok(x) => x,
        Err(_) => {
            sx::check(false, "a rule with COUNT is rejected");
            return;
        }
    };
    let mut it = item.recurrent();
    for j in 0..t::param("K", 4) {
        match it.next() {
            Some(_) => sx::check(n > j, "more occurrences than COUNT in the text"),
            None => {
                sx::check(n <= j, "fewer occurrences than COUNT in the text");
                break;
            }
        }
    }
    sx::cover("text");
}

/// The first occurrences of a component with the rule, and with the same rule and COUNT.
fn both<T: Item + ikal::iter::Recurring>(base: &T, k: usize, r: ikal::Recur, n: u64, max: u64) {
    let (_, first) = fixed(k);
    let mut all = base.put(first, r.clone(), vec![]).occ();
    let mut it = base.put(first, ikal::Recur { count: Some(n as u8), ..r }, vec![]).occ();
    for j in 0..max {
        let b = all.next().unwrap();
        match it.next() {
            Some(x) => {
                sx::check(n > j, "more occurrences than COUNT");
                sx::check(same(&x.start(), &b.start()), "another occurrence than without COUNT");
            }
            None => {
                sx::check(n <= j, "fewer occurrences than COUNT");
                sx::check(it.next().is_none(), "occurrences after the end");
                sx::cover("ended");
                return;
            }
        }
    }
    sx::cover("going on");
}
/// Components with other properties.
pub fn context() {
    fn go<T: Item + crate::props::Comp + ikal::iter::Recurring>() {
        let base = dressed::<T>();
        let f = [1, 3, 5][sx::choice(3, "freq")];
        both(&base, sx::choice(2, "start"), rule(f, 2), sx::int(8, "count"), 3)
    }
    match sx::choice(3, "component") {
        0 => go::<ikal::VEvent>(),
        1 => go::<ikal::VJournal>(),
        _ => go::<ikal::VTodo>(),
    }
}
/// Rules with other parts.
pub fn rules() {
    let f = sx::choice(7, "freq");
    let k = sx::choice(2, "start");
    let mut r = extra(rule(f, [1, 5][sx::choice(2, "interval")]), sx::choice(EXTRAS, "extra"));
    if sx::flag("until") {
        r.until = Some(far(sx::choice(2, "until kind")));
    }
    both(&ikal::VEvent::default(), k, r, sx::int(8, "count"), t::param("K", 5))
}
