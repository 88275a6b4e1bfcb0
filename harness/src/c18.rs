//! C18: exception dates.
use crate::rec::*;
use crate::{sx, t};
use ikal::Date;

fn lockstep<T: Item + ikal::iter::Recurring>(first: Date, rule: ikal::Recur, ex: &[Date], n: u64) {
    excluded(&T::make(first, rule.clone(), vec![]), first, rule, ex, n)
}
fn excluded<T: Item + ikal::iter::Recurring>(base: &T, first: Date, rule: ikal::Recur, ex: &[Date], n: u64) {
    let mut all = base.put(first, rule.clone(), vec![]).occ();
    let mut it = base.put(first, rule, ex.to_vec()).occ();
    for _ in 0..n {
        match all.next() {
            Some(b) => {
                let s = b.start();
                let mut out = false;
                for e in ex {
                    if same(e, &s) {
                        out = true;
                    }
                }
                if out {
                    sx::cover("excluded");
                    continue;
                }
                match it.next() {
                    Some(x) => sx::check(same(&x.start(), &s), "another occurrence than without exceptions"),
                    None => {
                        sx::check(false, "an occurrence is missing");
                        return;
                    }
                }
            }
            None => {
                sx::check(it.next().is_none(), "occurrences after the end");
                sx::cover("ended");
                return;
            }
        }
    }
    sx::cover("going on");
}
fn exception(k: usize, c: Civil, f: usize, i: u8) -> Date {
    let steps = if f < 5 { 0 } else { sx::choice(3, "steps") as i64 };
    let n = c.y * 12 + c.m - 1 + steps * months(f, i);
    let (y, m) = (n / 12, n % 12 + 1);
    let d = Civil { y, m, d: sx::range(1, t::month_len(y, m), "exception day"), s: 0 };
    start(k, if k == 1 { with_second(d) } else { d })
}
fn floating<T: Item + ikal::iter::Recurring>() {
    let k = sx::choice(2, "start");
    let c = if k == 1 { with_second(days(1, 1)) } else { days(1, 1) };
    let f = sx::choice(7, "freq");
    let i = intervals(2);
    let count = [None, Some(3), Some(1)][sx::choice(3, "count")];
    let mut ex = vec![];
    for _ in 0..t::param("EX", 1) {
        let same_kind = sx::choice(2, "exception") == 0;
        ex.push(exception(if same_kind { k } else { 1 - k }, c, f, i));
    }
    lockstep::<T>(start(k, c), ikal::Recur { count, ..rule(f, i) }, &ex, t::param("K", 4));
}
pub fn event() {
    floating::<ikal::VEvent>()
}
pub fn journal() {
    floating::<ikal::VJournal>()
}
pub fn todo() {
    floating::<ikal::VTodo>()
}
/// Two exceptions on the occurrences of a daily rule.
pub fn several() {
    let c = Civil { y: 2024, m: 2, d: 28, s: 0 };
    let k = sx::choice(2, "start");
    let f = 3 + sx::choice(2, "freq");
    let mut ex = vec![];
    for _ in 0..t::param("EX", 3) {
        let n = sx::range(0, 4, "excluded") * if f == 4 { 7 } else { 1 };
        let d = if k == 0 { naive_date(c) } else { naive(c).date() } + chrono::TimeDelta::days(n);
        ex.push(if k == 0 { Date::Date(d) } else { d.and_hms_opt(0, 0, 0).unwrap().into() });
    }
    let count = if sx::flag("count") { Some(5) } else { None };
    lockstep::<ikal::VEvent>(start(k, c), ikal::Recur { count, ..rule(f, 1) }, &ex, 6);
}
/// EXDATE lines of a component: lists and repeated lines.
pub fn text() {
    let days = ["20240101T090000", "20240102T090000", "20240103T090000", "20240104T090000", "20240105T090000"];
    let (d, v) = t::digits(1, "day");
    sx::assume((v >= 1) & (v <= 6));
    let one = t::cat(&["2024010", &d, "T090000"]);
    let two = sx::choice(5, "other");
    let body = match sx::choice(3, "shape") {
        0 => t::cat(&["EXDATE:", &one, ",", days[two], "\r\n"]),
        1 => t::cat(&["EXDATE:", days[two], "\r\nEXDATE:", &one, "\r\n"]),
        _ => t::cat(&["EXDATE:", days[two], ",20230101T000000,", &one, "\r\n"]),
    };
    let s = t::cat(&["BEGIN:VEVENT\r\nUID:u\r\nDTSTAMP:20240101T000000\r\nDTSTART:20240101T090000\r\nRRULE:FREQ=DAILY;COUNT=5\r\n", &body, "END:VEVENT\r\n"]);
    let Ok(item) = ikal::VEvent::try_from(s) else {
        sx::check(false, "exceptions are rejected");
        return;
    };
    let mut it = item.recurrent();
    for (j, x) in days.iter().enumerate() {
        if j == two || j as u64 + 1 == v {
            continue;
        }
        match it.next() {
            Some(o) => sx::check(o.dtstart == x.parse().unwrap(), "another occurrence than without the exceptions of the text"),
            None => sx::check(false, "an occurrence is missing beside the exceptions of the text"),
        }
    }
    sx::check(it.next().is_none(), "an excluded occurrence of the text");
    sx::cover("text");
}
/// Local times: an exception at any second of the days of the first occurrences.
pub fn local() {
    let md = [(3, 30), (10, 26), (3, 9), (11, 2)][sx::choice(4, "day")];
    let c = with_second(Civil { y: 2024, m: md.0, d: md.1, s: 0 });
    let f = sx::choice(4, "freq");
    let e = with_second(Civil { y: 2024, m: md.0, d: md.1 + sx::choice(2, "next day") as i64, s: 0 });
    let until = if sx::flag("until") { Some(start(2, Civil { d: md.1 + 1, s: 86399, ..c })) } else { None };
    lockstep::<ikal::VEvent>(start(2, c), ikal::Recur { until, ..rule(f, 1) }, &[start(2, e)], 3);
}

/// Components with other properties.
pub fn context() {
    fn go<T: Item + crate::props::Comp + ikal::iter::Recurring>() {
        let base = dressed::<T>();
        let f = [2, 3, 5][sx::choice(3, "freq")];
        let k = sx::choice(2, "start");
        let (c, first) = fixed(k);
        let e = start(k, Civil { s: c.s, ..exception_day(c, f, 1) });
        excluded(&base, first, rule(f, 1), &[e], 3)
    }
    match sx::choice(3, "component") {
        0 => go::<ikal::VEvent>(),
        1 => go::<ikal::VJournal>(),
        _ => go::<ikal::VTodo>(),
    }
}
fn exception_day(c: Civil, f: usize, i: u8) -> Civil {
    let steps = if f < 5 { 0 } else { sx::choice(3, "steps") as i64 };
    let n = c.y * 12 + c.m - 1 + steps * months(f, i);
    let (y, m) = (n / 12, n % 12 + 1);
    Civil { y, m, d: sx::range(1, t::month_len(y, m), "exception day"), s: 0 }
}
/// Rules with other parts.
pub fn rules() {
    let f = sx::choice(7, "freq");
    let k = sx::choice(2, "start");
    let (c, first) = fixed(k);
    let mut r = extra(rule(f, 1), sx::choice(EXTRAS, "extra"));
    r.count = [None, Some(3), Some(200)][sx::choice(3, "count")];
    r.until = [None, Some(far(k)), Some(first)][sx::choice(3, "until")];
    let e = start(k, Civil { s: c.s, ..exception_day(c, f, 1) });
    excluded(&ikal::VEvent::default(), first, r, &[rule(f, 2) + first, e], 4)
}
/// Many exceptions in any order, some equal, one of them arbitrary.
pub fn many() {
    let k = sx::choice(2, "start");
    let c = Civil { y: 2024, m: 2, d: 1, s: 0 };
    let at = |n: i64| {
        let d = naive_date(c) + chrono::TimeDelta::days(n);
        if k == 0 { Date::Date(d) } else { d.and_hms_opt(0, 0, 0).unwrap().into() }
    };
    let list: [&[i64]; 4] = [&[9, 3, 17, 1, 3, 12, 11, 5, 6, 0], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &[19, 18, 17, 16, 3, 2, 1], &[5, -3, 5, 5, 400, 10]];
    let mut ex: Vec<Date> = list[sx::choice(4, "list")].iter().map(|n| at(*n)).collect();
    let i = [0, 1, ex.len() / 2, ex.len()][sx::choice(4, "where")];
    ex.insert(i, at(sx::range(0, 20, "excluded")));
    // the other kind and other zones exclude nothing
    ex.push(if k == 0 { start(1, c) } else { start(0, c) });
    let count = if sx::flag("count") { Some(15) } else { None };
    lockstep::<ikal::VEvent>(at(0), ikal::Recur { count, ..rule(3, 1) }, &ex, 21);
}
