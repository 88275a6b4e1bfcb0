//! C20: what an occurrence keeps.
use crate::rec::*;
use crate::{sx, t};
use ikal::iter::Recurring;
use ikal::{Date, DateTime, VEvent, VJournal, VTodo};

const COMMON: &str = "UID:u\r\nDTSTAMP:20240101T000000\r\nDTSTART:20240101T000000\r\nCLASS:PRIVATE\r\nCREATED:20230101T010203\r\nLAST-MODIFIED:20230201T010203\r\n\
ORGANIZER;CN=\"a:b\":mailto:o\r\nSEQUENCE:7\r\nSTATUS:DRAFT\r\nSUMMARY;LANGUAGE=en:s\\,t\r\nURL:http://u\r\nRECURID:20240102T000000\r\nATTACH:a\r\nATTACH:b\r\n\
ATTENDEE;RSVP=TRUE:mailto:x\r\nATTENDEE:mailto:y\r\nCATEGORIES:c,d\r\nCOMMENT:e\r\nCONTACT:f\r\nREQUEST-STATUS:2.0;ok;x\r\nRELATED-TO:r\r\n\
RDATE:20240105T000000\r\nRDATE;VALUE=PERIOD:20240105T000000/PT1H\r\nX-A;P=q:v\r\nNAME:w\r\n";
const EVENT: &str = "DESCRIPTION:d\r\nGEO:1.5;-2.5\r\nLOCATION:l\r\nPRIORITY:3\r\nTRANSP:OPAQUE\r\nRESOURCES:m,n\r\n";
const TODO: &str = "COMPLETED:20230301T000000\r\nGEO:1.5;-2.5\r\nLOCATION:l\r\nPRIORITY:3\r\nPERCENT-COMPLETE:40\r\nRESOURCES:m,n\r\n";
const JOURNAL: &str = "DESCRIPTION:d\r\nDESCRIPTION:g\r\n";
const ALARM: &str = "BEGIN:VALARM\r\nACTION:AUDIO\r\nTRIGGER:-PT5M\r\nEND:VALARM\r\n";

/// Any status.
fn status() -> Option<ikal::Status> {
    let n = sx::int(8, "status") as u8;
    sx::assume(n < 8);
    // a plain enumeration of eight values
    Some(unsafe { std::mem::transmute::<u8, ikal::Status>(n) })
}
fn event() -> VEvent {
    let e = VEvent::try_from(t::wrap("VEVENT", &t::cat(&[COMMON, EVENT, ALARM]))).unwrap();
    VEvent { priority: Some(sx::int(8, "priority") as u8), sequence: Some(sx::int(32, "sequence") as u32), status: status(), ..e }
}
fn todo() -> VTodo {
    let t = VTodo::try_from(t::wrap("VTODO", &t::cat(&[COMMON, TODO]))).unwrap();
    let p = Some(sx::int(8, "percent") as u8);
    VTodo { priority: Some(sx::int(8, "priority") as u8), sequence: Some(sx::int(32, "sequence") as u32), status: status(), percent_complete: p, ..t }
}
fn journal() -> VJournal {
    let j = VJournal::try_from(t::wrap("VJOURNAL", &t::cat(&[COMMON, JOURNAL]))).unwrap();
    VJournal { sequence: Some(sx::int(32, "sequence") as u32), status: status(), ..j }
}
/// The other end of a component, and the component with given start, end and rule.
trait End: Item + Recurring {
    const ENDS: bool = true;
    fn end(&self) -> Option<Date>;
    fn with(&self, start: Date, end: Option<Date>, rule: ikal::Recur) -> Self;
}
impl End for VEvent {
    fn end(&self) -> Option<Date> {
        self.dtend
    }
    fn with(&self, start: Date, end: Option<Date>, rule: ikal::Recur) -> Self {
        VEvent { dtstart: start, dtend: end, rrule: Some(rule), ..self.clone() }
    }
}
impl End for VTodo {
    fn end(&self) -> Option<Date> {
        self.due
    }
    fn with(&self, start: Date, end: Option<Date>, rule: ikal::Recur) -> Self {
        VTodo { dtstart: Some(start), due: end, rrule: Some(rule), ..self.clone() }
    }
}
impl End for VJournal {
    const ENDS: bool = false;
    fn end(&self) -> Option<Date> {
        None
    }
    fn with(&self, start: Date, _: Option<Date>, rule: ikal::Recur) -> Self {
        VJournal { dtstart: start, rrule: Some(rule), ..self.clone() }
    }
}
/// Seconds from `a` to `b`.
fn length(a: &Date, b: &Date) -> i64 {
    match (a, b) {
        (Date::DateTime(DateTime::Local(a)), Date::DateTime(DateTime::Local(b))) => b.naive_utc().signed_duration_since(a.naive_utc()).num_seconds(),
        _ => wall(b).signed_duration_since(wall(a)).num_seconds(),
    }
}
fn keeps<T: End + std::fmt::Debug>(base: T, first: Date, end: Option<Date>, f: usize, i: u8) {
    let rule = ikal::Recur { count: if sx::flag("count") { Some(9) } else { None }, ..rule(f, i) };
    occurrences(base.with(first, end, rule.clone()), first, end, rule, f, t::param("K", 3))
}
fn occurrences<T: End + std::fmt::Debug>(item: T, first: Date, end: Option<Date>, rule: ikal::Recur, f: usize, n: u64) {
    let mut it = item.occ();
    for _ in 0..n {
        let Some(x) = it.next() else {
            sx::check(false, "an occurrence is missing");
            return;
        };
        match (end, x.end()) {
            (Some(e), Some(y)) => {
                sx::check(length(&x.start(), &y) == length(&first, &e), "an occurrence of another length");
                sx::check(f < 3 || kind(&y) == kind(&e), "the end becomes another kind of date");
            }
            (None, None) => (),
            _ => sx::check(false, "the end appears or disappears"),
        }
        sx::check(x.with(first, end, rule.clone()) == item, "another property of an occurrence changes");
    }
    sx::cover("occurrences");
}
/// A symbolic day, or a symbolic second of some days.
fn first(k: usize) -> Civil {
    if k == 0 {
        return days(1, 2);
    }
    let (m, d) = [(1, 31), (2, 28), (12, 31), (4, 1), (2, 29), (7, 15)][sx::choice(t::param("DAYS", 3), "day")];
    with_second(Civil { y: 2024, m, d, s: 0 })
}
/// An end some days (and seconds) after the start.
fn end(u: usize, c: Civil) -> Date {
    let days = [0, 1, 9, 30, 366][sx::choice(t::param("LENGTH", 3), "days")];
    let d = naive_date(c) + chrono::TimeDelta::days(days);
    if u == 0 {
        Date::Date(d)
    } else {
        let s = sx::range(0, 86399, "end second");
        d.and_time(chrono::NaiveTime::from_num_seconds_from_midnight_opt(s as u32, 0).unwrap()).into()
    }
}
fn floating<T: End + std::fmt::Debug>(base: T) {
    // the kinds of start and end
    let (k, u) = [(0, 0), (1, 1), (0, 1), (1, 0)][sx::choice(4, "kinds")];
    let c = first(k.max(u));
    let f = sx::choice(7, "freq");
    let i = intervals(t::param("INTERVALS", 2));
    let e = if sx::flag("no end") { None } else { Some(end(u, c)) };
    keeps(base, start(k, c), e, f, i);
}
pub fn events() {
    floating(event())
}
pub fn todos() {
    floating(todo())
}
pub fn journals() {
    let k = sx::choice(2, "start");
    let c = first(k);
    let f = sx::choice(7, "freq");
    keeps(journal(), start(k, c), None, f, intervals(2));
}
/// Local times around clock changes.
pub fn local() {
    let md = [(3, 30), (10, 26), (3, 9), (11, 2)][sx::choice(4, "day")];
    let c = with_second(Civil { y: 2024, m: md.0, d: md.1, s: 0 });
    let f = sx::choice(7, "freq");
    let first = start(2, c);
    let e = sx::range(0, 100_000, "length");
    let end = Date::DateTime(DateTime::Local((naive(c) + chrono::TimeDelta::seconds(e)).and_utc().with_timezone(&chrono::Local)));
    keeps(VEvent::default(), first, Some(end), f, 1);
}

/// Components with only one or all but one of their properties.
pub fn context() {
    fn go<T: End + crate::props::Comp + std::fmt::Debug>() {
        let k = sx::choice(2, "start");
        let (c, first) = fixed(k);
        let f = [2, 3, 5][sx::choice(3, "freq")];
        let e = if !T::ENDS || sx::flag("no end") { None } else { Some(start(k, Civil { y: 2024, m: 2, d: 10, s: c.s / 2 })) };
        let rule = rule(f, 1);
        occurrences(dressed::<T>().with(first, e, rule.clone()), first, e, rule, f, 3)
    }
    match sx::choice(3, "component") {
        0 => go::<VEvent>(),
        1 => go::<VJournal>(),
        _ => go::<VTodo>(),
    }
}
/// Rules with other parts, exceptions, many occurrences.
pub fn rules() {
    let f = sx::choice(7, "freq");
    let k = sx::choice(2, "start");
    let (c, first) = fixed(k);
    let mut r = extra(rule(f, [1, 3][sx::choice(2, "interval")]), sx::choice(EXTRAS, "extra"));
    r.count = [None, Some(200)][sx::choice(2, "count")];
    r.until = [None, Some(far(k))][sx::choice(2, "until")];
    let ex = if sx::flag("exception") { vec![rule(f, 2) + first, first] } else { vec![] };
    let e = start(k, Civil { y: 2024, m: 3, d: 1, s: c.s / 2 });
    let item = VEvent { exdate: ex, ..VEvent::default() }.with(first, Some(e), r.clone());
    occurrences(item, first, Some(e), r, f, t::param("K", 12))
}
/// Long intervals: ends which move by centuries.
pub fn long() {
    fn go<T: End + std::fmt::Debug>(base: T) {
        let (k, u) = [(0, 0), (1, 1), (0, 1), (1, 0)][sx::choice(4, "kinds")];
        let f = sx::choice(7, "freq");
        let i = match sx::choice(4, "interval") {
            0 => 2,
            1 => 100,
            2 => 254,
            _ => 255,
        };
        let (_, first) = fixed(k);
        let e = start(u, Civil { y: [2024, 2300][sx::choice(2, "end")], m: 3, d: 1, s: 4000 });
        let rule = rule(f, i);
        occurrences(base.with(first, Some(e), rule.clone()), first, Some(e), rule, f, t::param("K", 4))
    }
    if sx::flag("event") {
        go(event())
    } else {
        go(todo())
    }
}
