//! C24: every way of reading a value gives the same result.
use crate::props::*;
use crate::{each_comp, sx, t};
use ikal::{Error, VCalendar};
use std::str::FromStr;

trait Read: PartialEq + FromStr<Err = Error> + for<'a> TryFrom<&'a str, Error = Error> + TryFrom<String, Error = Error> {}
impl<T: PartialEq + FromStr<Err = Error> + for<'a> TryFrom<&'a str, Error = Error> + TryFrom<String, Error = Error>> Read for T {}

/// The same value, or an error in both cases.
#[inline(never)]
fn same<T: PartialEq>(a: &Option<T>, b: &Option<T>, what: &str) {
    match (a, b) {
        (Some(a), Some(b)) => sx::check(a == b, what),
        (None, None) => {}
        _ => sx::check(false, what),
    }
}
#[inline(never)]
fn read<T: Read>(s: &str) -> Option<T> {
    let a = s.parse::<T>().ok();
    same(&a, &T::try_from(s).ok(), "TryFrom<&str> reads something else");
    same(&a, &T::try_from(String::from(s)).ok(), "TryFrom<String> reads something else");
    sx::cover(if a.is_some() { "accepted" } else { "rejected" });
    a
}
/// One of the texts, with an arbitrary character put in or in place of another, or one taken away.
fn near(bases: &[&str]) -> String {
    let b = bases[sx::choice(bases.len() as u64, "text")];
    let i = sx::choice(b.len() as u64 + 1, "place");
    let mode = if i == b.len() { 0 } else { sx::choice(3, "change") };
    let x = if mode == 2 { String::new() } else { sx::ascii_n(1, "character") };
    for c in x.bytes() {
        sx::assume((c != b'\r') & (c != b'\n'));
    }
    t::cat(&[&b[..i], &x, &b[if mode == 0 { i } else { i + 1 }..]])
}
/// The property of an event, if the event is accepted.
fn event(name: &str, s: &str) -> Option<ikal::VEvent> {
    t::vevent(&t::cat(&[name, ":", s, "\r\n"])).parse().ok()
}
const SAME: &str = "a value is read as something else inside of a component";

/// Durations alone may have years, months and any order: inside of a component less is accepted.
#[inline(never)]
fn wider<T: PartialEq>(alone: &Option<T>, inside: &Option<T>) {
    if inside.is_some() {
        same(alone, inside, SAME)
    }
}
/// Property values, alone and inside of a component.
pub fn values() {
    match sx::choice(14, "type") {
        0 => {
            let s = near(&["PUBLIC", "x", "", " PRIVATE "]);
            let a = read::<ikal::Class>(&s);
            same(&a, &event("CLASS", &s).and_then(|e| e.class), SAME)
        }
        1 => {
            let s = near(&["DRAFT", "NEEDS-ACTION", " FINAL "]);
            let a = read::<ikal::Status>(&s);
            same(&a, &event("STATUS", &s).and_then(|e| e.status), SAME)
        }
        2 => {
            let s = near(&["OPAQUE", "TRANSPARENT", " OPAQUE "]);
            let a = read::<ikal::TimeTransparency>(&s);
            same(&a, &event("TRANSP", &s).and_then(|e| e.transp), SAME)
        }
        3 => {
            let s = near(&["FREQ=DAILY;COUNT=3", "BYDAY=MO,-1FR;FREQ=MONTHLY", "FREQ=WEEKLY;UNTIL=20240101;", ";FREQ=DAILY"]);
            let a = read::<ikal::Recur>(&s);
            same(&a, &event("RRULE", &s).and_then(|e| e.rrule), SAME)
        }
        4 => {
            let s = near(&["2.5;ok;x", "3.1;no", "2.5;ok;", " 3.1;no "]);
            let a = read::<ikal::RequestStatus>(&s);
            same(&a, &event("REQUEST-STATUS", &s).and_then(|mut e| e.rstatus.pop()), SAME)
        }
        5 => {
            let s = near(&["20240101T000000/PT1H", "20240101T000000/20240102T000000", "20240101T000000//PT1H", " 20240101T000000/PT1H "]);
            let a = read::<ikal::Period>(&s);
            // a comma separates two
            if !s.contains(',') {
                let f = t::cat(&["UID:u\r\nDTSTAMP:20240101T000000\r\nFREEBUSY:", &s, "\r\n"]);
                same(&a, &t::wrap("VFREEBUSY", &f).parse::<ikal::VFreebusy>().ok().and_then(|mut f| f.freebusy.pop()), SAME)
            }
        }
        6 => {
            read::<ikal::Freq>(&near(&["DAILY", "YEARLY", " DAILY "]));
        }
        7 => {
            read::<ikal::WeekdayNum>(&near(&["-1MO", "SU", "+-1SU", "++1FR", " MO "]));
        }
        8 => {
            read::<ikal::Weekday>(&near(&["MO", "TH", " MO "]));
        }
        9 => {
            let s = near(&["20240229", "20240101T235959", "20240101T235959Z"]);
            let a = s.parse::<ikal::Date>().ok();
            sx::cover(if a.is_some() { "accepted" } else { "rejected" });
            let e = t::wrap("VJOURNAL", &t::cat(&["UID:u\r\nDTSTAMP:20240101T000000\r\nDTSTART:", &s, "\r\n"]));
            same(&a, &e.parse::<ikal::VJournal>().ok().map(|e| e.dtstart), SAME);
        }
        10 => {
            let s = near(&["20240101T235959", "20240101T235959Z"]);
            let a = s.parse::<ikal::DateTime>().ok();
            same(&a, &event("CREATED", &s).and_then(|e| e.created), SAME);
            // a date is all that is a time
            let d = s.parse::<ikal::Date>().ok();
            if let Some(a) = a {
                same(&Some(a.into()), &d, "a time is another date")
            }
        }
        11 => {
            let s = near(&["P1DT2H", "-PT5M", "P3W"]);
            let a = ikal::parse_duration(&s).ok();
            sx::cover(if a.is_some() { "accepted" } else { "rejected" });
            wider(&a, &event("DURATION", &s).and_then(|e| e.duration))
        }
        12 => {
            let s = near(&["-PT5M", "20240101T000000Z", "PT1H"]);
            let a = s.parse::<ikal::Trigger>().ok();
            let l = t::wrap("VALARM", &t::cat(&["ACTION:AUDIO\r\nTRIGGER:", &s, "\r\n"]));
            wider(&a, &l.parse::<ikal::valarm::Audio>().ok().map(|x| x.trigger))
        }
        _ => {
            // the fraction is one digit: few numbers
            let s = near(&["1.5;-2", "7;0"]);
            let a = s.parse::<ikal::Geo>().ok();
            let nan = a.as_ref().map(|g| g != g).unwrap_or(false);
            if !nan {
                read::<ikal::Geo>(&s);
                same(&a, &event("GEO", &s).and_then(|e| e.geo), SAME)
            }
        }
    }
}
/// `s` with an arbitrary character in place of any byte, or before it (but not behind the component:
/// what follows a component that is read alone is not looked at).
fn spoilt(s: &str) -> String {
    let insert = sx::flag("insert");
    let i = sx::choice(s.len() as u64 - insert as u64, "place");
    let c = sx::ascii_n(1, "character");
    t::cat(&[&s[..i], &c, &s[if insert { i } else { i + 1 }..]])
}
/// Any property of any component with an arbitrary character.
fn any<C: Comp>() -> String {
    let mut b = Built::<C>::new().must(99);
    let i = sx::choice(C::PROPS.len() as u64, "property");
    let p = &C::PROPS[i];
    let c = sx::ascii_n(1, "value");
    sx::assume((c.as_bytes()[0] != b'\r') & (c.as_bytes()[0] != b'\n'));
    let v = value(p.kind, &sample(p, b'5'));
    b.body.push_str(&t::cat(&[p.name, ":", &v[..v.len() - 1], &c, "\r\n"]));
    b.text()
}
/// Whole components.
pub fn components() {
    fn go<C: Comp + Read>() {
        let s = any::<C>();
        let a = read::<C>(&s);
        same(&a, &C::parse(&s).ok(), "an alarm of a kind is another alarm");
        if C::NAME == "VALARM" {
            read::<ikal::VAlarm>(&s);
        }
    }
    each_comp!(go)
}
fn inner(s: &str) -> Option<VCalendar> {
    t::wrap("VCALENDAR", &t::cat(&["PRODID:p\r\nVERSION:2.0\r\n", s])).parse().ok()
}
/// A component alone, and in a calendar, an event or a time zone.
pub fn nested() {
    const IN: &str = "a component is read as something else inside of another";
    let whole = sx::flag("anywhere");
    fn text<C: Comp>(whole: bool) -> String {
        if whole { spoilt(&Built::<C>::new().must(99).text()) } else { any::<C>() }
    }
    match sx::choice(8, "component") {
        0 => {
            let s = text::<ikal::VEvent>(whole);
            same(&read::<ikal::VEvent>(&s), &inner(&s).and_then(|mut c| c.events.pop()), IN)
        }
        1 => {
            let s = text::<ikal::VTodo>(whole);
            same(&read::<ikal::VTodo>(&s), &inner(&s).and_then(|mut c| c.todo.pop()), IN)
        }
        2 => {
            let s = text::<ikal::VJournal>(whole);
            same(&read::<ikal::VJournal>(&s), &inner(&s).and_then(|mut c| c.journals.pop()), IN)
        }
        3 => {
            let s = text::<ikal::VFreebusy>(whole);
            same(&read::<ikal::VFreebusy>(&s), &inner(&s).and_then(|mut c| c.freebusy.pop()), IN)
        }
        4 => {
            let s = text::<ikal::VTimezone>(whole);
            same(&read::<ikal::VTimezone>(&s), &inner(&s).and_then(|mut c| c.timezones.pop()), IN)
        }
        5 => {
            let s = text::<ikal::valarm::Display>(whole);
            let a = read::<ikal::VAlarm>(&s);
            same(&a, &inner(&s).and_then(|mut c| c.alarms.pop()), IN);
            let e: Option<ikal::VEvent> = t::vevent(&s).parse().ok();
            same(&a, &e.and_then(|mut e| e.alarms.pop()), IN);
        }
        6 => {
            let s = text::<ikal::vtimezone::Standard>(whole);
            let z: Option<ikal::VTimezone> = t::wrap("VTIMEZONE", &t::cat(&["TZID:z\r\n", &s])).parse().ok();
            same(&read(&s), &z.and_then(|mut z| z.standard.pop()), IN)
        }
        _ => {
            let s = text::<ikal::vtimezone::Daylight>(whole);
            let z: Option<ikal::VTimezone> = t::wrap("VTIMEZONE", &t::cat(&["TZID:z\r\n", &s])).parse().ok();
            same(&read(&s), &z.and_then(|mut z| z.daylight.pop()), IN)
        }
    }
}
/// An alarm as an alarm of each kind.
pub fn kinds() {
    use ikal::VAlarm::*;
    let s = match sx::choice(3, "kind") {
        0 => Built::<ikal::valarm::Audio>::new().must(99).text(),
        1 => Built::<ikal::valarm::Display>::new().must(99).text(),
        _ => Built::<ikal::valarm::Email>::new().must(99).text(),
    };
    let s = spoilt(&s);
    let (mut a, mut d, mut e) = (None, None, None);
    match read::<ikal::VAlarm>(&s) {
        Some(Audio(x)) => a = Some(x),
        Some(Display(x)) => d = Some(x),
        Some(Email(x)) => e = Some(x),
        None => {}
    }
    same(&a, &s.parse().ok(), "another audio alarm");
    same(&d, &s.parse().ok(), "another display alarm");
    same(&e, &s.parse().ok(), "another e-mail alarm");
}
/// Arbitrary text.
pub fn arbitrary() {
    let s = sx::ascii_n(sx::choice(t::param("N", 2) + 1, "n"), "text");
    match sx::choice(9, "type") {
        0 => drop(read::<ikal::Class>(&s)),
        1 => drop(read::<ikal::Status>(&s)),
        2 => drop(read::<ikal::TimeTransparency>(&s)),
        3 => drop(read::<ikal::Recur>(&s)),
        4 => drop(read::<ikal::RequestStatus>(&s)),
        5 => drop(read::<ikal::Period>(&s)),
        6 => drop(read::<ikal::Freq>(&s)),
        7 => drop(read::<ikal::WeekdayNum>(&s)),
        _ => drop(read::<ikal::Weekday>(&s)),
    }
}
/// Dates and times in a zone other than UTC.
pub fn zone() {
    let s = near(&["20240701T215959Z", "20241027T023000", "20240229"]);
    let utc = s.ends_with('Z');
    // alone, a time with Z is a time of the local zone
    let agree = |x: bool, both: bool| if utc && both { sx::kf(x, "z-alone") } else { sx::check(x, SAME) };
    let a = s.parse::<ikal::DateTime>().ok();
    sx::cover(if a.is_some() { "accepted" } else { "rejected" });
    let b = event("CREATED", &s).and_then(|e| e.created);
    agree(a == b, a.is_some() && b.is_some());
    let e = t::wrap("VJOURNAL", &t::cat(&["UID:u\r\nDTSTAMP:20240101T000000\r\nDTSTART:", &s, "\r\n"]));
    let d = s.parse::<ikal::Date>().ok();
    let b = e.parse::<ikal::VJournal>().ok().map(|e| e.dtstart);
    agree(d == b, d.is_some() && b.is_some());
    if let Some(a) = a {
        same(&Some(a.into()), &d, "a time is another date")
    }
}
