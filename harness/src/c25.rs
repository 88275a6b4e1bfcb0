//! C25: a value looks the same in every view, and conversions keep it.
use crate::props::*;
use crate::{rec, sx, t};
use ikal::period::{StartDur, StartEnd};
use ikal::ser::Serialize;
use ikal::{Date, DateTime, Period, RDate, Text, Uri, VAlarm, VEvent};
use std::fmt::Display;

/// What is written of `x` after the colon, alone, as an option and in a list.
fn written<T: Serialize>(x: T) -> (Option<String>, String) {
    let (a, s) = (x.attr(), x.ical().unwrap_or_default());
    let whole = match &a {
        Some(a) => t::cat(&[a, ":", &s]),
        None => s.clone(),
    };
    sx::check(ikal::ser::ical(&x).as_ref() == Ok(&whole), "ser::ical writes another text");
    let o = Some(x);
    sx::check(o.attr() == a && o.ical().as_ref() == Ok(&s), "an optional value is written in another way");
    let l = vec![o, None];
    sx::check(l.ical() == Ok(t::cat(&[&s, ","])), "a list is written in another way");
    (a, s)
}
fn shown<T: Serialize + Display>(x: T) -> (Option<String>, String) {
    let d = x.to_string();
    let w = written(x);
    sx::check(w.1 == d, "a value is displayed in another way than written");
    w
}
/// The line of a property with this value.
fn line(name: &str, w: &(Option<String>, String)) -> String {
    match &w.0 {
        Some(a) => t::cat(&[name, ";", a, ":", &w.1]),
        None => t::cat(&[name, ":", &w.1]),
    }
}
fn has<T: Serialize>(c: &T, name: &str, w: &(Option<String>, String)) {
    let l = line(name, w);
    let ok = ikal::ser::ical(c).map(|s| t::unfold(&s).contains(&l));
    sx::check(ok == Ok(true), "a value is written in another way inside of a component")
}
fn event(name: &str, w: (Option<String>, String), f: impl FnOnce(&mut VEvent)) {
    let mut e = VEvent { uid: "u".into(), ..Default::default() };
    f(&mut e);
    has(&e, name, &w)
}
fn date() -> Date {
    let k = sx::choice(3, "kind");
    let c = rec::days(2, 3);
    rec::start(k, if k == 0 { c } else { rec::with_second(c) })
}
fn moment() -> DateTime {
    DateTime::Naive(rec::naive(rec::with_second(rec::days(1, 2))))
}
/// Dates, times and periods.
pub fn dates() {
    sx::cover("value");
    match sx::choice(8, "type") {
        0 => {
            let d = date();
            event("DTSTART", shown(d), |e| e.dtstart = d)
        }
        1 => {
            let d = date();
            event("EXDATE", shown(d), |e| e.exdate = vec![d])
        }
        2 => {
            let x = moment();
            event("CREATED", shown(x), |e| e.created = Some(x))
        }
        3 => {
            let l = RDate::Date(vec![date(), dt(b'3').into()]);
            event("RDATE", shown(l.clone()), |e| e.rdate = vec![l])
        }
        4 => {
            let p = StartEnd { start: dt(b'1'), end: moment() };
            let w = shown(p.clone());
            sx::check(shown(Period::StartEnd(p.clone())) == w, "a period is written in another way");
            has(&ikal::VFreebusy { freebusy: vec![Period::StartEnd(p)], ..Default::default() }, "FREEBUSY", &w)
        }
        5 => {
            let p = StartDur { start: moment(), duration: dur(digit("d")) };
            let w = shown(p.clone());
            sx::check(shown(Period::StartDur(p.clone())) == w, "a period is written in another way");
            has(&ikal::VFreebusy { freebusy: vec![Period::StartDur(p)], ..Default::default() }, "FREEBUSY", &w)
        }
        6 => {
            let t = ikal::Trigger::DateTime(moment());
            let w = written(t.clone());
            has(&ikal::valarm::Audio { trigger: t.clone(), ..Default::default() }, "TRIGGER", &w);
            has(&VAlarm::from(ikal::valarm::Audio { trigger: t, ..Default::default() }), "TRIGGER", &w)
        }
        _ => {
            let p = Period::StartEnd(StartEnd { start: dt(b'1'), end: moment() });
            let l = RDate::Period(vec![p.clone(), p]);
            event("RDATE", shown(l.clone()), |e| e.rdate = vec![l])
        }
    }
}
/// The other types.
pub fn others() {
    let d = digit("d");
    sx::cover("value");
    match sx::choice(14, "type") {
        0 => event("CLASS", shown(class(d)), |e| e.class = Some(class(d))),
        1 => event("STATUS", shown(status(d)), |e| e.status = Some(status(d))),
        2 => event("TRANSP", shown(transp(d)), |e| e.transp = Some(transp(d))),
        3 => event("GEO", shown(geo(d)), |e| e.geo = Some(geo(d))),
        4 => event("RRULE", written(recur(d)), |e| e.rrule = Some(recur(d))),
        5 => event("REQUEST-STATUS", written(rstatus(d)), |e| e.rstatus = vec![rstatus(d)]),
        6 => {
            let x = chrono::TimeDelta::seconds(sx::range(-99999, 99999, "length"));
            event("DURATION", shown(x), |e| e.duration = Some(x))
        }
        7 => {
            let x = sx::int(8, "number") as u8;
            event("PRIORITY", shown(x), |e| e.priority = Some(x))
        }
        8 => {
            let x = [sx::int(16, "number") as u32, u32::MAX][sx::choice(2, "which")];
            event("SEQUENCE", shown(x), |e| e.sequence = Some(x))
        }
        9 => {
            let w = written(offset(d));
            has(&ikal::vtimezone::Standard { tzoffsetto: offset(d), ..Default::default() }, "TZOFFSETTO", &w)
        }
        10 => drop(shown(rec::FREQS[sx::choice(7, "freq")].clone())),
        11 => {
            let x = ikal::WeekdayNum { weekday: ikal::Weekday::Friday, ord: [Some(sx::int(8, "ord") as i8), None][sx::choice(2, "which")] };
            drop(shown(x))
        }
        12 => drop(shown(sx::int(8, "number") as i8)),
        _ => {
            let t = ikal::Trigger::Duration(chrono::TimeDelta::seconds(sx::range(-9999, 9999, "length")));
            let w = written(t.clone());
            has(&VAlarm::from(ikal::valarm::Email { trigger: t, ..Default::default() }), "TRIGGER", &w)
        }
    }
}
/// Texts, addresses and lines.
pub fn texts() {
    let s = sx::unicode_n(sx::choice(t::param("N", 2) + 1, "n"), "text");
    let mut params = Params::new();
    for _ in 0..sx::choice(3, "parameters") {
        params.insert(sx::ascii_n(1, "name"), sx::unicode_n(1, "value"));
    }
    sx::cover("text");
    let mut e = VEvent::default();
    e.x_prop.insert("A".into(), s.as_str().into());
    e.x_prop.insert("B".into(), s.clone().into());
    let (mut c, b) = (e.x_prop.remove("A").unwrap(), e.x_prop.remove("B").unwrap());
    sx::check(c == b && c.value == s && c.key.is_empty() && c.params.is_empty(), "a line is another than its text");
    c.params = params.clone();
    c.key = "SUMMARY".into();
    sx::check(c.to_string() == s, "a line is displayed in another way");
    let x: Text = c.clone().into();
    sx::check(x.text == s && x.params == params, "a text is another than its line");
    sx::check(x.to_string() == s && *x == *s && AsRef::<str>::as_ref(&x) == s, "a text is displayed in another way");
    let u: Uri = c.clone().into();
    sx::check(u.uri == s && u.params == params, "an address is another than its line");
    sx::check(u.to_string() == s && *u == *s, "an address is displayed in another way");
    let (a, b, i): (Text, Text, Text) = (s.as_str().into(), s.clone().into(), Text::from(&s));
    sx::check(a == b && b == i && a.text == s && a.params.is_empty(), "a text is another than its string");
    let (a, b): (Uri, Uri) = (s.as_str().into(), s.clone().into());
    sx::check(a == b && a.uri == s && a.params.is_empty(), "an address is another than its string");
    // all write parameters in one way
    sx::check(x.attr() == u.attr() && u.attr() == c.attr(), "parameters are written in another way");
    let w = written(x.clone());
    sx::check(w.1 == s.ical().unwrap_or_default(), "a text is written in another way than a string");
}
/// Alarms of a kind.
pub fn alarms() {
    sx::cover("alarm");
    macro_rules! kind {
        ($k:ident, $n:literal) => {{
            let mut x: ikal::valarm::$k = rec::dressed();
            let d = digit("d");
            for p in <ikal::valarm::$k as Comp>::PROPS {
                if p.n == N::Many && p.name != "NAME" && p.name != "X-AB" {
                    for c in [d, b'4', b'4', d, b'0'] {
                        (p.set)(&mut x, &sample(p, c));
                    }
                }
            }
            x.action = ["", $n, "DISPLAY", "x"][sx::choice(4, "action")].into();
            let mut want = x.clone();
            want.action = $n.into();
            let a = VAlarm::from(x);
            sx::check(a == VAlarm::$k(want.clone()), "an alarm is another than that of its kind");
            sx::check(ikal::ser::ical(&a) == ikal::ser::ical(&want), "an alarm of a kind is written in another way");
        }};
    }
    match sx::choice(3, "kind") {
        0 => kind!(Audio, "AUDIO"),
        1 => kind!(Display, "DISPLAY"),
        _ => kind!(Email, "EMAIL"),
    }
}
/// Views of a date.
pub fn views() {
    let d = date();
    sx::cover("date");
    let n = rec::wall(&d);
    sx::check(d.has_time() == (rec::kind(&d) > 0), "a date has a time or not");
    sx::check(d.date_naive() == n.date(), "another day");
    let f = ["%Y-%m-%d", "%d.%m.%y", "%Y%m%d"][sx::choice(3, "format")];
    sx::check(d.format(f).to_string() == n.format(f).to_string(), "another day is shown");
    let x = DateTime::from(d);
    sx::check(x.naive() == n && x.date_naive() == n.date(), "another time");
    sx::check(x.format("%d %H:%M:%S").to_string() == n.format("%d %H:%M:%S").to_string(), "another time is shown");
    if let Date::DateTime(t) = d {
        sx::check(t == x && Date::from(t) == d && t.to_string() == d.to_string(), "another date");
        sx::check(d.format("%d %H:%M:%S").to_string() == n.format("%d %H:%M:%S").to_string(), "another time is shown");
    }
}
/// Constructors.
pub fn new() {
    sx::cover("new");
    macro_rules! all {
        ($($t:ty),*) => { $( sx::check(<$t>::new() == <$t>::default(), concat!(stringify!($t), "::new() is not the default")); )* };
    }
    all!(ikal::VCalendar, VEvent, ikal::VTodo, ikal::VJournal, ikal::VFreebusy, ikal::VTimezone, ikal::valarm::Audio, ikal::valarm::Display, ikal::valarm::Email, ikal::Trigger, RDate);
    sx::check(ikal::Trigger::new() == ikal::Trigger::Duration(chrono::TimeDelta::zero()), "a trigger is not at once");
    sx::check(RDate::new() == RDate::Date(vec![]), "a list of dates is not empty");
}
