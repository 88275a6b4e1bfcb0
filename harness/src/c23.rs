//! C23: the builder macros set the named fields to the given values.
use crate::props::*;
use crate::{sx, t};
use ikal::valarm::{Audio, Display, Email};
use ikal::vtimezone::{Daylight, Standard};
use ikal::*;

fn same<C: PartialEq>(got: Result<C>, want: &C) {
    match got {
        Ok(x) => sx::check(x == *want, "a macro sets something else"),
        Err(_) => sx::check(false, "a macro rejects a value"),
    }
}
fn prop<C: Comp>(name: &str) -> &'static P<C> {
    C::PROPS.iter().find(|p| p.name == name).unwrap()
}
/// One element of the kind of list `k`.
fn element(k: K, v: &V) -> String {
    match k {
        K::Exdate => t::cat(&["20240101T00000", &String::from(v.d as char)]),
        K::Rdate | K::Freebusy => String::new(),
        k => value(k, v),
    }
}
/// Sets one element of a list.
fn push<C: Comp>(c: &mut C, p: &P<C>, v: &V, f: fn(&mut C) -> &mut Vec<Date>) {
    if p.kind == K::Exdate {
        f(c).push(dt(v.d).into())
    } else {
        (p.set)(c, v)
    }
}
fn sym(name: &str, d: u8) -> V {
    v(&sx::unicode_n(t::param("N", 1) as usize, name), d)
}
fn wrong<C: Comp>(_: &mut C) -> &mut Vec<Date> {
    unreachable!()
}

/// One path per field: only that one is given.
macro_rules! each {
    ($ty:ty, $mac:ident $kind:tt, $new:expr, $exdate:expr; $($field:ident $name:literal $how:ident;)*) => {{
        const NAMES: &[&str] = &[$($name),*];
        let k = sx::choice(NAMES.len() as u64, "field");
        let d = digit("d");
        let (x, y) = (sym("value", d), v("second, value", b'7'));
        let mut i = 0;
        let mut want: $ty = $new;
        let p = prop::<$ty>(NAMES[k]);
        $(
            if i == k {
                each!(@$how $mac $kind, $field, p, x, y, want, $exdate);
            }
            i += 1;
        )*
        _ = i;
    }};
    // a text, converted or parsed
    (@str $mac:ident [$($kind:tt)*], $field:ident, $p:ident, $x:ident, $y:ident, $want:ident, $ex:expr) => {
        ($p.set)(&mut $want, &$x);
        let s = value($p.kind, &$x);
        let s = s.as_str();
        let got = $mac! { $($kind)* $field: s };
        judge(got, $want);
        return
    };
    // a list of texts
    (@list $mac:ident [$($kind:tt)*], $field:ident, $p:ident, $x:ident, $y:ident, $want:ident, $ex:expr) => {
        let mut x = $x.clone();
        if $p.kind == K::List {
            // an element is not split at commas
            x.text = x.text.replace(',', ".");
        }
        let mut y = $y.clone();
        y.text = "second".into();
        for v in [&x, &y, &x, &y, &y, &x] {
            push(&mut $want, $p, v, $ex);
        }
        let (s, u) = (element($p.kind, &x), element($p.kind, &y));
        let (s, u) = (s.as_str(), u.as_str());
        let got = $mac! { $($kind)* $field: [s, u, s, u, u, s] };
        judge(got, $want);
        return
    };
    (@opt $mac:ident [$($kind:tt)*], $field:ident, $p:ident, $x:ident, $y:ident, $want:ident, $ex:expr) => {
        ($p.set)(&mut $want, &$x);
        let s = text(&$x);
        let got = $mac! { $($kind)* $field: s };
        judge(got, $want);
        return
    };
    (@num $mac:ident [$($kind:tt)*], $field:ident, $p:ident, $x:ident, $y:ident, $want:ident, $ex:expr) => {
        ($p.set)(&mut $want, &$x);
        let got = $mac! { $($kind)* $field: num($x.d) };
        judge(got, $want);
        return
    };
    (@wide $mac:ident [$($kind:tt)*], $field:ident, $p:ident, $x:ident, $y:ident, $want:ident, $ex:expr) => {
        ($p.set)(&mut $want, &$x);
        let got = $mac! { $($kind)* $field: (num($x.d) as u32) };
        judge(got, $want);
        return
    };
    // values given as they are
    (@periods $mac:ident [$($kind:tt)*], $field:ident, $p:ident, $x:ident, $y:ident, $want:ident, $ex:expr) => {
        ($p.set)(&mut $want, &$x);
        let $field = periods($x.d);
        let got = $mac! { $($kind)* $field, };
        judge(got, $want);
        return
    };
    (@rdate $mac:ident [$($kind:tt)*], $field:ident, $p:ident, $x:ident, $y:ident, $want:ident, $ex:expr) => {
        ($p.set)(&mut $want, &$x);
        ($p.set)(&mut $want, &$y);
        let $field = vec![rdate($x.d), rdate($y.d)];
        let got = $mac! { $($kind)* $field, };
        judge(got, $want);
        return
    };
}
trait Whole<C> {
    fn whole(self) -> C;
}
impl Whole<Self> for VAlarm {
    fn whole(self) -> Self {
        self
    }
}
macro_rules! whole {
    ($($ty:ty)*) => { $( impl Whole<$ty> for $ty { fn whole(self) -> $ty { self } } )* };
}
whole! { VCalendar VEvent VTodo VJournal VFreebusy VTimezone }
impl Whole<VAlarm> for Audio {
    fn whole(self) -> VAlarm {
        self.into()
    }
}
impl Whole<VAlarm> for Display {
    fn whole(self) -> VAlarm {
        self.into()
    }
}
impl Whole<VAlarm> for Email {
    fn whole(self) -> VAlarm {
        self.into()
    }
}
fn judge<C: PartialEq, W: Whole<C>>(got: Result<C>, want: W) {
    sx::cover("field");
    same(got, &want.whole())
}

/// Each field of each macro alone.
pub fn fields() {
    match sx::choice(8, "macro") {
        0 => each! { VCalendar, vcalendar [], VCalendar::default(), wrong;
            prodid "PRODID" str; version "VERSION" str; calscale "CALSCALE" opt; method "METHOD" opt;
        },
        1 => each! { VEvent, vevent [], VEvent::default(), |c| &mut c.exdate;
            dtstamp "DTSTAMP" str; uid "UID" str; dtstart "DTSTART" str; created "CREATED" str; description "DESCRIPTION" str; geo "GEO" str;
            last_modified "LAST-MODIFIED" str; location "LOCATION" str; organizer "ORGANIZER" str; priority "PRIORITY" num; sequence "SEQUENCE" wide; summary "SUMMARY" str;
            url "URL" str; recurid "RECURID" str; rrule "RRULE" str; dtend "DTEND" str; duration "DURATION" str; attach "ATTACH" list; attendee "ATTENDEE" list;
            categories "CATEGORIES" list; comment "COMMENT" list; contact "CONTACT" list; exdate "EXDATE" list; rstatus "REQUEST-STATUS" list; related_to "RELATED-TO" list;
            resources "RESOURCES" list; rdate "RDATE" rdate;
        },
        2 => each! { VTodo, vtodo [], VTodo::default(), |c| &mut c.exdate;
            dtstamp "DTSTAMP" str; uid "UID" str; completed "COMPLETED" str; created "CREATED" str; dtstart "DTSTART" str; geo "GEO" str; last_modified "LAST-MODIFIED" str;
            location "LOCATION" str; organizer "ORGANIZER" str; percent_complete "PERCENT-COMPLETE" num; priority "PRIORITY" num; recurid "RECURID" str; sequence "SEQUENCE" wide;
            summary "SUMMARY" str; url "URL" str; rrule "RRULE" str; due "DUE" str; duration "DURATION" str; attach "ATTACH" list; attendee "ATTENDEE" list;
            categories "CATEGORIES" list; comment "COMMENT" list; contact "CONTACT" list; exdate "EXDATE" list; rstatus "REQUEST-STATUS" list; related_to "RELATED-TO" list;
            resources "RESOURCES" list; rdate "RDATE" rdate;
        },
        3 => each! { VJournal, vjournal [], VJournal::default(), |c| &mut c.exdate;
            dtstamp "DTSTAMP" str; uid "UID" str; created "CREATED" str; dtstart "DTSTART" str; last_modified "LAST-MODIFIED" str; organizer "ORGANIZER" str; recurid "RECURID" str;
            sequence "SEQUENCE" wide; summary "SUMMARY" str; url "URL" str; rrule "RRULE" str; attach "ATTACH" list; attendee "ATTENDEE" list; categories "CATEGORIES" list;
            comment "COMMENT" list; contact "CONTACT" list; description "DESCRIPTION" list; exdate "EXDATE" list; related_to "RELATED-TO" list; rdate "RDATE" rdate;
            rstatus "REQUEST-STATUS" list;
        },
        4 => each! { VFreebusy, vfreebusy [], VFreebusy::default(), wrong;
            dtstamp "DTSTAMP" str; uid "UID" str; contact "CONTACT" str; dtstart "DTSTART" str; dtend "DTEND" str; organizer "ORGANIZER" str; url "URL" str;
            attendee "ATTENDEE" list; comment "COMMENT" list; freebusy "FREEBUSY" periods; rstatus "REQUEST-STATUS" list;
        },
        5 => each! { VTimezone, vtimezone [], VTimezone::default(), wrong;
            tzid "TZID" str; last_modified "LAST-MODIFIED" str; tzurl "TZURL" str;
        },
        6 => match sx::choice(2, "alarm") {
            0 => each! { Audio, valarm [@audio,], Audio::default(), wrong;
                trigger "TRIGGER" str; duration "DURATION" str; repeat "REPEAT" wide; attach "ATTACH" list;
            },
            _ => each! { Display, valarm [@display,], Display::default(), wrong;
                trigger "TRIGGER" str; description "DESCRIPTION" str; duration "DURATION" str; repeat "REPEAT" wide;
            },
        },
        _ => each! { Email, valarm [@email,], Email::default(), wrong;
            trigger "TRIGGER" str; description "DESCRIPTION" str; summary "SUMMARY" str; attendee "ATTENDEE" list; duration "DURATION" str; repeat "REPEAT" wide; attach "ATTACH" list;
        },
    }
}
/// Enumerated values by their short names.
pub fn enums() {
    sx::cover("name");
    match sx::choice(6, "macro") {
        0 => {
            same(vevent! { class: Private, status: Cancelled, transp: Transparent }, &VEvent { class: Some(Class::Private), status: Some(Status::Cancelled), transp: Some(TimeTransparency::Transparent), ..Default::default() });
            same(vevent! { class: Public, status: Tentative, transp: Opaque }, &VEvent { class: Some(Class::Public), status: Some(Status::Tentative), transp: Some(TimeTransparency::Opaque), ..Default::default() })
        }
        1 => {
            same(vtodo! { status: NeedsAction, class: Confidential }, &VTodo { class: Some(Class::Confidential), status: Some(Status::NeedsAction), ..Default::default() });
            same(vtodo! { class: Custom("x".to_string()), status: Completed }, &VTodo { class: Some(Class::Custom("x".into())), status: Some(Status::Completed), ..Default::default() })
        }
        2 => same(vjournal! { status: Draft, class: Private }, &VJournal { class: Some(Class::Private), status: Some(Status::Draft), ..Default::default() }),
        3 => {
            let d = digit("d");
            let until: Date = day(d).into();
            let count = Some(num(d));
            let want = Recur { freq: Freq::Minutely, until: Some(until), count, interval: num(d), by_month: vec![3, 4], ..Default::default() };
            same(vevent! { rrule: { freq: Minutely, until: until, count, interval: num(d), by_month: [3, 4] } }, &VEvent { rrule: Some(want), ..Default::default() })
        }
        4 => {
            let d = digit("d");
            let want = VTodo { geo: Some(Geo { lat: 1.5, lon: -2.0 }), rstatus: vec![RequestStatus { statcode: 2.0, statdesc: String::from(d as char), extdata: Some("e".into()) }], ..Default::default() };
            let s = String::from(d as char);
            same(vtodo! { geo: { lat: 1.5, lon: -2.0 }, rstatus: [{ statcode: 2.0_f32, statdesc: s.as_str(), extdata: "e" }] }, &want)
        }
        _ => same(vjournal! { rrule: { freq: Yearly } }, &VJournal { rrule: Some(Recur { freq: Freq::Yearly, ..Default::default() }), ..Default::default() }),
    }
}
/// Many fields at once, in another order than the struct, and nothing at all.
pub fn several() {
    let d = digit("d");
    let ds = String::from(d as char);
    let time = t::cat(&["20240101T00000", &ds]);
    let time = time.as_str();
    let x = sx::unicode_n(t::param("N", 2) as usize, "text");
    let x = x.as_str();
    let dur = t::cat(&["-PT", &ds, "S"]);
    let dur = dur.as_str();
    let some = Some(Text::from(x));
    sx::cover("several");
    match sx::choice(8, "macro") {
        0 => {
            let summary = some.clone();
            let want = VEvent {
                dtstamp: dt(d), uid: x.into(), dtstart: dt(d).into(), dtend: Some(dt(d).into()), duration: Some(-crate::props::dur(d)), summary: some.clone(), priority: Some(num(d)),
                comment: vec![x.into(), "b".into()], exdate: vec![dt(d).into()], status: Some(Status::Confirmed), class: Some(Class::Private), ..Default::default()
            };
            same(vevent! { comment: [x, "b"], status: Confirmed, exdate: [time], duration: dur, dtend: time, dtstart: time, summary, uid: x, priority: num(d), dtstamp: time, class: Private, }, &want)
        }
        1 => {
            let want = VTodo { dtstamp: dt(d), uid: x.into(), due: Some(dt(d).into()), completed: Some(dt(d)), percent_complete: Some(num(d)), categories: vec!["a,b".into(), x.into()], ..Default::default() };
            same(vtodo! { due: time, completed: time, dtstamp: time, percent_complete: num(d), categories: ["a,b", x], uid: x, }, &want)
        }
        2 => {
            let want = VJournal { dtstamp: dt(d), uid: x.into(), description: vec![x.into(), x.into()], dtstart: dt(d).into(), recurid: Some(dt(d).into()), ..Default::default() };
            same(vjournal! { description: [x, x], recurid: time, dtstart: time, uid: x, dtstamp: time }, &want)
        }
        3 => {
            let freebusy = periods(d);
            let want = VFreebusy { dtstamp: dt(d), uid: x.into(), dtend: Some(dt(d).into()), dtstart: Some(dt(d).into()), contact: some, freebusy: freebusy.clone(), ..Default::default() };
            same(vfreebusy! { dtend: time, contact: x, freebusy, dtstart: time, uid: x, dtstamp: time, }, &want)
        }
        4 => {
            let off = t::cat(&["-0", &ds, "30"]);
            let off = off.as_str();
            let o = chrono::FixedOffset::east_opt(-3600 * num(d) as i32 - 1800).unwrap();
            let want = VTimezone {
                tzid: x.into(), tzurl: Some(x.into()),
                standard: vec![Standard { dtstart: dt(d).into(), tzoffsetto: o, tzname: vec![x.into(), "B".into()], ..Default::default() }, Standard { comment: vec!["c".into()], ..Default::default() }],
                daylight: vec![Daylight { tzoffsetfrom: o, rrule: Some(recur(b'3')), ..Default::default() }],
                ..Default::default()
            };
            same(
                vtimezone! {
                    daylight: [{ tzoffsetfrom: off, rrule: "FREQ=WEEKLY;COUNT=3;INTERVAL=1" }], tzurl: x,
                    standard: [{ dtstart: time, tzoffsetto: off, tzname: [x, "B"] }, { comment: ["c"] }], tzid: x,
                },
                &want,
            )
        }
        5 => {
            let a = VAlarm::from(Display { description: x.into(), ..Default::default() });
            let b = VAlarm::from(Audio { repeat: Some(3), ..Default::default() });
            let todo = VTodo { uid: "t".into(), ..Default::default() };
            let want = VCalendar {
                version: "2.0".into(), prodid: x.into(),
                events: vec![
                    VEvent { uid: x.into(), dtstart: dt(d).into(), summary: Some("s".into()), alarms: vec![a.clone(), b.clone()], ..Default::default() },
                    VEvent { location: some, geo: Some(Geo { lat: 0.5, lon: 1.0 }), ..Default::default() },
                ],
                alarms: vec![b.clone()], todo: vec![todo.clone()], ..Default::default()
            };
            same(
                vcalendar! {
                    events: [{ uid: x, dtstart: time, summary: "s", alarms: [a, b.clone()] }, { location: x, geo: { lat: 0.5, lon: 1.0 } }],
                    alarms: [b], todo: [todo], prodid: x, version: "2.0",
                },
                &want,
            )
        }
        6 => {
            let want = Email { action: "EMAIL".into(), trigger: trigger(d), description: x.into(), summary: x.into(), attendee: vec![x.into()], duration: Some(-crate::props::dur(d)), repeat: Some(num(d).into()), attach: vec!["a".into()], ..Default::default() };
            same(valarm! { @email, attach: ["a"], repeat: (num(d) as u32), duration: dur, attendee: [x], summary: x, description: x, trigger: dur, }, &VAlarm::Email(want))
        }
        _ => {
            same(vevent! {}, &VEvent::default());
            same(vtodo! {}, &VTodo::default());
            same(vjournal! {}, &VJournal::default());
            same(vfreebusy! {}, &VFreebusy::default());
            same(vtimezone! {}, &VTimezone::default());
            same(vcalendar! {}, &VCalendar::default());
            same(valarm! { @audio, }, &VAlarm::Audio(Audio { action: "AUDIO".into(), ..Default::default() }));
            same(valarm! { @display, }, &VAlarm::Display(Display { action: "DISPLAY".into(), ..Default::default() }))
        }
    }
}
/// The value `want`, or an error if there is none.
fn parsed<C: PartialEq, T, E>(got: Result<C>, want: std::result::Result<T, E>, f: impl FnOnce(T) -> C) {
    match (got, want) {
        (Ok(x), Ok(w)) => {
            sx::cover("good value");
            sx::check(x == f(w), "a macro sets something else")
        }
        (Err(_), Err(_)) => sx::cover("bad value"),
        (Ok(_), _) => sx::check(false, "a macro accepts a bad value"),
        _ => sx::check(false, "a macro rejects a value"),
    }
}
macro_rules! bad {
    ($mac:ident $ty:ident $s:ident $k:ident; $($field:ident $t:ty, $f:expr;)*) => {{
        let mut i = 0;
        $(
            if i == $k {
                parsed($mac! { $field: $s, uid: "u" }, $s.parse::<$t>(), |x| $ty { uid: "u".into(), $field: $f(x), ..Default::default() });
            }
            i += 1;
        )*
        sx::check($k < i, "no such field");
    }};
}
/// Texts that may not be values.
pub fn bad() {
    let x = sx::ascii_n(t::param("N", 1) as usize, "text");
    let d = digit("d");
    let s = match sx::choice(6, "form") {
        0 => t::cat(&["2024010", &x]),
        1 => t::cat(&["20240101T00000", &x]),
        2 => t::cat(&["20240101T000000", &x]),
        3 => t::cat(&["PT1", &x]),
        4 => t::cat(&["FREQ=DAILY", &x]),
        _ => t::cat(&[&x, &String::from(d as char), ";1"]),
    };
    let s = s.as_str();
    match sx::choice(7, "macro") {
        0 => {
            let k = sx::choice(9, "field");
            bad! { vevent VEvent s k;
                dtstamp DateTime, |x| x; dtstart Date, |x| x; created DateTime, Some; geo Geo, Some; last_modified DateTime, Some; recurid Date, Some; rrule Recur, Some; dtend Date, Some;
                dtstamp DateTime, |x| x;
            }
        }
        1 => {
            let k = sx::choice(6, "field");
            bad! { vtodo VTodo s k; completed DateTime, Some; dtstart Date, Some; due Date, Some; rrule Recur, Some; created DateTime, Some; geo Geo, Some; }
        }
        2 => {
            let k = sx::choice(4, "field");
            bad! { vjournal VJournal s k; dtstamp DateTime, |x| x; dtstart Date, |x| x; rrule Recur, Some; last_modified DateTime, Some; }
        }
        3 => {
            let k = sx::choice(3, "field");
            bad! { vfreebusy VFreebusy s k; dtstamp DateTime, |x| x; dtstart Date, Some; dtend Date, Some; }
        }
        4 => {
            let k = sx::choice(4, "list");
            match k {
                0 => parsed(vevent! { exdate: ["20240101", s], uid: "u" }, s.parse::<Date>(), |x| VEvent { uid: "u".into(), exdate: vec![day(b'1').into(), x], ..Default::default() }),
                1 => parsed(vtodo! { rstatus: [s, "2.0;S"] }, s.parse::<RequestStatus>(), |x| VTodo { rstatus: vec![x, rstatus(b'2').clone()], ..Default::default() }.fix()),
                2 => parsed(vcalendar! { events: [{}, { dtstart: s }] }, s.parse::<Date>(), |x| VCalendar { events: vec![VEvent::default(), VEvent { dtstart: x, ..Default::default() }], ..Default::default() }),
                _ => parsed(vtimezone! { standard: [{ dtstart: s }] }, s.parse::<Date>(), |x| VTimezone { standard: vec![Standard { dtstart: x, ..Default::default() }], ..Default::default() }),
            }
        }
        5 => match sx::choice(3, "alarm") {
            0 => parsed(valarm! { @audio, trigger: s }, s.parse::<Trigger>(), |x| Audio { trigger: x, ..Default::default() }.into()),
            1 => parsed(valarm! { @display, trigger: s, description: "d" }, s.parse::<Trigger>(), |x| Display { trigger: x, description: "d".into(), ..Default::default() }.into()),
            _ => parsed(valarm! { @email, trigger: s }, s.parse::<Trigger>(), |x| Email { trigger: x, ..Default::default() }.into()),
        },
        _ => {
            // a duration is what a trigger of that length is
            let want = match s.parse::<Trigger>() {
                Ok(Trigger::Duration(x)) => Ok(x),
                _ => Err(()),
            };
            match sx::choice(3, "duration") {
                0 => parsed(vevent! { duration: s, uid: "u" }, want, |x| VEvent { uid: "u".into(), duration: Some(x), ..Default::default() }),
                1 => parsed(vtodo! { duration: s, uid: "u" }, want, |x| VTodo { uid: "u".into(), duration: Some(x), ..Default::default() }),
                _ => parsed(valarm! { @audio, duration: s }, want, |x| Audio { duration: Some(x), ..Default::default() }.into()),
            }
        }
    }
}
/// The second status of the list is the text "S".
trait Fix {
    fn fix(self) -> Self;
}
impl Fix for VTodo {
    fn fix(mut self) -> Self {
        self.rstatus[1].statdesc = "S".into();
        self
    }
}
