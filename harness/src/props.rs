//! Every component with the properties it may have: how each is written as a
//! line and where a parsed component must keep it.
#![allow(dead_code)]
use crate::{sx, t};
use ikal::{Date, DateTime, Period, RDate, RequestStatus, Result, Text, Uri};
use std::collections::BTreeMap;

pub type Params = BTreeMap<String, String>;

/// The value of one property: `text` with `params` for texts, addresses and
/// extensions, the digit `d` (1 to 9) for everything else.
#[derive(Clone)]
pub struct V {
    pub params: Params,
    pub text: String,
    pub d: u8,
}
#[derive(Clone, Copy, PartialEq)]
pub enum K {
    Text,
    Uri,
    List,
    Date,
    Dt,
    Dur,
    Int,
    Class,
    Status,
    Transp,
    Geo,
    Recur,
    Rstatus,
    Rdate,
    Freebusy,
    Exdate,
    Offset,
    Trigger,
    /// extension properties, kept under their name
    Ext,
}
#[derive(Clone, Copy, PartialEq)]
pub enum N {
    Must,
    One,
    Many,
}
pub struct P<C> {
    pub name: &'static str,
    pub kind: K,
    pub n: N,
    pub set: fn(&mut C, &V),
    /// the texts kept as written, with their escapes
    pub texts: for<'a> fn(&'a mut C) -> Vec<&'a mut String>,
}

pub fn day(d: u8) -> chrono::NaiveDate {
    chrono::NaiveDate::from_ymd_opt(2024, 1, (d - b'0') as u32).unwrap()
}
pub fn time(d: u8) -> chrono::NaiveDateTime {
    chrono::NaiveDate::from_ymd_opt(2024, 1, 1).unwrap().and_hms_opt(0, 0, (d - b'0') as u32).unwrap()
}
pub fn dt(d: u8) -> DateTime {
    DateTime::Naive(time(d))
}
pub fn dur(d: u8) -> chrono::TimeDelta {
    chrono::TimeDelta::seconds((d - b'0') as i64)
}
pub fn num(d: u8) -> u8 {
    d - b'0'
}
/// Enumerated values: two of each, by the parity of the digit.
pub fn class(d: u8) -> ikal::Class {
    if d & 1 == 0 { ikal::Class::Private } else { ikal::Class::Confidential }
}
pub fn status(d: u8) -> ikal::Status {
    if d & 1 == 0 { ikal::Status::Tentative } else { ikal::Status::NeedsAction }
}
pub fn transp(d: u8) -> ikal::TimeTransparency {
    if d & 1 == 0 { ikal::TimeTransparency::Opaque } else { ikal::TimeTransparency::Transparent }
}
pub fn geo(d: u8) -> ikal::Geo {
    if d & 1 == 0 { ikal::Geo { lat: 1.5, lon: -2.25 } } else { ikal::Geo { lat: -10.0, lon: 0.5 } }
}
pub fn recur(d: u8) -> ikal::Recur {
    ikal::Recur { freq: ikal::Freq::Weekly, count: Some(num(d)), interval: 1, ..Default::default() }
}
pub fn rstatus(d: u8) -> RequestStatus {
    if d & 1 == 0 {
        RequestStatus { statcode: 2.0, statdesc: "Success".into(), extdata: None }
    } else {
        RequestStatus { statcode: 3.5, statdesc: "No".into(), extdata: Some("DTSTART:x".into()) }
    }
}
pub fn rdate(d: u8) -> RDate {
    RDate::Date(vec![dt(d).into(), dt(b'0').into()])
}
pub fn periods(d: u8) -> Vec<Period> {
    vec![
        Period::StartDur(ikal::period::StartDur { start: dt(d), duration: dur(d) }),
        Period::StartEnd(ikal::period::StartEnd { start: dt(b'0'), end: dt(d) }),
    ]
}
pub fn exdates(d: u8) -> Vec<Date> {
    vec![dt(d).into(), dt(b'0').into()]
}
pub fn offset(d: u8) -> chrono::FixedOffset {
    chrono::FixedOffset::east_opt(-3600 * num(d) as i32).unwrap()
}
pub fn trigger(d: u8) -> ikal::Trigger {
    ikal::Trigger::Duration(-dur(d))
}
pub fn text(v: &V) -> Text {
    Text { params: v.params.clone(), text: v.text.clone() }
}
pub fn uri(v: &V) -> Uri {
    Uri { params: v.params.clone(), uri: v.text.clone() }
}
/// The elements of a list: split at the commas that are not escaped.
pub fn list(v: &V) -> Vec<Text> {
    let mut out = Vec::new();
    let mut cur = String::new();
    let mut escaped = false;
    for c in v.text.chars() {
        if c == ',' && !escaped {
            out.push(Text { params: v.params.clone(), text: std::mem::take(&mut cur) });
        } else {
            cur.push(c);
        }
        escaped = c == '\\' && !escaped;
    }
    out.push(Text { params: v.params.clone(), text: cur });
    out
}

fn with(prefix: &str, d: u8, suffix: &str) -> String {
    let mut s = String::from(prefix);
    s.push(d as char);
    s.push_str(suffix);
    s
}
/// The value of a line of kind `k`.
pub fn value(k: K, v: &V) -> String {
    let d = v.d;
    match k {
        K::Text | K::Uri | K::List | K::Ext => v.text.clone(),
        K::Date | K::Dt => with("20240101T00000", d, ""),
        K::Dur => with("PT", d, "S"),
        K::Int => with("", d, ""),
        K::Class => (if d & 1 == 0 { "PRIVATE" } else { "CONFIDENTIAL" }).into(),
        K::Status => (if d & 1 == 0 { "TENTATIVE" } else { "NEEDS-ACTION" }).into(),
        K::Transp => (if d & 1 == 0 { "OPAQUE" } else { "TRANSPARENT" }).into(),
        K::Geo => (if d & 1 == 0 { "1.5;-2.25" } else { "-10;0.5" }).into(),
        K::Recur => with("FREQ=WEEKLY;COUNT=", d, ";INTERVAL=1"),
        K::Rstatus => (if d & 1 == 0 { "2.0;Success" } else { "3.5;No;DTSTART:x" }).into(),
        K::Rdate | K::Exdate => with("20240101T00000", d, ",20240101T000000"),
        K::Freebusy => t::cat(&["20240101T00000", &with("", d, "/PT"), &with("", d, "S,20240101T000000/20240101T00000"), &with("", d, "")]),
        K::Offset => with("-0", d, "00"),
        K::Trigger => with("-PT", d, "S"),
    }
}
/// The content line of a property.
pub fn line(name: &str, k: K, v: &V) -> String {
    let mut s = String::from(name);
    for (key, x) in &v.params {
        s.push(';');
        s.push_str(key);
        s.push('=');
        s.push_str(x);
    }
    s.push(':');
    s.push_str(&value(k, v));
    s.push_str("\r\n");
    s
}

pub trait Comp: Clone + PartialEq + Sized + 'static {
    const NAME: &'static str;
    const PROPS: &'static [P<Self>];
    /// The value with nothing set.
    fn empty() -> Self;
    fn parse(s: &str) -> Result<Self>;
    fn ser(&self) -> Result<String>;
    /// Give an extension property another name.
    fn rename(&mut self, from: &str, to: &str);
    /// The ACTION of an alarm.
    const ACTION: &'static str;
}

macro_rules! set {
    (Must Text $f:ident) => { |c, v| c.$f = text(v) };
    (Must Date $f:ident) => { |c, v| c.$f = dt(v.d).into() };
    (Must Dt $f:ident) => { |c, v| c.$f = dt(v.d) };
    (Must Offset $f:ident) => { |c, v| c.$f = offset(v.d) };
    (Must Trigger $f:ident) => { |c, v| c.$f = trigger(v.d) };
    (One Text $f:ident) => { |c, v| c.$f = Some(text(v)) };
    (One Uri $f:ident) => { |c, v| c.$f = Some(uri(v)) };
    (One Date $f:ident) => { |c, v| c.$f = Some(dt(v.d).into()) };
    (One Dt $f:ident) => { |c, v| c.$f = Some(dt(v.d)) };
    (One Dur $f:ident) => { |c, v| c.$f = Some(dur(v.d)) };
    (One Int $f:ident) => { |c, v| c.$f = Some(num(v.d).into()) };
    (One Class $f:ident) => { |c, v| c.$f = Some(class(v.d)) };
    (One Status $f:ident) => { |c, v| c.$f = Some(status(v.d)) };
    (One Transp $f:ident) => { |c, v| c.$f = Some(transp(v.d)) };
    (One Geo $f:ident) => { |c, v| c.$f = Some(geo(v.d)) };
    (One Recur $f:ident) => { |c, v| c.$f = Some(recur(v.d)) };
    (Many Text $f:ident) => { |c, v| c.$f.push(text(v)) };
    (Many Uri $f:ident) => { |c, v| c.$f.push(uri(v)) };
    (Many List $f:ident) => { |c, v| c.$f.append(&mut list(v)) };
    (Many Rstatus $f:ident) => { |c, v| c.$f.push(rstatus(v.d)) };
    (Many Rdate $f:ident) => { |c, v| c.$f.push(rdate(v.d)) };
    (Many Exdate $f:ident) => { |c, v| c.$f.append(&mut exdates(v.d)) };
    (Many Freebusy $f:ident) => { |c, v| c.$f.append(&mut periods(v.d)) };
}
macro_rules! texts {
    (Must Text $f:ident) => { |c| vec![&mut c.$f.text] };
    (One Text $f:ident) => { |c| c.$f.iter_mut().map(|x| &mut x.text).collect() };
    (Many Text $f:ident) => { |c| c.$f.iter_mut().map(|x| &mut x.text).collect() };
    (Many List $f:ident) => { |c| c.$f.iter_mut().map(|x| &mut x.text).collect() };
    (Many Rstatus $f:ident) => { |c| c.$f.iter_mut().flat_map(|x| [&mut x.statdesc].into_iter().chain(&mut x.extdata)).collect() };
    ($($x:ident)*) => { |_| vec![] };
}
macro_rules! ext {
    ($c:ident $v:ident $f:ident $name:literal) => {{
        $c.$f.insert($name.into(), $v.text.as_str().into());
        let e = $c.$f.get_mut($name).unwrap();
        e.key = $name.into();
        e.params = $v.params.clone();
    }};
}
macro_rules! comp {
    ($ty:ty, $name:literal, $empty:expr, $parse:expr, $ser:expr, $action:literal; $( $n:ident $k:ident $l:literal $f:ident; )*) => {
        impl Comp for $ty {
            const NAME: &'static str = $name;
            const ACTION: &'static str = $action;
            const PROPS: &'static [P<Self>] = &[
                $( P { name: $l, kind: K::$k, n: N::$n, set: set!($n $k $f), texts: texts!($n $k $f) }, )*
                P { name: "X-AB", kind: K::Ext, n: N::One, set: |c, v| ext!(c v x_prop "X-AB"), texts: |_| vec![] },
                P { name: "X-FOO-BAR", kind: K::Ext, n: N::One, set: |c, v| ext!(c v x_prop "X-FOO-BAR"), texts: |_| vec![] },
                P { name: "NAME", kind: K::Ext, n: N::One, set: |c, v| ext!(c v iana_prop "NAME"), texts: |_| vec![] },
                P { name: "REFRESH-INTERVAL", kind: K::Ext, n: N::One, set: |c, v| ext!(c v iana_prop "REFRESH-INTERVAL"), texts: |_| vec![] },
            ];
            fn empty() -> Self {
                $empty
            }
            fn parse(s: &str) -> Result<Self> {
                $parse(s)
            }
            fn rename(&mut self, from: &str, to: &str) {
                let m = if to.starts_with("X-") { &mut self.x_prop } else { &mut self.iana_prop };
                let mut e = m.remove(from).unwrap();
                e.key = to.into();
                m.insert(to.into(), e);
            }
            fn ser(&self) -> Result<String> {
                $ser(self)
            }
        }
    };
}
macro_rules! plain {
    ($ty:ty, $name:literal; $($x:tt)*) => {
        comp! { $ty, $name, Self::default(), |s: &str| s.parse::<Self>(), |c: &Self| ikal::ser::ical(c), ""; $($x)* }
    };
}
macro_rules! alarm {
    ($v:ident, $name:literal; $($x:tt)*) => {
        comp! { ikal::valarm::$v, "VALARM",
            Self { action: $name.into(), ..Default::default() },
            |s: &str| match s.parse::<ikal::VAlarm>() {
                Ok(ikal::VAlarm::$v(x)) => Ok(x),
                Ok(_) => Err(ikal::Error::Alarm("another kind".into())),
                Err(e) => Err(e),
            },
            |c: &Self| ikal::ser::ical(&ikal::VAlarm::from(c.clone())),
            $name; $($x)* }
    };
}

plain! { ikal::VCalendar, "VCALENDAR";
    Must Text "PRODID" prodid;
    Must Text "VERSION" version;
    One Text "CALSCALE" calscale;
    One Text "METHOD" method;
}
plain! { ikal::VEvent, "VEVENT";
    Must Dt "DTSTAMP" dtstamp;
    Must Text "UID" uid;
    Must Date "DTSTART" dtstart;
    One Class "CLASS" class;
    One Dt "CREATED" created;
    One Text "DESCRIPTION" description;
    One Geo "GEO" geo;
    One Dt "LAST-MODIFIED" last_modified;
    One Text "LOCATION" location;
    One Uri "ORGANIZER" organizer;
    One Int "PRIORITY" priority;
    One Int "SEQUENCE" sequence;
    One Status "STATUS" status;
    One Text "SUMMARY" summary;
    One Transp "TRANSP" transp;
    One Uri "URL" url;
    One Date "RECURID" recurid;
    One Recur "RRULE" rrule;
    One Date "DTEND" dtend;
    One Dur "DURATION" duration;
    Many Text "ATTACH" attach;
    Many Uri "ATTENDEE" attendee;
    Many List "CATEGORIES" categories;
    Many Text "COMMENT" comment;
    Many Text "CONTACT" contact;
    Many Exdate "EXDATE" exdate;
    Many Rstatus "REQUEST-STATUS" rstatus;
    Many Text "RELATED-TO" related_to;
    Many List "RESOURCES" resources;
    Many Rdate "RDATE" rdate;
}
plain! { ikal::VTodo, "VTODO";
    Must Dt "DTSTAMP" dtstamp;
    Must Text "UID" uid;
    One Class "CLASS" class;
    One Dt "COMPLETED" completed;
    One Dt "CREATED" created;
    One Date "DTSTART" dtstart;
    One Geo "GEO" geo;
    One Dt "LAST-MODIFIED" last_modified;
    One Text "LOCATION" location;
    One Uri "ORGANIZER" organizer;
    One Int "PERCENT-COMPLETE" percent_complete;
    One Int "PRIORITY" priority;
    One Date "RECURID" recurid;
    One Int "SEQUENCE" sequence;
    One Status "STATUS" status;
    One Text "SUMMARY" summary;
    One Uri "URL" url;
    One Recur "RRULE" rrule;
    One Date "DUE" due;
    One Dur "DURATION" duration;
    Many Text "ATTACH" attach;
    Many Uri "ATTENDEE" attendee;
    Many List "CATEGORIES" categories;
    Many Text "COMMENT" comment;
    Many Text "CONTACT" contact;
    Many Exdate "EXDATE" exdate;
    Many Rstatus "REQUEST-STATUS" rstatus;
    Many Text "RELATED-TO" related_to;
    Many List "RESOURCES" resources;
    Many Rdate "RDATE" rdate;
}
plain! { ikal::VJournal, "VJOURNAL";
    Must Dt "DTSTAMP" dtstamp;
    Must Text "UID" uid;
    Must Date "DTSTART" dtstart;
    One Class "CLASS" class;
    One Dt "CREATED" created;
    One Dt "LAST-MODIFIED" last_modified;
    One Uri "ORGANIZER" organizer;
    One Date "RECURID" recurid;
    One Int "SEQUENCE" sequence;
    One Status "STATUS" status;
    One Text "SUMMARY" summary;
    One Uri "URL" url;
    One Recur "RRULE" rrule;
    Many Text "ATTACH" attach;
    Many Uri "ATTENDEE" attendee;
    Many List "CATEGORIES" categories;
    Many Text "COMMENT" comment;
    Many Text "CONTACT" contact;
    Many Text "DESCRIPTION" description;
    Many Exdate "EXDATE" exdate;
    Many Text "RELATED-TO" related_to;
    Many Rdate "RDATE" rdate;
    Many Rstatus "REQUEST-STATUS" rstatus;
}
plain! { ikal::VFreebusy, "VFREEBUSY";
    Must Dt "DTSTAMP" dtstamp;
    Must Text "UID" uid;
    One Text "CONTACT" contact;
    One Date "DTSTART" dtstart;
    One Date "DTEND" dtend;
    One Uri "ORGANIZER" organizer;
    One Uri "URL" url;
    Many Uri "ATTENDEE" attendee;
    Many Text "COMMENT" comment;
    Many Freebusy "FREEBUSY" freebusy;
    Many Rstatus "REQUEST-STATUS" rstatus;
}
plain! { ikal::VTimezone, "VTIMEZONE";
    Must Text "TZID" tzid;
    One Dt "LAST-MODIFIED" last_modified;
    One Uri "TZURL" tzurl;
}
plain! { ikal::vtimezone::Standard, "STANDARD";
    Must Date "DTSTART" dtstart;
    Must Offset "TZOFFSETTO" tzoffsetto;
    Must Offset "TZOFFSETFROM" tzoffsetfrom;
    One Recur "RRULE" rrule;
    Many Text "COMMENT" comment;
    Many Rdate "RDATE" rdate;
    Many Text "TZNAME" tzname;
}
plain! { ikal::vtimezone::Daylight, "DAYLIGHT";
    Must Date "DTSTART" dtstart;
    Must Offset "TZOFFSETTO" tzoffsetto;
    Must Offset "TZOFFSETFROM" tzoffsetfrom;
    One Recur "RRULE" rrule;
    Many Text "COMMENT" comment;
    Many Rdate "RDATE" rdate;
    Many Text "TZNAME" tzname;
}
alarm! { Audio, "AUDIO";
    Must Text "ACTION" action;
    Must Trigger "TRIGGER" trigger;
    One Dur "DURATION" duration;
    One Int "REPEAT" repeat;
    Many Text "ATTACH" attach;
}
alarm! { Display, "DISPLAY";
    Must Text "ACTION" action;
    Must Trigger "TRIGGER" trigger;
    Must Text "DESCRIPTION" description;
    One Dur "DURATION" duration;
    One Int "REPEAT" repeat;
}
alarm! { Email, "EMAIL";
    Must Text "ACTION" action;
    Must Trigger "TRIGGER" trigger;
    Must Text "DESCRIPTION" description;
    Must Text "SUMMARY" summary;
    Many Uri "ATTENDEE" attendee;
    One Dur "DURATION" duration;
    One Int "REPEAT" repeat;
    Many Text "ATTACH" attach;
}

/// `$body` with `$c` each component type in turn, one path each.
#[macro_export]
macro_rules! each_comp {
    ($f:ident) => {
        match $crate::sx::choice(11, "component") {
            0 => $f::<ikal::VCalendar>(),
            1 => $f::<ikal::VEvent>(),
            2 => $f::<ikal::VTodo>(),
            3 => $f::<ikal::VJournal>(),
            4 => $f::<ikal::VFreebusy>(),
            5 => $f::<ikal::VTimezone>(),
            6 => $f::<ikal::vtimezone::Standard>(),
            7 => $f::<ikal::vtimezone::Daylight>(),
            8 => $f::<ikal::valarm::Audio>(),
            9 => $f::<ikal::valarm::Display>(),
            _ => $f::<ikal::valarm::Email>(),
        }
    };
}

/// A value from a text, without parameters.
pub fn v(text: &str, d: u8) -> V {
    V { params: Params::new(), text: text.into(), d }
}
/// A value for property `p`, told apart by the digit `d`.
pub fn sample<C: Comp>(p: &P<C>, d: u8) -> V {
    v(&with(p.name, d, ""), d).for_prop(p)
}
impl V {
    /// The action of an alarm says which kind it is.
    pub fn for_prop<C: Comp>(mut self, p: &P<C>) -> V {
        if p.name == "ACTION" && !C::ACTION.is_empty() && p.n == N::Must {
            self.text = C::ACTION.into();
        }
        self
    }
}
/// A component under construction: its text and the value it stands for.
pub struct Built<C> {
    pub body: String,
    pub want: C,
}
impl<C: Comp> Built<C> {
    pub fn new() -> Self {
        Built { body: String::new(), want: C::empty() }
    }
    /// The mandatory properties except number `skip` of the table.
    pub fn must(mut self, skip: usize) -> Self {
        for (i, p) in C::PROPS.iter().enumerate() {
            if p.n == N::Must && i != skip {
                self.add(i, &sample(p, b'5'));
            }
        }
        self
    }
    pub fn add(&mut self, i: usize, v: &V) {
        let p = &C::PROPS[i];
        self.body.push_str(&line(p.name, p.kind, v));
        (p.set)(&mut self.want, v);
    }
    pub fn text(&self) -> String {
        t::wrap(C::NAME, &self.body)
    }
    pub fn parse(&self) -> Result<C> {
        C::parse(&self.text())
    }
    pub fn check(&self, what: &str) {
        match self.parse() {
            Ok(c) => sx::check(c == self.want, what),
            Err(_) => sx::check(false, "a component is rejected"),
        }
    }
}
/// A text without its backslash escapes.
pub fn unescape(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.peek() {
                Some('n' | 'N') => {
                    it.next();
                    out.push('\n')
                }
                Some(x @ ('\\' | ';' | ',')) => {
                    out.push(*x);
                    it.next();
                }
                _ => out.push(c),
            }
        } else {
            out.push(c);
        }
    }
    out
}
/// The component with its texts unescaped.
pub fn norm<C: Comp>(c: &C) -> C {
    let mut c = c.clone();
    for p in C::PROPS {
        for x in (p.texts)(&mut c) {
            *x = unescape(x);
        }
    }
    c
}
/// Standard parameters and some others.
pub const PARAMS: &[(&str, &str)] = &[
    ("VALUE", "URI"),
    ("VALUE", "TEXT"),
    ("VALUE", "BINARY"),
    ("VALUE", "DATE"),
    ("VALUE", "DATE-TIME"),
    ("VALUE", "PERIOD"),
    ("VALUE", "DURATION"),
    ("VALUE", "X-OTHER"),
    ("ENCODING", "BASE64"),
    ("ENCODING", "8BIT"),
    ("FMTTYPE", "text/plain"),
    ("LANGUAGE", "fr-CA"),
    ("ALTREP", "http://x/;y"),
    ("CN", "a b"),
    ("CN", "a, b"),
    ("CUTYPE", "GROUP"),
    ("DELEGATED-TO", "mailto:a@b"),
    ("DELEGATED-FROM", "mailto:a@b"),
    ("DIR", "ldap://x"),
    ("EMAIL", ""),
    ("MEMBER", "mailto:a"),
    ("PARTSTAT", "ACCEPTED"),
    ("RELTYPE", "PARENT"),
    ("ROLE", "CHAIR"),
    ("RSVP", "TRUE"),
    ("RELATED", "END"),
    ("SENT-BY", "mailto:s"),
    ("TZID", "/Europe/Paris"),
    ("FBTYPE", "BUSY"),
    ("RANGE", "THISANDFUTURE"),
    ("X-PARAM", "1=2"),
    ("NAME", "é"),
];
/// One or two of them.
pub fn standard() -> Params {
    let n = PARAMS.len();
    let k = sx::choice(n as u64, "standard parameter");
    let mut p = Params::new();
    let j = (k + [0, 8, 13][sx::choice(t::param("TWO", 2), "another")]) % n;
    for (a, b) in [PARAMS[j], PARAMS[k]] {
        p.insert(a.into(), b.into());
    }
    p
}
/// A parameter value as it is written.
pub fn quoted(s: &str) -> String {
    if s.contains([':', ';', ',']) { t::cat(&["\"", s, "\""]) } else { s.into() }
}
/// A symbolic digit from 1 to 9.
#[inline(never)]
pub fn digit(name: &str) -> u8 {
    let d = sx::int(8, name) as u8;
    sx::assume((d >= b'1') & (d <= b'9'));
    d
}
/// A calendar with every kind of component.
pub fn calendar(d: u8) -> String {
    let mut s = Built::<ikal::VCalendar>::new().must(99).body;
    let mut e = Built::<ikal::VEvent>::new().must(99);
    e.add(5, &v("déscription, long", d));
    for b in [Built::<ikal::valarm::Audio>::new().must(99).text(), Built::<ikal::valarm::Email>::new().must(99).text()] {
        e.body.push_str(&b);
    }
    s.push_str(&e.text());
    let mut z = Built::<ikal::VTimezone>::new().must(99).body;
    let mut st = Built::<ikal::vtimezone::Standard>::new();
    for (i, p) in ikal::vtimezone::Standard::PROPS.iter().enumerate() {
        if p.n == N::Must {
            st.add(i, &sample(p, d));
        }
    }
    z.push_str(&st.text());
    z.push_str(&Built::<ikal::vtimezone::Daylight>::new().must(99).text());
    s.push_str(&t::wrap("VTIMEZONE", &z));
    for x in [
        Built::<ikal::VTodo>::new().must(99).text(),
        Built::<ikal::VJournal>::new().must(99).text(),
        Built::<ikal::VFreebusy>::new().must(99).text(),
        Built::<ikal::valarm::Display>::new().must(99).text(),
    ] {
        s.push_str(&x);
    }
    t::wrap("VCALENDAR", &s)
}
