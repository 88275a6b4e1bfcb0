//! C01: parsing ends with a value or an error. A panic, an abort or an endless
//! loop is found by the executor itself.
use crate::props::*;
use crate::{each_comp, sx, t};
use ikal::*;

fn n(default: u64) -> usize {
    t::param("N", default) as usize
}
fn seen<T>(r: Result<T>) {
    sx::cover(if r.is_ok() { "value" } else { "error" });
}
/// `s` as each of the value types, one path each.
fn value_of(s: &str) {
    match sx::choice(14, "type") {
        0 => seen(s.parse::<Date>()),
        1 => seen(s.parse::<DateTime>()),
        2 => seen(s.parse::<Period>()),
        3 => seen(s.parse::<Recur>()),
        4 => seen(s.parse::<Trigger>()),
        5 => seen(s.parse::<Geo>()),
        6 => seen(s.parse::<RequestStatus>()),
        7 => seen(s.parse::<Status>()),
        8 => seen(s.parse::<Class>()),
        9 => seen(s.parse::<TimeTransparency>()),
        10 => seen(s.parse::<Freq>()),
        11 => seen(s.parse::<Weekday>()),
        12 => seen(s.parse::<WeekdayNum>()),
        _ => seen(ikal::parse_duration(s)),
    }
}
/// Any characters as any value.
pub fn values() {
    let k = sx::choice(n(3) as u64 + 1, "length");
    value_of(&sx::unicode_n(k, "text"))
}
/// Any bytes as any value: longer, ASCII only.
pub fn ascii() {
    value_of(&sx::ascii_n(n(4), "text"))
}
const FORMS: &[(&str, &str, u8)] = &[
    ("2024010", "", 0), ("202402", "", 0), ("20230229", "", 0), ("20240101T", "", 0), ("20240101T00000", "", 1), ("20240101T235959", "", 1), ("20240101T2359", "Z", 1),
    ("99991231T235959Z", "", 1), ("20240331T0", "000Z", 1), ("00000101T000000Z", "", 1), ("20240101T000000/", "", 2), ("20240101T000000Z/P", "", 2), ("20240101T000000/PT", "S", 2),
    ("20240101T000000/20240101T00000", "", 2), ("", "/P1D", 2), ("/", "/", 2), ("FREQ=", "", 3), ("FREQ=DAILY;", "", 3), ("FREQ=DAILY;COUNT=", "", 3), ("FREQ=DAILY;INTERVAL=", "", 3),
    ("FREQ=DAILY;UNTIL=2024010", "", 3), ("FREQ=DAILY;UNTIL=20240101T00000", "", 3), ("FREQ=DAILY;BYDAY=", "", 3), ("FREQ=DAILY;BYDAY=", "MO", 3), ("FREQ=DAILY;BYDAY=MO,", "", 3),
    ("FREQ=DAILY;BYMONTH=", "", 3), ("FREQ=DAILY;BYSETPOS=1,", ",2", 3), ("FREQ=DAILY;WKST=", "", 3), ("FREQ=DAILY;WKST=M", ";COUNT=1", 3), ("", "=DAILY", 3), ("FREQ=DAILY;BY", "=1", 3),
    ("COUNT=3;", "", 3), ("P", "", 4), ("-P", "", 4), ("PT", "", 4), ("P1", "", 4), ("P1DT", "", 4), ("+P1W", "", 4), ("PT1H", "", 4), ("PT1H1M1", "", 4), ("", "PT1S", 4), ("20240101T000000", "", 4),
    ("1", "", 5), ("1.5;", "", 5), ("", ";2.5", 5), ("1;2", "", 5), ("1e", ";1", 5), ("1", "", 6), ("2.0;", "", 6), ("2;S;", "", 6), ("", ";S;D", 6), ("2.", ";", 6), ("NEEDS-", "", 7), ("", "FIRMED", 7),
    ("PUB", "", 8), ("", "PRIVATE", 8), ("X-", "", 8), ("OPA", "", 9), ("TRANS", "T", 9), ("DAI", "", 10), ("", "Y", 10), ("M", "", 11), ("1", "", 12), ("-1", "", 12), ("+", "MO", 12), ("-", "U", 12),
    ("12", "FR", 12), ("P", "", 13), ("-P1DT", "", 13), ("PT1H1", "S", 13),
];
fn of_type(s: &str, t: u8) {
    match t {
        0 => seen(s.parse::<Date>()),
        1 => seen(s.parse::<DateTime>()),
        2 => seen(s.parse::<Period>()),
        3 => seen(s.parse::<Recur>()),
        4 => seen(s.parse::<Trigger>()),
        5 => seen(s.parse::<Geo>()),
        6 => seen(s.parse::<RequestStatus>()),
        7 => seen(s.parse::<Status>()),
        8 => seen(s.parse::<Class>()),
        9 => seen(s.parse::<TimeTransparency>()),
        10 => seen(s.parse::<Freq>()),
        11 => seen(s.parse::<Weekday>()),
        12 => seen(s.parse::<WeekdayNum>()),
        _ => seen(ikal::parse_duration(s)),
    }
}
/// Any characters inside a value.
pub fn inside() {
    let (a, b, ty) = FORMS[sx::choice(FORMS.len() as u64, "form")];
    let k = sx::choice(n(2) as u64 + 1, "length");
    of_type(&t::cat(&[a, &sx::unicode_n(k, "text"), b]), ty)
}
/// Numbers of any length.
pub fn numbers() {
    const N: &[(&str, &str, u8)] = &[
        ("P", "W", 4), ("-P", "D", 4), ("PT", "H", 4), ("PT", "M", 4), ("-PT", "S", 13), ("P9", "WT9H", 13), ("FREQ=DAILY;COUNT=", "", 3), ("FREQ=DAILY;INTERVAL=", ";COUNT=1", 3), ("FREQ=DAILY;BYYEARDAY=-", "", 3),
        ("FREQ=DAILY;BYDAY=-", "MO", 3), ("", "", 0), ("", "T000000", 1), ("20240101T", "", 1), ("20240101T000000/PT", "S", 2), ("", "SU", 12), ("-", "SU", 12), ("1", ";1", 5), ("2.", ";1", 6),
    ];
    let (a, b, ty) = N[sx::choice(N.len() as u64, "form")];
    let k = sx::choice(n(20) as u64 + 1, "length");
    // every first digit one path, the last two any
    let first = match sx::choice(11, "digit") {
        10 => "92233720368547758079223372036854775807".into(),
        d => String::from((d as u8 + b'0') as char).repeat(k),
    };
    let last = if (ty == 5) | (ty == 6) { String::new() } else { t::digits(2, "digits").0 };
    let digits = t::cat(&[&first[..k.min(first.len())], &last]);
    of_type(&t::cat(&[a, &digits, b]), ty)
}
/// Sums of parts of a duration, each about as large as it can be.
pub fn durations() {
    let mut s = String::from(if sx::flag("sign") { "-P" } else { "P" });
    for (k, x) in ["W", "D", "H", "M", "S"].iter().enumerate() {
        if k == 2 {
            s.push('T');
        }
        match sx::choice(4, "part") {
            0 => continue,
            1 => s.push('1'),
            2 => s.push_str(["15250284452", "106751991167", "2562047788015", "153722867280912", "9223372036854775"][k]),
            _ => s.push_str("9223372036854775807"),
        }
        s.push_str(x);
    }
    seen(ikal::parse_duration(&s));
    seen(s.parse::<Trigger>());
    seen(t::cat(&["20240101T000000/", &s]).parse::<Period>())
}
fn whole<C: Comp>(s: &str) {
    seen(C::parse(s))
}
/// A line of every property with any characters in its value, name or parameters.
pub fn lines() {
    fn go<C: Comp>() {
        let i = sx::choice(C::PROPS.len() as u64, "property");
        let p = &C::PROPS[i];
        let x = sx::unicode_n(n(1), "text");
        let must = Built::<C>::new().must(if p.name == "ACTION" { 99 } else { i }).body;
        let good = value(p.kind, &v("text", b'3'));
        let l = match sx::choice(7, "place") {
            0 => t::cat(&[p.name, ":", &x]),
            1 => t::cat(&[p.name, ":", &x, &good]),
            2 => t::cat(&[p.name, ":", &good, &x]),
            3 => t::cat(&[p.name, ":", &good[..good.len() - 1], &x]),
            4 => t::cat(&[p.name, &x, &good]),
            5 => t::cat(&[p.name, ";", &x, ":", &good]),
            _ => t::cat(&[p.name, ";P=", &x, ":", &good]),
        };
        whole::<C>(&t::wrap(C::NAME, &t::cat(&[&must, &l, "\r\n"])))
    }
    each_comp!(go)
}
/// A line of every property with one byte anywhere replaced by any other.
pub fn replaced() {
    fn go<C: Comp>() {
        let i = sx::choice(C::PROPS.len() as u64, "property");
        let p = &C::PROPS[i];
        let must = Built::<C>::new().must(if p.name == "ACTION" { 99 } else { i }).body;
        let mut x = v("te\\,xt,é", b'3');
        if let K::Text | K::Uri | K::List | K::Ext = p.kind {
            x.params.insert("P".into(), "\"q:\"".into());
        }
        let l = line(p.name, p.kind, &x);
        let at = sx::choice(l.len() as u64, "at");
        sx::assume(l.is_char_boundary(at) && l.is_char_boundary(at + 1));
        let l = t::cat(&[&l[..at], &sx::ascii_n(1, "byte"), &l[at + 1..]]);
        whole::<C>(&t::wrap(C::NAME, &t::cat(&[&must, &l])))
    }
    each_comp!(go)
}
/// Any text as any component.
fn component(s: &str) {
    match sx::choice(7, "component") {
        0 => seen(s.parse::<VCalendar>()),
        1 => seen(s.parse::<VEvent>()),
        2 => seen(s.parse::<VTodo>()),
        3 => seen(s.parse::<VJournal>()),
        4 => seen(s.parse::<VFreebusy>()),
        5 => seen(s.parse::<VTimezone>()),
        _ => seen(s.parse::<VAlarm>()),
    }
}
/// A component that is any characters.
pub fn raw() {
    let k = sx::choice(n(3) as u64 + 1, "length");
    component(&sx::unicode_n(k, "text"))
}
const NAMES: [&str; 7] = ["VCALENDAR", "VEVENT", "VFREEBUSY", "VTIMEZONE", "VALARM", "STANDARD", "X-OTHER"];
/// Lines that begin, end and fill components, in any order, in components.
pub fn pieces() {
    let base = sx::choice(5, "base");
    let mut s = String::new();
    s.push_str([
        "", "BEGIN:VCALENDAR\r\nPRODID:p\r\nVERSION:2.0\r\n", "BEGIN:VEVENT\r\nUID:u\r\nDTSTAMP:20240101T000000\r\nDTSTART:20240101\r\n", "BEGIN:VTIMEZONE\r\nTZID:t\r\n",
        "BEGIN:VALARM\r\n",
    ][base]);
    for _ in 0..n(2) {
        match sx::choice(6, "piece") {
            0 => s.push_str(&t::cat(&["BEGIN:", NAMES[sx::choice(7, "name")], "\r\n"])),
            1 => s.push_str(&t::cat(&["END:", NAMES[sx::choice(7, "name")], "\r\n"])),
            2 => s.push_str(["ACTION:AUDIO\r\n", "ACTION:EMAIL\r\n", "ACTION:\r\n", "TRIGGER:PT1S\r\n"][sx::choice(4, "line")]),
            3 => s.push_str("DTSTART:20240101\r\n"),
            4 => s.push_str(["\r\n", "\n", " ", "\t", ":", ";"][sx::choice(6, "blank")]),
            _ => s.push_str(&sx::unicode_n(1, "character")),
        }
    }
    if sx::flag("closed") {
        s.push_str(["", "END:VCALENDAR\r\n", "END:VEVENT\r\n", "END:VTIMEZONE\r\n", "END:VALARM\r\n"][base]);
    }
    match base {
        0 => component(&s),
        1 => seen(s.parse::<VCalendar>()),
        2 => seen(s.parse::<VEvent>()),
        3 => seen(s.parse::<VTimezone>()),
        _ => seen(s.parse::<VAlarm>()),
    }
}
/// A calendar with every kind of component, cut anywhere, then any characters.
pub fn cut() {
    let s = calendar(b'3');
    let at = sx::choice(s.len() as u64 + 1, "at");
    sx::assume(s.is_char_boundary(at));
    seen(t::cat(&[&s[..at], &sx::unicode_n(n(1), "text")]).parse::<VCalendar>())
}
/// A calendar with every kind of component, some characters put in or taken out.
pub fn changed() {
    let s = calendar(b'3');
    let at = sx::choice(s.len() as u64 + 1, "at");
    sx::assume(s.is_char_boundary(at));
    let mut skip = sx::choice(3, "skip");
    while !s.is_char_boundary(at + skip) || at + skip > s.len() {
        skip -= 1;
    }
    seen(t::cat(&[&s[..at], &sx::ascii_n(n(1), "text"), &s[at + skip..]]).parse::<VCalendar>())
}
