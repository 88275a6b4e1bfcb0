//! C12: what is written of a parsed component parses to the same component.
use crate::props::*;
use crate::{each_comp, sx, t};
use ikal::{VAlarm, VCalendar};

/// Parse `s`, write it, and parse that; the text is accepted or not.
fn trip<C: Comp>(s: &str) {
    let Ok(c) = C::parse(s) else { return sx::cover("rejected") };
    sx::cover("accepted");
    match c.ser().map(|s| C::parse(&s)) {
        Ok(Ok(x)) => {
            let equal = norm(&c) == norm(&x);
            sx::check(equal, "another component is read back")
        }
        Ok(Err(_)) => sx::check(false, "what is written cannot be read"),
        Err(_) => sx::check(false, "a parsed component cannot be written"),
    }
}
fn must<C: Comp>(skip: usize, more: &str) -> String {
    let b = Built::<C>::new().must(skip);
    t::wrap(C::NAME, &t::cat(&[&b.body, more]))
}
fn keeps<C: Comp>(p: &P<C>) -> bool {
    matches!(p.kind, K::Text | K::Uri | K::List | K::Ext) && p.name != "ACTION"
}
/// Any characters but line breaks.
fn chars(n: usize, name: &str) -> String {
    let s = sx::unicode_n(n, name);
    for b in s.bytes() {
        sx::assume((b != b'\r') & (b != b'\n'));
    }
    s
}
/// Any value of every property that keeps it.
pub fn values() {
    fn go<C: Comp>() {
        let i = sx::choice(C::PROPS.len() as u64, "property");
        let p = &C::PROPS[i];
        if !keeps(p) && p.kind != K::Rstatus {
            return;
        }
        let x = chars(sx::choice(t::param("N", 2) + 1, "n"), "value");
        let x = if p.kind == K::Rstatus { t::cat(&["2.5;", &x]) } else { x };
        trip::<C>(&must::<C>(i, &t::cat(&[p.name, ":", &x, "\r\nX-AB:end\r\n"])))
    }
    each_comp!(go)
}
/// Any characters as name of an extension property, parameters and values.
pub fn params() {
    fn go<C: Comp>() {
        let i = sx::choice(C::PROPS.len() as u64, "property");
        let p = &C::PROPS[i];
        if !keeps(p) {
            return;
        }
        let x = chars(t::param("N", 1) as usize, "chars");
        let line = match sx::choice(5, "place") {
            0 => t::cat(&[p.name, ";P=", &x, "a:v"]),
            1 => t::cat(&[p.name, ";P=\"a", &x, "\":v"]),
            2 => t::cat(&[p.name, ";Q=", &x, ";P", &x, "=\"a;b\":v,", &x, "\\,"]),
            3 => t::cat(&[p.name, ";P=a;P=", &x, ":v"]),
            _ => t::cat(&[p.name, ";P", &x, "=;A=\"", &x, " \":v"]),
        };
        trip::<C>(&must::<C>(i, &t::cat(&[&line, "\r\nNAME:end\r\n"])))
    }
    each_comp!(go)
}
/// The written forms of typed values, the digit or the letter replaced by `d`.
fn forms(k: K) -> &'static [&'static str] {
    match k {
        K::Date => &[":20240#01T000001", ";VALUE=DATE:2024010#", ":20241231T2359#5Z", ";TZID=X:20240229T0#0000", ":#"],
        K::Dt => &[":20240#01T000001", ":2024123#T235959Z", ":2024010#"],
        K::Dur => &[":PT#S", ":-P#W", ":+P1DT#H2M3S", ":P#D", ":PT#M", ":P1#"],
        K::Int => &[":#", ":0#", ":+#", ":1#"],
        K::Class => &[":PRIVATE", ":PUBLIC", ":CONFIDENTIAL", ":x#", ":X#"],
        K::Status => &[":TENTATIVE", ":CONFIRMED", ":CANCELLED", ":NEEDS-ACTION", ":COMPLETED", ":IN-PROCESS", ":DRAFT", ":FINAL", ":FINA#"],
        K::Transp => &[":OPAQUE", ":TRANSPARENT", ":OPAQU#"],
        K::Geo => &[":37.38#;-122.08", ":#;-#", ":1e#;.5", ":0;-0#"],
        K::Recur => &[
            ":FREQ=DAILY;COUNT=#", ":FREQ=SECONDLY;UNTIL=2024010#", ":UNTIL=20240101T00000#Z;FREQ=MINUTELY", ":FREQ=YEARLY;BYDAY=#SU,-1MO,FR;BYMONTH=#,12",
            ":FREQ=HOURLY;BYSECOND=#,0;BYMINUTE=5#;BYHOUR=1#;BYMONTHDAY=-#;BYYEARDAY=1#;BYWEEKNO=#;BYSETPOS=-#;WKST=SU;INTERVAL=#", ":FREQ=WEEKLY;INTERVAL=0#", ":FREQ=MONTHLY;COUNT=0;BYDAY=+#TH",
        ],
        K::Rdate => &[";VALUE=DATE:2024010#,20240101", ":20240101T00000#,20240101T000000Z", ";VALUE=PERIOD:20240101T00000#/PT1H,20240101T000000Z/20240101T00000#Z", ":2024010#"],
        K::Freebusy => &[":20240101T00000#/PT1H,20240101T000000Z/20240101T00000#Z", ";FBTYPE=FREE:20240101T00000#/-P#W"],
        K::Exdate => &[":20240101T00000#,20240101T000000Z", ";VALUE=DATE:2024010#,20240101", ":2024010#,20240101T000000"],
        K::Offset => &[":+0#00", ":-0#30", ":+0#:30", ":-00#0", ":+01003#"],
        K::Trigger => &[":-PT#M", ";RELATED=END:PT#S", ";VALUE=DATE-TIME:20240101T00000#Z", ";VALUE=DURATION:P#W", ":20240101T00000#"],
        K::Rstatus => &[":2.#;Success", ":#.75;a\\;b\\,c;d;e\\nf", ":1e#;x;", ":#;"],
        _ => &[],
    }
}
/// Typed values in all their forms, with an arbitrary character each.
pub fn typed() {
    fn go<C: Comp>() {
        let i = sx::choice(C::PROPS.len() as u64, "property");
        let p = &C::PROPS[i];
        let f = forms(p.kind);
        if f.is_empty() {
            return;
        }
        let f = f[sx::choice(f.len() as u64, "form")];
        let c = chars(1, "char");
        // a number that is none is not equal to itself
        sx::assume(f != ":#;" || c != "n");
        let line = t::cat(&[p.name, &f.replace('#', &c), "\r\n"]);
        let mut more = line.clone();
        if p.n == N::Many {
            more = t::cat(&[&line, p.name, ":", &value(p.kind, &v("", b'3')), "\r\n"]);
        }
        trip_class::<C>(p.kind, &must::<C>(i, &more))
    }
    each_comp!(go)
}
/// As `trip`; an unknown classification is written in capitals.
fn trip_class<C: Comp>(k: K, s: &str) {
    if k == K::Class {
        if let Ok(c) = C::parse(s) {
            let w = c.ser().unwrap_or_default();
            if let (Some(a), Some(b)) = (class_of(s), class_of(&w)) {
                if a != b && a.to_uppercase() == b {
                    return sx::kf(false, "class-case");
                }
            }
        }
    }
    trip::<C>(s)
}
fn class_of(s: &str) -> Option<&str> {
    let i = s.find("\r\nCLASS:")? + 8;
    let n = s[i..].find('\r')?;
    Some(&s[i..i + n])
}
/// All properties at once, those with several values twice, in any rotation.
pub fn all() {
    fn go<C: Comp>() {
        let n = C::PROPS.len();
        let k = sx::choice(n as u64, "first");
        let d = digit("d");
        let mut s = String::new();
        for j in 0..n {
            let p = &C::PROPS[(k + j) % n];
            let mut x = sample(p, d);
            if keeps(p) {
                x.text.push_str("\\, ;é\\n,\\\\");
                x.params.insert("LANGUAGE".into(), "\"a;b\"".into());
            }
            s.push_str(&line(p.name, p.kind, &x));
            if p.n == N::Many {
                s.push_str(&line(p.name, p.kind, &sample(p, b'2')));
                let f = forms(p.kind);
                if !f.is_empty() {
                    s.push_str(&t::cat(&[p.name, &f[j % f.len().min(2)].replace('#', "1"), "\r\n"]));
                }
            }
        }
        let s = t::wrap(C::NAME, &s);
        sx::check(C::parse(&s).is_ok(), "a component is rejected");
        trip::<C>(&s)
    }
    each_comp!(go)
}
/// A line of arbitrary characters between others.
pub fn any() {
    let n = t::param("N", 5) as usize;
    let s = sx::ascii_n(n, "line");
    trip::<ikal::VEvent>(&t::vevent(&t::cat(&[&s, "\r\nSUMMARY:s\r\n"])))
}
fn norm_alarm(a: &VAlarm) -> VAlarm {
    match a {
        VAlarm::Audio(x) => VAlarm::Audio(norm(x)),
        VAlarm::Display(x) => VAlarm::Display(norm(x)),
        VAlarm::Email(x) => VAlarm::Email(norm(x)),
    }
}
fn norm_calendar(c: &VCalendar) -> VCalendar {
    let mut n = norm(c);
    n.alarms = c.alarms.iter().map(norm_alarm).collect();
    n.events = c.events.iter().map(norm).collect();
    for e in &mut n.events {
        e.alarms = e.alarms.iter().map(norm_alarm).collect();
    }
    n.todo = c.todo.iter().map(norm).collect();
    n.journals = c.journals.iter().map(norm).collect();
    n.freebusy = c.freebusy.iter().map(norm).collect();
    n.timezones = c.timezones.iter().map(norm).collect();
    for z in &mut n.timezones {
        z.standard = z.standard.iter().map(norm).collect();
        z.daylight = z.daylight.iter().map(norm).collect();
    }
    n
}
fn part<C: Comp>(x: &str) -> String {
    let mut b = Built::<C>::new();
    for (i, p) in C::PROPS.iter().enumerate() {
        if p.n == N::Must || p.kind == K::Text && p.name != "ACTION" {
            let y = if p.name == "ACTION" { sample(p, b'1') } else { v(x, b'1') };
            b.add(i, &y);
        }
    }
    b.body
}
/// Calendars: a sequence of components in any order, with parts inside.
pub fn nested() {
    use ikal::valarm::{Audio, Display, Email};
    use ikal::vtimezone::{Daylight, Standard};
    let x = t::cat(&["a", &chars(1, "text"), "b"]);
    let w = |n: &str, b: &str| t::wrap(n, b);
    let inner = |k: usize| match k {
        0 => w("VALARM", &part::<Audio>(&x)),
        1 => w("VALARM", &part::<Email>(&x)),
        _ => w("VALARM", &part::<Display>(&x)),
    };
    let n = sx::choice(t::param("N", 2) + 1, "components");
    let mut s = part::<VCalendar>(&x);
    for j in 0..n {
        s.push_str(&match sx::choice(8, "kind") {
            0 => w("VEVENT", &part::<ikal::VEvent>(&x)),
            1 => {
                let k = sx::choice(3, "alarm");
                w("VEVENT", &t::cat(&[&part::<ikal::VEvent>("e"), &inner(k), &inner((k + 1) % 3)]))
            }
            2 => w("VTODO", &part::<ikal::VTodo>(&x)),
            3 => w("VJOURNAL", &part::<ikal::VJournal>(&x)),
            4 => w("VFREEBUSY", &part::<ikal::VFreebusy>(&x)),
            5 => inner(j % 3),
            6 => w("VTIMEZONE", &t::cat(&[&part::<ikal::VTimezone>("z"), &w("DAYLIGHT", &part::<Daylight>(&x)), &w("STANDARD", &part::<Standard>(&x)), &w("DAYLIGHT", &part::<Daylight>("d"))])),
            _ => w("VTIMEZONE", &t::cat(&[&part::<ikal::VTimezone>(&x), &w("STANDARD", &part::<Standard>("s"))])),
        });
    }
    let Ok(c) = w("VCALENDAR", &s).parse::<VCalendar>() else { return sx::check(false, "a calendar is rejected") };
    sx::cover("calendar");
    match ikal::ser::ical(&c).map(|s| s.parse::<VCalendar>()) {
        Ok(Ok(y)) => {
            let equal = norm_calendar(&c) == norm_calendar(&y);
            sx::check(equal, "another component is read back")
        }
        Ok(Err(_)) => sx::check(false, "what is written cannot be read"),
        Err(_) => sx::check(false, "a parsed component cannot be written"),
    }
}
/// Every property two or three times, with equal values or not, and then another.
pub fn repeated() {
    fn go<C: Comp>() {
        let i = sx::choice(C::PROPS.len() as u64, "property");
        let p = &C::PROPS[i];
        let n = 2 + sx::choice(t::param("N", 2), "times");
        let d = digit("d");
        let mut more = String::new();
        for j in 0..n {
            let x = if j > 0 && sx::flag("other") { b'7' } else { d };
            more.push_str(&line(p.name, p.kind, &sample(p, x)));
        }
        trip::<C>(&must::<C>(i, &t::cat(&[&more, "NAME:end\r\n"])))
    }
    each_comp!(go)
}
/// Standard parameters, alone or with another.
pub fn standard() {
    fn go<C: Comp>() {
        let i = sx::choice(C::PROPS.len() as u64, "property");
        let p = &C::PROPS[i];
        if !keeps(p) {
            return;
        }
        let mut x = v(&t::cat(&["a,", &chars(1, "value"), "b"]), b'1');
        for (k, v) in crate::props::standard() {
            x.params.insert(k, quoted(&v));
        }
        trip::<C>(&must::<C>(i, &line(p.name, p.kind, &x)))
    }
    each_comp!(go)
}
/// Times in a zone other than UTC.
pub fn zone() {
    let utc = sx::flag("utc");
    let h = sx::range(0, 23, "hour") as u8;
    let hh = [b'0' + h / 10, b'0' + h % 10];
    let s = t::cat(&["20240701T", std::str::from_utf8(&hh).unwrap(), "5959", if utc { "Z" } else { "" }]);
    let text = t::vevent(&t::cat(&["DTSTART:", &s, "\r\nCREATED:", &s, "\r\n"]));
    let a: ikal::VEvent = text.parse().unwrap();
    let b: Option<ikal::VEvent> = ikal::ser::ical(&a).ok().and_then(|s| s.parse().ok());
    sx::cover("time");
    // the local time is written, followed by Z
    let x = b.as_ref() == Some(&a);
    if utc && b.is_some() { sx::kf(x, "z-written") } else { sx::check(x, "a time is another one after writing and reading") }
}
/// Many lines, long lists, long values, many parameters and components.
pub fn large() {
    fn go<C: Comp>() {
        let i = sx::choice(C::PROPS.len() as u64, "property");
        let p = &C::PROPS[i];
        let d = digit("d");
        let mut more = String::new();
        if p.n == N::Many {
            for j in 0..30u8 {
                more.push_str(&line(p.name, p.kind, &sample(p, if j % 4 == 0 { d } else { b'1' + j % 9 })));
            }
        } else if keeps(p) {
            let mut x = v(&t::cat(&["a", &chars(1, "value"), &"0123456789é,".repeat(70)]), d);
            for j in 0..20 {
                x.params.insert(t::cat(&["P", &j.to_string()]), j.to_string());
            }
            more.push_str(&line(p.name, p.kind, &x));
        } else {
            return;
        }
        trip::<C>(&must::<C>(i, &t::cat(&[&more, "NAME:end\r\n"])))
    }
    each_comp!(go)
}
