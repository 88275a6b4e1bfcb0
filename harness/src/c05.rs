//! C05: nesting is preserved, truncated text is rejected.
use crate::props::*;
use crate::{each_comp, sx, t};
use ikal::{VAlarm, VCalendar, VEvent, VTimezone};

fn other<C: Comp>(d: u8) -> Built<C> {
    let mut b = Built::<C>::new();
    for (i, p) in C::PROPS.iter().enumerate() {
        if p.n == N::Must {
            b.add(i, &sample(p, d));
        }
    }
    b
}
fn alarm(d: u8) -> (String, VAlarm) {
    match sx::choice(3, "alarm") {
        0 => {
            let b = other::<ikal::valarm::Audio>(d);
            (b.text(), VAlarm::Audio(b.want))
        }
        1 => {
            let b = other::<ikal::valarm::Display>(d);
            (b.text(), VAlarm::Display(b.want))
        }
        _ => {
            let b = other::<ikal::valarm::Email>(d);
            (b.text(), VAlarm::Email(b.want))
        }
    }
}
fn event(max: u64) -> Built<VEvent> {
    let mut b = other::<VEvent>(digit("event"));
    for _ in 0..sx::choice(max + 1, "alarms") {
        let (s, a) = alarm(digit("d"));
        b.body.push_str(&s);
        b.want.alarms.push(a);
    }
    b
}
fn zone(max: u64) -> Built<VTimezone> {
    let mut b = other::<VTimezone>(digit("zone"));
    for _ in 0..sx::choice(max + 1, "parts") {
        let d = digit("d");
        if sx::choice(2, "part") == 0 {
            let s = other::<ikal::vtimezone::Standard>(d);
            b.body.push_str(&s.text());
            b.want.standard.push(s.want);
        } else {
            let s = other::<ikal::vtimezone::Daylight>(d);
            b.body.push_str(&s.text());
            b.want.daylight.push(s.want);
        }
    }
    b
}
fn calendar(max: u64, inner: u64) -> Built<VCalendar> {
    let mut b = other::<VCalendar>(b'5');
    for _ in 0..sx::choice(max + 1, "components") {
        let s = match sx::choice(6, "kind") {
            0 => {
                let (s, a) = alarm(digit("d"));
                b.want.alarms.push(a);
                s
            }
            1 => {
                let e = event(inner);
                let s = e.text();
                b.want.events.push(e.want);
                s
            }
            2 => {
                let e = other::<ikal::VFreebusy>(digit("d"));
                let s = e.text();
                b.want.freebusy.push(e.want);
                s
            }
            3 => {
                let e = other::<ikal::VJournal>(digit("d"));
                let s = e.text();
                b.want.journals.push(e.want);
                s
            }
            4 => {
                let e = zone(inner);
                let s = e.text();
                b.want.timezones.push(e.want);
                s
            }
            _ => {
                let e = other::<ikal::VTodo>(digit("d"));
                let s = e.text();
                b.want.todo.push(e.want);
                s
            }
        };
        b.body.push_str(&s);
    }
    b
}
/// Every sequence of nested components.
pub fn nesting() {
    let b = calendar(t::param("N", 3), t::param("INNER", 1));
    sx::cover("calendar");
    b.check("nested components are not kept");
}
/// Alarms of an event, parts of a time zone.
pub fn parts() {
    if sx::choice(2, "kind") == 0 {
        let b = event(t::param("N", 4));
        sx::cover("event");
        b.check("alarms are not kept");
    } else {
        let b = zone(t::param("N", 4));
        sx::cover("zone");
        b.check("parts of a time zone are not kept");
    }
}
/// Every prefix of a component.
pub fn cut() {
    fn go<C: Comp>() {
        let b = other::<C>(digit("d"));
        prefix::<C>(&b.text());
    }
    match sx::choice(3, "what") {
        0 => each_comp!(go),
        1 => prefix::<VCalendar>(&crate::props::calendar(digit("d"))),
        _ => {
            let b = calendar(1, 2);
            prefix::<VCalendar>(&b.text())
        }
    }
}
fn prefix<C: Comp>(s: &str) {
    // up to the last character of the name in the END line
    let at = sx::choice(s.len() as u64 - 2, "at");
    if s.is_char_boundary(at) {
        sx::cover("cut");
        sx::check(C::parse(&s[..at]).is_err(), "truncated text is accepted");
    }
}
/// A part is missing in the middle of a calendar: whole lines BEGIN or END.
pub fn mismatch() {
    let s = crate::props::calendar(digit("d"));
    let lines: Vec<&str> = s.split_inclusive("\r\n").collect();
    let k = sx::choice(lines.len() as u64, "line");
    if !lines[k].starts_with("BEGIN:") && !lines[k].starts_with("END:") {
        return;
    }
    let (word, name) = lines[k].trim_end().split_once(':').unwrap();
    let new = match sx::choice(3, "how") {
        // dropped
        0 => String::new(),
        // the name of another component
        1 => {
            let n = ["VCALENDAR", "VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE", "STANDARD", "DAYLIGHT", "VALARM", "VEVENTS", ""][sx::choice(11, "name")];
            if n == name {
                return;
            }
            t::cat(&[word, ":", n, "\r\n"])
        }
        // other characters in the name, or more of them
        _ => {
            let at = sx::choice(name.len() as u64 + 1, "at");
            let c = sx::ascii_n(1, "char");
            sx::assume(!name[at..].starts_with(&c) && c != "\r" && c != "\n");
            t::cat(&[word, ":", &name[..at], &c, name.get(at + 1..).unwrap_or(""), "\r\n"])
        }
    };
    let mut f = String::new();
    for (i, l) in lines.iter().enumerate() {
        f.push_str(if i == k { &new } else { l });
    }
    sx::cover("mismatch");
    let r = VCalendar::parse(&f);
    if word == "END" && name == "VCALENDAR" && new.starts_with("END:VCALENDAR") {
        // text behind the name of the last END line
        sx::kf(r.is_err(), "end-line-goes-on");
        sx::check(r.is_err() || r == VCalendar::parse(&s), "text behind the last END line changes the calendar");
        return;
    }
    sx::check(r.is_err(), "BEGIN and END do not match and nobody minds");
}
/// One bad property anywhere spoils the whole calendar.
pub fn spoiled() {
    let s = crate::props::calendar(b'3');
    let lines: Vec<&str> = s.split_inclusive("\r\n").collect();
    let k = sx::choice(lines.len() as u64, "line");
    let (name, value) = lines[k].trim_end().split_once(':').unwrap();
    let typed = name.starts_with("DT") || name == "TRIGGER" || name.starts_with("TZOFF");
    if !typed {
        return;
    }
    // a character that cannot be there
    let at = sx::choice(value.len() as u64, "at");
    let c = sx::ascii_n(1, "char");
    for b in c.bytes() {
        sx::assume((b >= 0x21) & (b != 0x7f) & (b != b'+') & (b != b'-') & !b.is_ascii_digit() & (b != b':'));
        sx::assume(b != value.as_bytes()[at]);
    }
    if name == "TRIGGER" && matches!(value.as_bytes()[at], b'S' | b'P') {
        sx::assume(!"WDHMS".contains(&c));
    }
    let mut f = String::new();
    for (i, l) in lines.iter().enumerate() {
        if i == k {
            f.push_str(&t::cat(&[name, ":", &value[..at], &c, &value[at + 1..], "\r\n"]));
        } else {
            f.push_str(l);
        }
    }
    sx::cover("spoiled");
    sx::check(VCalendar::parse(&f).is_err(), "a calendar with a malformed property is accepted");
}
/// Many components.
pub fn many() {
    let d = digit("d");
    sx::cover("many");
    match sx::choice(3, "what") {
        0 => {
            let mut b = other::<VEvent>(d);
            for i in 0..40 {
                let (s, a) = match i % 3 {
                    0 => {
                        let b = other::<ikal::valarm::Audio>(d);
                        (b.text(), VAlarm::Audio(b.want))
                    }
                    1 => {
                        let b = other::<ikal::valarm::Display>(b'4');
                        (b.text(), VAlarm::Display(b.want))
                    }
                    _ => {
                        let b = other::<ikal::valarm::Email>(d);
                        (b.text(), VAlarm::Email(b.want))
                    }
                };
                b.body.push_str(&s);
                b.want.alarms.push(a);
            }
            b.check("alarms are not kept");
        }
        1 => {
            let mut b = other::<VTimezone>(d);
            for i in 0..40 {
                if i % 3 == 0 {
                    let s = other::<ikal::vtimezone::Standard>(d);
                    b.body.push_str(&s.text());
                    b.want.standard.push(s.want);
                } else {
                    let s = other::<ikal::vtimezone::Daylight>(b'0' + i % 10);
                    b.body.push_str(&s.text());
                    b.want.daylight.push(s.want);
                }
            }
            b.check("parts of a time zone are not kept");
        }
        _ => {
            let mut b = other::<VCalendar>(b'5');
            let same = sx::choice(7, "kind");
            for i in 0..42u8 {
                let x = if i % 4 == 0 { d } else { b'1' + i % 9 };
                let s = match if same < 6 { same } else { (i * 5 % 6) as usize } {
                    0 => {
                        let e = other::<ikal::valarm::Audio>(x);
                        let s = e.text();
                        b.want.alarms.push(VAlarm::Audio(e.want));
                        s
                    }
                    1 => {
                        let e = other::<VEvent>(x);
                        let s = e.text();
                        b.want.events.push(e.want);
                        s
                    }
                    2 => {
                        let e = other::<ikal::VFreebusy>(x);
                        let s = e.text();
                        b.want.freebusy.push(e.want);
                        s
                    }
                    3 => {
                        let e = other::<ikal::VJournal>(x);
                        let s = e.text();
                        b.want.journals.push(e.want);
                        s
                    }
                    4 => {
                        let e = other::<VTimezone>(x);
                        let s = e.text();
                        b.want.timezones.push(e.want);
                        s
                    }
                    _ => {
                        let e = other::<ikal::VTodo>(x);
                        let s = e.text();
                        b.want.todo.push(e.want);
                        s
                    }
                };
                b.body.push_str(&s);
            }
            b.check("nested components are not kept");
        }
    }
}
