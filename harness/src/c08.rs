//! C08: enumerated and integer values.
use crate::{sx, t};

fn is(s: &str, table: &[&str]) -> Option<usize> {
    table.iter().position(|x| *x == s)
}
fn token(max: u64) -> String {
    sx::ascii(max, "token")
}
fn same<T: PartialEq>(r: ikal::Result<T>, s: &str, table: &[&str], values: &[T], what: &str) {
    match (is(s, table), r) {
        (Some(k), Ok(v)) => {
            sx::cover("accepted");
            sx::check(v == values[k], what)
        }
        (None, Err(_)) => sx::cover("rejected"),
        _ => sx::check(false, what),
    }
}
const STATUS: [&str; 8] = ["TENTATIVE", "CONFIRMED", "CANCELLED", "NEEDS-ACTION", "COMPLETED", "IN-PROCESS", "DRAFT", "FINAL"];
fn statuses() -> [ikal::Status; 8] {
    use ikal::Status::*;
    [Tentative, Confirmed, Cancelled, NeedsAction, Completed, InProcess, Draft, Final]
}
const CLASS: [&str; 3] = ["PUBLIC", "PRIVATE", "CONFIDENTIAL"];
fn class_of(s: &str) -> ikal::Class {
    match is(s, &CLASS) {
        Some(0) => ikal::Class::Public,
        Some(1) => ikal::Class::Private,
        Some(2) => ikal::Class::Confidential,
        _ => ikal::Class::Custom(s.to_string()),
    }
}
const TRANSP: [&str; 2] = ["OPAQUE", "TRANSPARENT"];
const FREQ: [&str; 7] = ["SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"];
const DAY: [&str; 7] = ["SU", "MO", "TU", "WE", "TH", "FR", "SA"];
fn freqs() -> [ikal::Freq; 7] {
    use ikal::Freq::*;
    [Secondly, Minutely, Hourly, Daily, Weekly, Monthly, Yearly]
}
fn days() -> [ikal::Weekday; 7] {
    use ikal::Weekday::*;
    [Sunday, Monday, Tuesday, Wenesday, Thurday, Friday, Saturday]
}
/// FromStr of each enumeration on an arbitrary ASCII token.
pub fn from_str() {
    match sx::choice(5, "type") {
        0 => {
            let s = token(13);
            same(s.parse::<ikal::Status>(), &s, &STATUS, &statuses(), "status")
        }
        1 => {
            let s = token(13);
            sx::check(s.parse::<ikal::Class>() == Ok(class_of(&s)), "class")
        }
        2 => {
            let s = token(12);
            same(s.parse::<ikal::TimeTransparency>(), &s, &TRANSP, &[ikal::TimeTransparency::Opaque, ikal::TimeTransparency::Transparent], "transparency")
        }
        3 => {
            let s = token(9);
            same(s.parse::<ikal::Freq>(), &s, &FREQ, &freqs(), "frequency")
        }
        _ => {
            let s = sx::unicode_n(sx::choice(5, "chars"), "token");
            same(s.parse::<ikal::Weekday>(), &s, &DAY, &days(), "weekday")
        }
    }
}
/// An optional ordinal, then a weekday.
pub fn weekdaynum() {
    let s = sx::ascii(t::param("N", 6), "token");
    let b = s.as_bytes();
    let mut i = 0;
    let mut neg = false;
    if i < b.len() && (b[i] == b'-' || b[i] == b'+') {
        neg = b[i] == b'-';
        i += 1;
    }
    let from = i;
    let mut v = 0i64;
    while i < b.len() && b[i].is_ascii_digit() {
        v = v * 10 + (b[i] - b'0') as i64;
        i += 1;
    }
    if neg {
        v = -v;
    }
    let want = if i > from && (-128..=127).contains(&v) {
        is(&s[i..], &DAY).map(|k| (k, Some(v as i8)))
    } else if i == 0 {
        is(&s, &DAY).map(|k| (k, None))
    } else {
        None
    };
    match (want, s.parse::<ikal::WeekdayNum>()) {
        (Some((k, ord)), Ok(w)) => {
            sx::cover("weekday with ordinal");
            sx::check(w.weekday == days()[k] && w.ord == ord, "weekday with ordinal")
        }
        (None, Err(_)) => sx::cover("no weekday"),
        (Some(_), _) => sx::check(false, "a weekday is rejected"),
        _ => sx::check(false, "accepted what is no weekday"),
    }
}
/// n arbitrary characters of a property value in an event or alarm.
fn printable(n: usize) -> String {
    let s = sx::ascii_n(n, "value");
    for b in s.bytes() {
        sx::assume((b >= 0x20) & (b != 0x7f));
    }
    s
}
/// The enumerations as properties of components.
pub fn property() {
    match sx::choice(6, "prop") {
        0 => {
            let s = printable([0, 5, 9, 10, 12][sx::choice(5, "len")]);
            let r = t::vevent(&t::cat(&["STATUS:", &s, "\r\n"])).parse::<ikal::VEvent>().map(|e| e.status);
            same(r, &s, &STATUS, &statuses().map(Some), "STATUS of VEVENT")
        }
        1 => {
            let s = printable([0, 1, 6, 7, 12][sx::choice(5, "len")]);
            let r = t::vevent(&t::cat(&["CLASS:", &s, "\r\n"])).parse::<ikal::VEvent>().map(|e| e.class);
            sx::check(r == Ok(Some(class_of(&s))), "CLASS of VEVENT")
        }
        2 => {
            let s = printable([0, 6, 11][sx::choice(3, "len")]);
            let r = t::vevent(&t::cat(&["TRANSP:", &s, "\r\n"])).parse::<ikal::VEvent>().map(|e| e.transp);
            same(r, &s, &TRANSP, &[Some(ikal::TimeTransparency::Opaque), Some(ikal::TimeTransparency::Transparent)], "TRANSP of VEVENT")
        }
        3 => {
            let s = printable([0, 5, 9, 10, 12][sx::choice(5, "len")]);
            let todo = sx::choice(2, "kind") == 0;
            let r = if todo {
                t::wrap("VTODO", &t::cat(&["UID:u\r\nDTSTAMP:20240101T000000\r\nSTATUS:", &s, "\r\n"])).parse::<ikal::VTodo>().map(|e| e.status)
            } else {
                t::wrap("VJOURNAL", &t::cat(&["UID:u\r\nDTSTAMP:20240101T000000\r\nDTSTART:20240101\r\nSTATUS:", &s, "\r\n"])).parse::<ikal::VJournal>().map(|e| e.status)
            };
            same(r, &s, &STATUS, &statuses().map(Some), "STATUS of VTODO and VJOURNAL")
        }
        4 => {
            let s = printable([5, 7][sx::choice(2, "len")]);
            let r = t::vevent(&t::cat(&["RRULE:FREQ=", &s, "\r\n"])).parse::<ikal::VEvent>().map(|e| e.rrule.unwrap().freq);
            // further parts of the rule may follow a frequency
            if s.bytes().all(|b| b != b';') {
                same(r, &s, &FREQ, &freqs(), "FREQ of RRULE")
            }
        }
        _ => {
            let s = printable([0, 4, 5, 6, 7, 8][sx::choice(6, "len")]);
            let r = t::wrap("VALARM", &t::cat(&["TRIGGER:-PT5M\r\nDESCRIPTION:d\r\nSUMMARY:s\r\nACTION:", &s, "\r\n"])).parse::<ikal::VAlarm>();
            let kind = match &r {
                Ok(ikal::VAlarm::Audio(a)) => Some((0, a.action.text.clone())),
                Ok(ikal::VAlarm::Display(a)) => Some((1, a.action.text.clone())),
                Ok(ikal::VAlarm::Email(a)) => Some((2, a.action.text.clone())),
                Err(_) => None,
            };
            match (is(&s, &["AUDIO", "DISPLAY", "EMAIL"]), kind) {
                (Some(k), Some((n, a))) => {
                    sx::cover("alarm");
                    sx::check(k == n && a == s, "ACTION of VALARM")
                }
                (None, None) => sx::cover("no alarm"),
                _ => sx::check(false, "ACTION of VALARM"),
            }
        }
    }
}
/// An arbitrary text as an integer property.
pub fn integer() {
    let (max, name) = [(9u64, "PRIORITY"), (255, "PERCENT-COMPLETE"), (u32::MAX as u64, "SEQUENCE"), (u32::MAX as u64, "REPEAT"), (9, "PRIORITY of VTODO"), (u32::MAX as u64, "SEQUENCE of VTODO")][sx::choice(6, "prop")];
    // any short text, or longer digit strings
    let s = match sx::choice(2, "shape") {
        0 => printable(sx::choice(t::param("N", 4), "len")),
        _ => t::cat(&[["", "0000000", "4294967", "9999999", "42949672", "2147483"][sx::choice(6, "prefix")], &t::digits(3, "digits").0]),
    };
    let b = s.as_bytes();
    // Rust's integers also accept a leading plus sign
    let d = if b.len() > 1 && b[0] == b'+' { &b[1..] } else { b };
    let mut ok = !d.is_empty();
    let mut v = 0u64;
    for x in d {
        ok &= x.is_ascii_digit();
        v = v * 10 + x.wrapping_sub(b'0') as u64;
    }
    let line = t::cat(&[name.split(' ').next().unwrap(), ":", &s, "\r\n"]);
    let r: ikal::Result<Option<u64>> = match name {
        "PRIORITY" => t::vevent(&line).parse::<ikal::VEvent>().map(|e| e.priority.map(Into::into)),
        "SEQUENCE" => t::vevent(&line).parse::<ikal::VEvent>().map(|e| e.sequence.map(Into::into)),
        "REPEAT" => t::wrap("VALARM", &t::cat(&["ACTION:AUDIO\r\nTRIGGER:-PT5M\r\n", &line])).parse::<ikal::VAlarm>().map(|a| match a {
            ikal::VAlarm::Audio(a) => a.repeat.map(Into::into),
            _ => None,
        }),
        _ => t::wrap("VTODO", &t::cat(&["UID:u\r\nDTSTAMP:20240101T000000\r\n", &line])).parse::<ikal::VTodo>().map(|e| match name {
            "PRIORITY of VTODO" => e.priority.map(Into::into),
            "SEQUENCE of VTODO" => e.sequence.map(Into::into),
            _ => e.percent_complete.map(Into::into),
        }),
    };
    match r {
        Ok(x) => {
            sx::cover("number accepted");
            sx::check(ok && v <= max, "a number outside the range or malformed is accepted");
            sx::check(x == Some(v), "another number than written");
        }
        Err(_) => {
            sx::cover("number rejected");
            sx::check(!(ok && v <= max), "a number is rejected");
        }
    }
}
