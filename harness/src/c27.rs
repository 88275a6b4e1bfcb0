//! C27: offsets from UTC.
use crate::{sx, t};
use chrono::FixedOffset;
use ikal::vtimezone::{Daylight, Standard};

const WAYS: u64 = 8;
/// The offset that reaches the library as `s` in one of the ways, with the other offset of the component.
fn read(way: usize, s: &str) -> Option<(FixedOffset, FixedOffset)> {
    const OTHER: &str = "-0130";
    let zone = |body: &str| t::cat(&["TZID:z\r\n", body]);
    let body = |to: &str, from: &str| t::cat(&["DTSTART:20240101T000000\r\nTZOFFSETTO:", to, "\r\nTZOFFSETFROM:", from, "\r\n"]);
    let to = way % 2 == 0;
    let text = if to { body(s, OTHER) } else { body(OTHER, s) };
    let pair = |a: FixedOffset, b: FixedOffset| if to { (a, b) } else { (b, a) };
    match way / 2 {
        0 => t::wrap("STANDARD", &text).parse::<Standard>().ok().map(|x| pair(x.tzoffsetto, x.tzoffsetfrom)),
        1 => t::wrap("DAYLIGHT", &text).parse::<Daylight>().ok().map(|x| pair(x.tzoffsetto, x.tzoffsetfrom)),
        2 => {
            let z = t::cat(&["BEGIN:STANDARD\r\n", &body("+0000", "+0000"), "END:STANDARD\r\nBEGIN:DAYLIGHT\r\n", &text, "END:DAYLIGHT\r\n"]);
            let c = t::cat(&["PRODID:p\r\nVERSION:2.0\r\n", &t::wrap("VTIMEZONE", &zone(&z))]);
            let c = t::wrap("VCALENDAR", &c).parse::<ikal::VCalendar>().ok()?;
            let x = &c.timezones[0].daylight[0];
            Some(pair(x.tzoffsetto, x.tzoffsetfrom))
        }
        _ => {
            let z = if to {
                ikal::vtimezone! { standard: [{ tzoffsetto: s, tzoffsetfrom: OTHER }] }
            } else {
                ikal::vtimezone! { standard: [{ tzoffsetto: OTHER, tzoffsetfrom: s }] }
            };
            z.ok().map(|z| pair(z.standard[0].tzoffsetto, z.standard[0].tzoffsetfrom))
        }
    }
}
/// Two digits, if they are there.
fn two(b: &[u8], i: usize) -> Option<i32> {
    match b.get(i..i + 2) {
        Some([x, y]) if x.is_ascii_digit() & y.is_ascii_digit() => Some((x - b'0') as i32 * 10 + (y - b'0') as i32),
        _ => None,
    }
}
/// What a text must mean: the seconds east of Greenwich by the hours and minutes it begins with.
fn start(b: &[u8]) -> Option<i32> {
    let sign = match b.first() {
        Some(b'+') => 1,
        Some(b'-') => -1,
        _ => return None,
    };
    let (h, m) = (two(b, 1)?, two(b, 3)?);
    if (h < 24) & (m < 60) { Some(sign * (h * 3600 + m * 60)) } else { None }
}
fn judge(way: usize, s: &str) {
    let b = s.as_bytes();
    let got = read(way, s);
    let is = |x: &(FixedOffset, FixedOffset), n: i32| x.0.local_minus_utc() == n;
    if let Some(x) = &got {
        sx::cover("accepted");
        sx::check(x.1.local_minus_utc() == -5400, "the other offset changes");
    } else {
        sx::cover("rejected");
    }
    match (start(b), got) {
        (Some(n), Some(x)) if b.len() == 5 => sx::check(is(&x, n), "another offset than written"),
        (Some(n), Some(x)) => {
            sx::cover("longer");
            // exactly, with the seconds
            let all = match two(b, 5) {
                Some(s) if b.len() == 7 && s < 60 => Some(if b[0] == b'-' { n - s } else { n + s }),
                _ => None,
            };
            if all.is_some_and(|n| is(&x, n)) {
                return;
            }
            sx::check(is(&x, n), "another offset than written");
            sx::kf(false, "offset-rest");
        }
        (Some(_), None) => {
            let seconds = b.len() == 7 && two(b, 5).is_some_and(|s| s < 60);
            sx::check(b.len() != 5 && !seconds, "an offset is rejected")
        }
        // a colon or blanks between hours and minutes are let through
        (None, Some(x)) => {
            sx::check(b.len() > 5 && (b[0] == b'+' || b[0] == b'-') && matches!(b[3], b':' | b' ' | b'\t'..=b'\r'), "no offset is accepted");
            let rest: Vec<u8> = b[3..].iter().copied().filter(|c| !matches!(c, b':' | b' ' | b'\t'..=b'\r')).collect();
            let mut plain = b[..3].to_vec();
            plain.extend(rest);
            sx::check(start(&plain).is_some_and(|n| is(&x, n)), "another offset than written");
        }
        (None, None) => (),
    }
}
/// Any five characters.
pub fn five() {
    let way = sx::choice(WAYS, "way");
    judge(way, &sx::ascii_n(5, "text"))
}
/// A sign and digits, with any characters behind them or instead of some.
pub fn longer() {
    let way = sx::choice(WAYS, "way");
    let sign = ["+", "-"][sx::choice(2, "sign")];
    let more = sx::ascii_n(t::param("N", 2) as usize, "more");
    let s = match sx::choice(3, "place") {
        0 => t::cat(&[sign, &t::digits(2, "hours").0, "30", &more]),
        1 => t::cat(&[sign, "01", &more, "30"]),
        _ => t::cat(&[sign, "0", &more, "00"]),
    };
    judge(way, &s)
}
/// Any seconds.
pub fn seconds() {
    let way = sx::choice(WAYS, "way");
    let sign = ["+", "-"][sx::choice(2, "sign")];
    judge(way, &t::cat(&[sign, &t::digits(2, "hours").0, &t::digits(2, "minutes").0, &t::digits(2, "seconds").0]))
}
/// Too short, or without a sign.
pub fn short() {
    let way = sx::choice(WAYS, "way");
    let s = match sx::choice(3, "shape") {
        0 => sx::ascii(4, "text"),
        1 => t::cat(&[&t::digits(4, "digits").0, &sx::ascii(1, "more")]),
        _ => t::cat(&[&sx::unicode_n(1, "sign"), "0100"]),
    };
    judge(way, &s)
}
/// Every offset as it is written.
pub fn written() {
    let i = sx::choice(3, "size");
    let n = match i {
        0 => sx::range(-86_399, 86_399, "offset"),
        // whole hours and minutes, few seconds
        1 => sx::range(-23, 23, "hours") * 3600,
        _ => sx::range(-70, 70, "seconds"),
    };
    let o = FixedOffset::east_opt(n as i32).unwrap();
    let s = match sx::choice(4, "way") {
        0 => ikal::ser::ical(&o).unwrap(),
        1 => written_as(&Standard { tzoffsetto: o, ..Default::default() }, "TZOFFSETTO:"),
        2 => written_as(&Daylight { tzoffsetfrom: o, ..Default::default() }, "TZOFFSETFROM:"),
        _ => written_as(&ikal::VTimezone { standard: vec![Standard { tzoffsetfrom: o, ..Default::default() }], ..Default::default() }, "TZOFFSETFROM:"),
    };
    sx::cover("written");
    let b = s.as_bytes();
    sx::check(b.len() == 5 || b.len() == 7, "no offset is written");
    let sign = if n < 0 { b'-' } else { b'+' };
    let (h, m, s) = (two(b, 1), two(b, 3), if b.len() == 7 { two(b, 5) } else { Some(0) });
    let (Some(h), Some(m), Some(s)) = (h, m, s) else { return sx::check(false, "no offset is written") };
    sx::check((b[0] == sign) & (m < 60) & (s < 60) & ((s == 0) | (b.len() == 7)), "no offset is written");
    sx::check((b.len() == 5) == (s == 0), "seconds are written though there are none");
    sx::check(h * 3600 + m * 60 + s == n.abs() as i32, "another offset is written");
}
fn written_as<T: ikal::ser::Serialize>(x: &T, name: &str) -> String {
    let s = ikal::ser::ical(x).unwrap();
    t::unfold(&s).iter().find_map(|l| l.strip_prefix(name)).unwrap_or_default().into()
}
