//! C06: dates and times.
use crate::{sx, t};
use chrono::{Datelike, Timelike};

fn is(d: chrono::NaiveDate, y: u64, m: u64, dd: u64) -> bool {
    (d.year() as i64 == y as i64) & (d.month() as u64 == m) & (d.day() as u64 == dd)
}
fn num(s: &[u8]) -> u64 {
    s.iter().fold(0, |a, b| a * 10 + (b.wrapping_sub(b'0')) as u64)
}
/// Eight arbitrary characters as a date.
pub fn date() {
    let s = sx::ascii_n(8, "date");
    let b = s.as_bytes();
    let mut digits = true;
    for x in b {
        digits &= x.is_ascii_digit();
    }
    let (y, m, d) = (num(&b[..4]), num(&b[4..6]), num(&b[6..]));
    let valid = digits && (m >= 1) & (m <= 12) & (d >= 1) & (d <= t::month_len(y as i64, m as i64) as u64);
    match s.parse::<ikal::Date>() {
        Ok(ikal::Date::Date(x)) => {
            sx::cover("date accepted");
            sx::check(valid, "accepted a date that does not exist");
            sx::check(is(x, y, m, d), "another date than written");
        }
        Ok(_) => sx::check(false, "a bare date became a date-time"),
        Err(_) => {
            sx::cover("date rejected");
            sx::check(!valid, "rejected a valid date");
        }
    }
}
fn same(n: chrono::NaiveDateTime, y: u64, m: u64, d: u64, h: u64, i: u64, s: u64) -> bool {
    // second 60 is a leap second: 59 seconds and a fraction of at least one second
    let sec = n.second() as u64 + (n.nanosecond() >= 1_000_000_000) as u64;
    is(n.date(), y, m, d) & (n.hour() as u64 == h) & (n.minute() as u64 == i) & (sec == s)
}
struct Text {
    s: String,
    y: u64,
    m: u64,
    d: u64,
    h: u64,
    i: u64,
    sec: u64,
    valid: bool,
}
fn text(date: bool, time: bool, utc: bool) -> Text {
    let mut s = if date { sx::ascii_n(8, "date") } else { String::from("20240229") };
    let t = if time { sx::ascii_n(1, "sep") } else { String::from("T") };
    s.push_str(&t);
    s.push_str(&if time { sx::ascii_n(6, "time") } else { String::from("235960") });
    let b = s.as_bytes();
    let mut ok = t.as_bytes()[0] == b'T';
    for (k, x) in b.iter().enumerate() {
        ok &= k == 8 || x.is_ascii_digit();
    }
    let (y, m, d) = (num(&b[..4]), num(&b[4..6]), num(&b[6..8]));
    let (h, i, sec) = (num(&b[9..11]), num(&b[11..13]), num(&b[13..15]));
    let valid = ok && (m >= 1) & (m <= 12) & (d >= 1) & (d <= t::month_len(y as i64, m as i64) as u64) & (h < 24) & (i < 60) & (sec <= 60);
    if utc {
        s.push('Z');
    }
    Text { s, y, m, d, h, i, sec, valid }
}
fn from_str(x: Text, utc: bool) {
    match x.s.parse::<ikal::DateTime>() {
        Ok(v) => {
            sx::cover("date-time accepted");
            sx::check(x.valid, "accepted a date-time that does not exist");
            sx::check(matches!(v, ikal::DateTime::Local(_)) == utc, "floating and local confused");
            sx::check(same(v.naive(), x.y, x.m, x.d, x.h, x.i, x.sec), "another date-time than written");
        }
        Err(_) => {
            sx::cover("date-time rejected");
            sx::check(!x.valid, "rejected a valid date-time");
        }
    }
}
/// Fifteen arbitrary characters as a floating date-time.
pub fn floating() {
    let (d, t) = if sx::choice(2, "part") == 0 { (true, false) } else { (false, true) };
    from_str(text(d, t, false), false);
}
/// The same with a final Z, in a zone without clock changes.
pub fn local() {
    let (d, t) = if sx::choice(2, "part") == 0 { (true, false) } else { (false, true) };
    from_str(text(d, t, true), true);
}
fn start(s: &str) -> ikal::Result<ikal::Date> {
    let mut b = String::from("UID:u\r\nDTSTAMP:20240101T000000\r\nDTSTART:");
    b.push_str(s);
    b.push_str("\r\n");
    t::wrap("VEVENT", &b).parse::<ikal::VEvent>().map(|e| e.dtstart)
}
/// A date, a floating and a UTC time as DTSTART of an event.
pub fn event() {
    let kind = sx::choice(3, "kind");
    let part = sx::choice(2, "part");
    if kind == 0 {
        let s = sx::ascii_n(8, "date");
        for x in s.bytes() {
            sx::assume((x >= 0x20) & (x != 0x7f));
        }
        let b = s.as_bytes();
        let (y, m, d) = (num(&b[..4]), num(&b[4..6]), num(&b[6..]));
        let mut valid = true;
        for x in b {
            valid &= x.is_ascii_digit();
        }
        let valid = valid && (m >= 1) & (m <= 12) & (d >= 1) & (d <= t::month_len(y as i64, m as i64) as u64);
        match start(&s) {
            Ok(ikal::Date::Date(x)) => {
                sx::cover("event date");
                sx::check(valid & is(x, y, m, d), "event: wrong date");
            }
            Ok(_) => sx::check(false, "event: a bare date became a date-time"),
            Err(_) => sx::check(!valid, "event: rejected a valid date"),
        }
        return;
    }
    let x = text(part == 0, part == 1, kind == 2);
    for b in x.s.bytes() {
        sx::assume((b >= 0x20) & (b != 0x7f));
    }
    match start(&x.s) {
        Ok(ikal::Date::DateTime(ikal::DateTime::Naive(n))) => {
            sx::cover("event floating");
            sx::check(kind == 1, "event: a UTC time lost its zone");
            sx::check(x.valid && same(n, x.y, x.m, x.d, x.h, x.i, x.sec), "event: wrong floating time");
        }
        Ok(ikal::Date::DateTime(ikal::DateTime::Local(l))) => {
            sx::cover("event utc");
            sx::check(kind == 2, "event: a floating time got a zone");
            sx::check(x.valid && same(l.naive_utc(), x.y, x.m, x.d, x.h, x.i, x.sec), "event: another instant than written");
        }
        Ok(_) => sx::check(false, "event: a date-time became a bare date"),
        Err(_) => {
            sx::cover("event rejected");
            sx::check(!x.valid, "event: rejected a valid time");
        }
    }
}
/// UTC times of 2024 in the local zone of the run (with clock changes): the instant is kept.
pub fn event_zone() {
    let md = ["0331", "1027", "0701", "0101", "0310", "1103", "1231", "0229"][sx::choice(t::param("DAYS", 3), "day")];
    let ((a, h), (b, i), (c, v)) = (t::digits(2, "hour"), t::digits(2, "minute"), t::digits(2, "second"));
    let hms = t::cat(&[&a, &b, &c]);
    sx::assume((h < 24) & (i < 60) & (v < 60));
    let s = t::cat(&["2024", md, "T", &hms, "Z"]);
    let b = s.as_bytes();
    let (m, d) = (num(&b[4..6]), num(&b[6..8]));
    match start(&s) {
        Ok(ikal::Date::DateTime(ikal::DateTime::Local(l))) => {
            sx::cover("zone");
            sx::check(same(l.naive_utc(), 2024, m, d, h, i, v), "zone: another instant than written");
        }
        _ => sx::check(false, "zone: no local time"),
    }
}
/// What `s` says: year, month, day, and hour, minute, second, and whether it is UTC.
fn read(s: &[u8]) -> Option<([u64; 6], usize)> {
    let n = s.len();
    if n != 8 && n != 15 && n != 16 {
        return None;
    }
    let mut ok = true;
    for (i, b) in s.iter().enumerate() {
        ok &= match i {
            8 => *b == b'T',
            15 => *b == b'Z',
            _ => b.is_ascii_digit(),
        };
    }
    if !ok {
        return None;
    }
    let mut r = [num(&s[..4]), num(&s[4..6]), num(&s[6..8]), 0, 0, 0];
    if n > 8 {
        r[3] = num(&s[9..11]);
        r[4] = num(&s[11..13]);
        r[5] = num(&s[13..15]);
    }
    let [y, m, d, h, i, s] = r;
    let valid = (m >= 1) & (m <= 12) & (d >= 1) & (d <= t::month_len(y as i64, m as i64) as u64) & (h < 24) & (i < 60) & (s <= 60);
    if valid { Some((r, [0, 1, 2][(n > 8) as usize + (n > 15) as usize])) } else { None }
}
fn matches(d: &ikal::Date, want: &([u64; 6], usize)) -> bool {
    let ([y, m, dd, h, i, s], k) = want;
    match d {
        ikal::Date::Date(x) => *k == 0 && is(*x, *y, *m, *dd),
        ikal::Date::DateTime(ikal::DateTime::Naive(x)) => *k == 1 && same(*x, *y, *m, *dd, *h, *i, *s),
        ikal::Date::DateTime(ikal::DateTime::Local(x)) => *k == 2 && same(x.naive_utc(), *y, *m, *dd, *h, *i, *s),
    }
}
/// A date, a floating and a UTC time with characters put in, replaced or taken away anywhere.
pub fn changed() {
    let base = ["20240229", "20240229T123456", "20240229T123456Z"][sx::choice(3, "base")];
    let how = sx::choice(4, "how");
    let at = sx::choice(base.len() as u64 + 1, "where");
    let c = match how {
        0 => sx::unicode_n(t::param("N", 1) as usize, "put in"),
        1 | 2 => sx::unicode_n(1, "replaced by"),
        _ => String::new(),
    };
    for b in c.bytes() {
        sx::assume((b != b'\r') & (b != b'\n'));
    }
    let end = (at + [0, 1, 2, 1][how]).min(base.len());
    let s = t::cat(&[&base[..at], &c, &base[end..]]);
    let want = read(s.as_bytes());
    let got = match sx::choice(3, "through") {
        0 => s.parse::<ikal::Date>(),
        1 => {
            // a date is no date-time
            if want.as_ref().is_some_and(|w| w.1 == 0) {
                return;
            }
            s.parse::<ikal::DateTime>().map(Into::into)
        }
        _ => start(&s),
    };
    match (got, want) {
        (Ok(d), Some(w)) => {
            sx::cover("changed accepted");
            sx::check(matches(&d, &w), "changed: another date than written")
        }
        (Ok(_), None) => sx::check(false, "changed: accepted a malformed date"),
        (Err(_), Some(_)) => sx::check(false, "changed: rejected a valid date"),
        (Err(_), None) => sx::cover("changed rejected"),
    }
}
/// One date of a list, or one end of a period, with a character put in, replaced or taken away,
/// or empty: the list is accepted exactly when that date is.
pub fn lists() {
    let base = ["20240229", "20240229T123456", "20240229T123456Z", ""][sx::choice(4, "base")];
    let how = sx::choice(3, "how");
    let at = sx::choice(base.len() as u64 + 1, "where");
    let c = if how < 2 { sx::ascii_n(1, "character") } else { String::new() };
    for b in c.bytes() {
        sx::assume((b != b'\r') & (b != b'\n'));
    }
    let end = (at + [0, 1, 1][how]).min(base.len());
    let s = t::cat(&[&base[..at], &c, &base[end..]]);
    // a comma or slash makes two of it, none of which is a date
    let want = read(s.as_bytes());
    let place = sx::choice(3, "place");
    let is = |d: &ikal::Date| want.as_ref().is_some_and(|w| matches(d, w));
    let all = |other: &str| {
        let mut l = [other; 3];
        l[place] = &s;
        l.join(",")
    };
    let (a, b) = ("20240102T000000/", "/PT1H");
    let what = sx::choice(7, "list");
    let period = |s: &str| match what {
        4 => t::cat(&[s, b]),
        _ => t::cat(&[a, s]),
    };
    let (x, y) = ("20240101", "20240102T000000");
    let periods = || {
        let mut l = [period(y), period(y), period(y)];
        l[place] = period(&s);
        l.join(",")
    };
    let event = |name: &str, s: &str| t::vevent(&t::cat(&[name, s, "\r\n"])).parse::<ikal::VEvent>();
    let is_time = want.as_ref().is_some_and(|w| w.1 > 0);
    let ends = |p: &[ikal::Period]| p.len() == 3 && match &p[place] {
        ikal::Period::StartEnd(p) => is(&p.end.into()),
        ikal::Period::StartDur(p) => is(&p.start.into()),
    };
    // an end may be a length as well
    sx::assume(what != 5 && what != 6 || !s.starts_with(['P', '+', '-']));
    let got: Option<bool> = match what {
        0 => event("EXDATE:", &all(x)).ok().map(|e| e.exdate.len() == 3 && is(&e.exdate[place])),
        1 => t::wrap("VTODO", &t::cat(&["UID:u\r\nDTSTAMP:20240101T000000\r\nEXDATE:", &all(y), "\r\n"])).parse::<ikal::VTodo>().ok()
            .map(|e| e.exdate.len() == 3 && is(&e.exdate[place])),
        2 | 3 => event("RDATE:", &all(if what == 2 { x } else { y })).ok().map(|e| match &e.rdate[..] {
            [ikal::RDate::Date(l)] => l.len() == 3 && is(&l[place]),
            _ => false,
        }),
        4 | 5 => event("RDATE;VALUE=PERIOD:", &periods()).ok().map(|e| match &e.rdate[..] {
            [ikal::RDate::Period(l)] => ends(l),
            _ => false,
        }),
        _ => t::wrap("VFREEBUSY", &t::cat(&["UID:u\r\nDTSTAMP:20240101T000000\r\nFREEBUSY:", &periods(), "\r\n"])).parse::<ikal::VFreebusy>().ok().map(|e| ends(&e.freebusy)),
    };
    let valid = if what < 4 { want.is_some() } else { is_time };
    sx::cover(if valid { "list accepted" } else { "list rejected" });
    match got {
        Some(same) if valid => sx::check(same, "list: another date than written"),
        Some(_) => sx::check(false, "list: accepted a malformed date"),
        None => sx::check(!valid, "list: rejected a valid date"),
    }
}
