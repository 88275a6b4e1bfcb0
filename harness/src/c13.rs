//! C13: typed values are read back as they were written.
use crate::{rec, sx, t};
use ikal::period::{StartDur, StartEnd};
use ikal::ser::Serialize;
use ikal::{Class, Date, DateTime, Freq, Period, RDate, Recur, RequestStatus, Status, TimeTransparency, Trigger, Uri, VEvent, Weekday, WeekdayNum};

/// The text of `x` read again.
fn again<T: Serialize + PartialEq + std::str::FromStr>(x: &T) {
    let Ok(s) = x.ical() else { return sx::check(false, "a value cannot be written") };
    match s.parse::<T>() {
        Ok(y) => sx::check(*x == y, "another value is read back"),
        Err(_) => sx::check(false, "a written value is rejected"),
    }
}
/// The component of `x` read again.
fn inside<T: Serialize + PartialEq + std::str::FromStr>(x: &T) {
    let Ok(s) = ikal::ser::ical(x) else { return sx::check(false, "a component cannot be written") };
    match s.parse::<T>() {
        Ok(y) => sx::check(*x == y, "another value is read back in a component"),
        Err(_) => sx::check(false, "a written component is rejected"),
    }
}
fn event(f: impl FnOnce(&mut VEvent)) {
    let mut e = VEvent { uid: "u".into(), ..Default::default() };
    f(&mut e);
    inside(&e)
}
fn length(name: &str) -> chrono::TimeDelta {
    let n = t::param("LENGTH", 9999) as i64;
    chrono::TimeDelta::seconds(sx::range(-n, n, name))
}
fn moment() -> DateTime {
    DateTime::Naive(rec::naive(rec::with_second(rec::days(2, 2))))
}
/// Dates and floating times.
pub fn dates() {
    let c = rec::days(3, 6);
    if sx::choice(2, "kind") == 0 {
        let d = Date::Date(rec::naive_date(c));
        sx::cover("date");
        again(&d);
        match sx::choice(4, "place") {
            0 => event(|e| e.dtstart = d),
            1 => event(|e| e.exdate = vec![d.clone(), d.clone()]),
            2 => event(|e| e.rdate = vec![RDate::Date(vec![d])]),
            _ => inside(&ikal::VTodo { due: Some(d), ..Default::default() }),
        }
    } else {
        let x = DateTime::Naive(rec::naive(rec::with_second(c)));
        sx::cover("time");
        again(&x);
        let d = Date::DateTime(x);
        again(&d);
        match sx::choice(4, "place") {
            0 => event(|e| e.dtstart = d),
            1 => event(|e| e.exdate = vec![d.clone(), d.clone()]),
            2 => event(|e| e.rdate = vec![RDate::Date(vec![d])]),
            _ => event(|e| e.created = Some(x)),
        }
    }
}
/// Durations and triggers.
pub fn durations() {
    let d = length("seconds") + chrono::TimeDelta::seconds([0, 1_000_000_000, -1_000_000_000_000][sx::choice(3, "base")]);
    sx::cover("duration");
    match sx::choice(5, "place") {
        0 => match d.ical().map(|s| ikal::parse_duration(&s)) {
            Ok(Ok(x)) => sx::check(x == d, "another value is read back"),
            _ => sx::check(false, "a written value is rejected"),
        },
        1 => event(|e| e.duration = Some(d)),
        2 => again(&Trigger::Duration(d)),
        3 => {
            let mut a = ikal::valarm::Audio::new();
            a.trigger = Trigger::Duration(d);
            a.duration = Some(d);
            inside(&ikal::VAlarm::from(a))
        }
        _ => again(&Period::StartDur(StartDur { start: DateTime::default(), duration: d })),
    }
}
/// Triggers at a time, and periods.
pub fn periods() {
    let x = moment();
    sx::cover("period");
    match sx::choice(6, "kind") {
        0 => again(&Trigger::DateTime(x)),
        1 => {
            let mut a = ikal::valarm::Email::new();
            a.trigger = Trigger::DateTime(x);
            inside(&ikal::VAlarm::from(a))
        }
        2 => again(&Period::StartEnd(StartEnd { start: x, end: moment() })),
        3 => {
            let p = Period::StartEnd(StartEnd { start: DateTime::default(), end: x });
            inside(&ikal::VFreebusy { freebusy: vec![p.clone(), p], ..Default::default() })
        }
        4 => again(&Period::StartDur(StartDur { start: x, duration: -chrono::TimeDelta::seconds(sx::range(0, 99, "s")) })),
        _ => {
            let p = Period::StartDur(StartDur { start: x, duration: chrono::TimeDelta::hours(25) });
            event(|e| e.rdate = vec![RDate::Period(vec![p.clone(), p])])
        }
    }
}
/// Whole minutes away from UTC.
pub fn offsets() {
    let m = sx::range(-1439, 1439, "minutes") as i32;
    let o = chrono::FixedOffset::east_opt(m * 60).unwrap();
    let p = chrono::FixedOffset::east_opt(-m * 60).unwrap();
    sx::cover("offset");
    if sx::choice(2, "which") == 0 {
        inside(&ikal::vtimezone::Standard { tzoffsetto: o, tzoffsetfrom: p, ..Default::default() })
    } else {
        inside(&ikal::vtimezone::Daylight { tzoffsetto: o, tzoffsetfrom: p, ..Default::default() })
    }
}
const DAYS: [Weekday; 7] = [Weekday::Sunday, Weekday::Monday, Weekday::Tuesday, Weekday::Wenesday, Weekday::Thurday, Weekday::Friday, Weekday::Saturday];
fn byte(name: &str) -> i8 {
    sx::int(8, name) as i8
}
fn weekday_num() -> WeekdayNum {
    let weekday = DAYS[sx::choice(7, "weekday")].clone();
    let ord = if sx::choice(2, "ordinal") == 0 { None } else { Some(byte("ord")) };
    WeekdayNum { weekday, ord }
}
/// Frequencies, weekdays and the other enumerations.
pub fn enums() {
    sx::cover("enumeration");
    match sx::choice(6, "type") {
        0 => again(&rec::FREQS[sx::choice(7, "freq")]),
        1 => again(&weekday_num()),
        2 => again(&DAYS[sx::choice(7, "weekday")]),
        3 => {
            use Status::*;
            let s = [Tentative, Confirmed, Cancelled, NeedsAction, Completed, InProcess, Draft, Final][sx::choice(8, "status")].clone();
            again(&s);
            event(|e| e.status = Some(s))
        }
        4 => {
            let c = [Class::Public, Class::Private, Class::Confidential][sx::choice(3, "class")].clone();
            again(&c);
            event(|e| e.class = Some(c))
        }
        _ => {
            let t = if sx::choice(2, "transp") == 0 { TimeTransparency::Opaque } else { TimeTransparency::Transparent };
            again(&t);
            event(|e| e.transp = Some(t))
        }
    }
}
fn rule_trip(r: Recur) {
    if sx::choice(2, "place") == 0 { again(&r) } else { event(|e| e.rrule = Some(r)) }
}
/// Rules: counts, intervals, ends.
pub fn rules() {
    let mut r = Recur { freq: rec::FREQS[sx::choice(7, "freq")].clone(), ..Default::default() };
    sx::cover("rule");
    match sx::choice(4, "which") {
        0 => r.count = Some(sx::int(8, "count") as u8),
        1 => {
            r.interval = sx::int(8, "interval") as u8;
            r.wkst = Some(DAYS[sx::choice(7, "weekday")].clone());
        }
        2 => {
            let c = rec::days(1, 2);
            r.until = Some(Date::Date(rec::naive_date(c)));
            r.count = Some(3);
        }
        _ => {
            let c = rec::with_second(rec::days(1, 2));
            r.until = Some(Date::DateTime(DateTime::Naive(rec::naive(c))));
            r.interval = 2;
        }
    }
    rule_trip(r)
}
fn list(r: &mut Recur, k: usize) -> &mut Vec<i8> {
    match k {
        0 => &mut r.by_second,
        1 => &mut r.by_minute,
        2 => &mut r.by_hour,
        3 => &mut r.by_monthday,
        4 => &mut r.by_yearday,
        5 => &mut r.by_weekno,
        6 => &mut r.by_month,
        _ => &mut r.by_setpos,
    }
}
/// Rules: lists of arbitrary numbers and weekdays.
pub fn lists() {
    let mut r = Recur { freq: Freq::Monthly, interval: 1, ..Default::default() };
    sx::cover("list");
    let n = sx::choice(t::param("N", 2), "n") + 1;
    let k = sx::choice(9, "part");
    if k == 8 {
        for _ in 0..n {
            r.by_day.push(weekday_num());
        }
    } else {
        for j in 0..8 {
            if j % 4 == k % 4 && j != k {
                *list(&mut r, j) = vec![j as i8, -1];
            }
        }
        for _ in 0..n {
            let b = byte("element");
            list(&mut r, k).push(b);
        }
    }
    rule_trip(r)
}
/// Addresses.
pub fn uris() {
    let s = sx::unicode_n(sx::choice(t::param("N", 3) + 1, "n"), "uri");
    for b in s.bytes() {
        sx::assume((b != b'\r') & (b != b'\n'));
    }
    let u = Uri::from(t::cat(&[["", "mailto:"][sx::choice(2, "scheme")], &s]).as_str());
    sx::cover("address");
    if let Ok(s) = u.ical() {
        match Uri::try_from(s.as_str()) {
            Ok(x) => sx::check(x == u, "another value is read back"),
            Err(_) => sx::check(false, "a written value is rejected"),
        }
    }
    match sx::choice(2, "place") {
        0 => event(|e| e.url = Some(u)),
        _ => event(|e| e.attendee = vec![u.clone(), "x".into(), u]),
    }
}
/// Request statuses: codes, and texts without escapes.
pub fn statuses() {
    let k = sx::choice(2, "what");
    let text = |name: &str| {
        let s = sx::unicode_n(t::param("N", 2) as usize, name);
        for b in s.bytes() {
            sx::assume((b != b'\r') & (b != b'\n') & (b != b'\\') & (b != b';') & (b != b','));
        }
        s
    };
    sx::cover("status");
    let r = if k == 0 {
        let code = sx::range(0, t::param("CODES", 599) as i64, "code") as f32;
        RequestStatus { statcode: code / [10., 100.][sx::choice(2, "unit")], statdesc: "x".into(), extdata: None }
    } else {
        RequestStatus { statcode: 3.1, statdesc: text("description"), extdata: if sx::choice(2, "data") == 0 { None } else { Some(text("data")) } }
    };
    again(&r);
    event(|e| e.rstatus = vec![r.clone(), r]);
}
/// Numbers.
pub fn numbers() {
    sx::cover("number");
    // up to nine digits, and the ones at the ends of the range
    let wide = |name: &str| match sx::choice(2, "size") {
        0 => sx::range(0, t::param("WIDE", 99_999) as i64, name) as u32,
        _ => u32::MAX - 2000 + sx::range(0, 2000, name) as u32 - [0, 1 << 31][sx::choice(2, "end")],
    };
    match sx::choice(6, "property") {
        0 => {
            let x = wide("sequence");
            event(|e| e.sequence = Some(x))
        }
        1 => {
            let x = wide("sequence");
            inside(&ikal::VTodo { uid: "u".into(), sequence: Some(x), ..Default::default() })
        }
        2 => {
            let x = wide("sequence");
            inside(&ikal::VJournal { uid: "u".into(), sequence: Some(x), ..Default::default() })
        }
        3 => {
            let x = wide("repeat");
            inside(&ikal::VAlarm::from(ikal::valarm::Audio { repeat: Some(x), ..Default::default() }))
        }
        4 => {
            let x = sx::range(0, 9, "priority") as u8;
            if sx::flag("todo") {
                inside(&ikal::VTodo { uid: "u".into(), priority: Some(x), ..Default::default() })
            } else {
                event(|e| e.priority = Some(x))
            }
        }
        _ => {
            let x = sx::int(8, "percent") as u8;
            inside(&ikal::VTodo { uid: "u".into(), percent_complete: Some(x), ..Default::default() })
        }
    }
}
/// Days and times of any year of four digits.
pub fn years() {
    let y = [0, 1, 9, 10, 99, 100, 476, 999, 1000, 1582, 1899, 1900, 2000, 2100, 2400, 9998, 9999][sx::choice(17, "year")];
    let d = chrono::NaiveDate::from_ymd_opt(y, [1, 2, 12][sx::choice(3, "month")], sx::range(1, 28, "day") as u32).unwrap();
    sx::cover("year");
    let d = match sx::choice(2, "kind") {
        0 => Date::Date(d),
        _ => Date::DateTime(DateTime::Naive(d.and_hms_opt(0, 0, sx::range(0, 59, "second") as u32).unwrap())),
    };
    again(&d);
    match sx::choice(5, "place") {
        0 => event(|e| e.dtstart = d),
        1 => event(|e| e.exdate = vec![d, d]),
        2 => event(|e| e.rdate = vec![RDate::Date(vec![d])]),
        3 => event(|e| e.rrule = Some(Recur { interval: 1, until: Some(d), ..Default::default() })),
        _ => {
            let x = DateTime::from(d);
            again(&x);
            event(|e| e.created = Some(x));
            again(&Period::StartEnd(StartEnd { start: x, end: x }));
        }
    }
}
/// Places.
pub fn places() {
    let one = |name: &str| {
        let n = [0, 1, 5, 10, 33, 123, 1234, 12345, 123_456, 1_234_567, 9_999_999, 16_777_215][sx::choice(12, name)] as f32;
        n / [1., 10., 1000., 100_000., 1e7][sx::choice(5, "unit")] * [1., -1.][sx::choice(2, "sign")]
    };
    let g = if sx::flag("latitude") { ikal::Geo { lat: one("lat"), lon: 0.1 } } else { ikal::Geo { lat: -37.386_013, lon: one("lon") } };
    sx::cover("place");
    again(&g);
    if sx::flag("todo") {
        inside(&ikal::VTodo { uid: "u".into(), geo: Some(g), ..Default::default() })
    } else {
        event(|e| e.geo = Some(g))
    }
}
/// Long lengths.
pub fn long() {
    let s = [59, 60, 3599, 3600, 86_399, 86_400, 604_800, 31_622_400, 999_999_999, i32::MAX as i64, i32::MAX as i64 + 1, u32::MAX as i64, 86_400_000_000, 999_999_999_999_999][sx::choice(14, "length")];
    let d = chrono::TimeDelta::seconds((s + sx::choice(2, "more") as i64) * [1, -1][sx::choice(2, "sign")]);
    sx::cover("length");
    match sx::choice(4, "place") {
        0 => again(&Trigger::Duration(d)),
        1 => event(|e| e.duration = Some(d)),
        2 => inside(&ikal::VAlarm::from(ikal::valarm::Audio { trigger: Trigger::Duration(d), duration: Some(d), ..Default::default() })),
        _ => {
            let p = Period::StartDur(StartDur { start: DateTime::default(), duration: d });
            again(&p);
            inside(&ikal::VFreebusy { freebusy: vec![p.clone()], ..Default::default() });
            event(|e| e.rdate = vec![RDate::Period(vec![p])])
        }
    }
}
