//! C07: durations.
use crate::{sx, t};
use chrono::TimeDelta;

const UNIT: [(char, u64); 5] = [('W', 604_800), ('D', 86_400), ('H', 3600), ('M', 60), ('S', 1)];
/// The largest whole number of seconds a duration can hold.
const MAX: u64 = i64::MAX as u64 / 1000;

/// The duration that reaches the library through entry point `way`.
fn read(way: usize, s: &str) -> Option<TimeDelta> {
    match way {
        0 => t::vevent(&t::cat(&["DURATION:", s, "\r\n"])).parse::<ikal::VEvent>().ok().map(|e| e.duration.unwrap()),
        1 => t::wrap("VALARM", &t::cat(&["ACTION:AUDIO\r\nTRIGGER:", s, "\r\n"])).parse::<ikal::VAlarm>().ok().map(|a| match a {
            ikal::VAlarm::Audio(ikal::valarm::Audio { trigger: ikal::Trigger::Duration(d), .. }) => d,
            _ => TimeDelta::MAX,
        }),
        2 => t::cat(&["20240101T000000/", s]).parse::<ikal::Period>().ok().map(|p| p.duration()),
        3 => s.parse::<ikal::Trigger>().ok().map(|x| match x {
            ikal::Trigger::Duration(d) => d,
            _ => TimeDelta::MAX,
        }),
        4 => ikal::vevent! { duration: s }.ok().map(|e| e.duration.unwrap()),
        5 => t::wrap("VTODO", &t::cat(&["UID:u\r\nDTSTAMP:20240101T000000\r\nDURATION:", s, "\r\n"])).parse::<ikal::VTodo>().ok().map(|e| e.duration.unwrap()),
        6 => t::wrap("VALARM", &t::cat(&["ACTION:DISPLAY\r\nDESCRIPTION:d\r\nTRIGGER:PT0S\r\nDURATION:", s, "\r\n"])).parse::<ikal::VAlarm>().ok().map(|a| match a {
            ikal::VAlarm::Display(a) => a.duration.unwrap(),
            _ => TimeDelta::MAX,
        }),
        7 => t::wrap("VFREEBUSY", &t::cat(&["UID:u\r\nDTSTAMP:20240101T000000\r\nFREEBUSY:20240101T000000/", s, "\r\n"])).parse::<ikal::VFreebusy>().ok().map(|e| e.freebusy[0].duration()),
        8 => t::vevent(&t::cat(&["RDATE;VALUE=PERIOD:20240101T000000/", s, "\r\n"])).parse::<ikal::VEvent>().ok().map(|e| match &e.rdate[0] {
            ikal::RDate::Period(p) => p[0].duration(),
            _ => TimeDelta::MAX,
        }),
        _ => ikal::valarm! { @audio, trigger: s }.ok().map(|a| match a {
            ikal::VAlarm::Audio(ikal::valarm::Audio { trigger: ikal::Trigger::Duration(d), .. }) => d,
            _ => TimeDelta::MAX,
        }),
    }
}
const WAYS: u64 = 10;
fn judge(way: usize, s: &str, neg: bool, total: u64, fits: bool) {
    match read(way, s) {
        Some(d) => {
            sx::cover("accepted");
            sx::check(fits, "a duration out of range is accepted");
            let want = if neg { -(total as i64) } else { total as i64 };
            sx::check((d.num_seconds() == want) & (d.subsec_nanos() == 0), "another duration than written");
        }
        None => {
            sx::cover("rejected");
            sx::check(!fits, "a duration is rejected");
        }
    }
}
/// Any non-empty set of parts, each with N digits.
pub fn parts() {
    let way = sx::choice(WAYS, "way");
    let sign = ["", "-", "+"][sx::choice(3, "sign")];
    let set = 1 + sx::choice(31, "parts");
    let n = t::param("N", 2) as usize;
    let mut s = t::cat(&[sign, "P"]);
    let mut total = 0;
    let mut time = false;
    for (k, (c, f)) in UNIT.iter().enumerate() {
        if set >> k & 1 == 0 {
            continue;
        }
        if k >= 2 && !time {
            s.push('T');
            time = true;
        }
        let (d, v) = t::digits(n, "digits");
        s.push_str(&d);
        s.push(*c);
        total += v * f;
    }
    judge(way, &s, sign == "-", total, true);
}
/// One part around the largest number of it, perhaps with some seconds.
pub fn limits() {
    let way = sx::choice(WAYS, "way");
    let k = sx::choice(5, "unit");
    let sign = ["", "-"][sx::choice(2, "sign")];
    let (c, f) = UNIT[k];
    let prefix = [["1525028", "10675199", "256204778", "15372286728", "922337203685"][k], ["9999999999999", "99999999999999", "99999999999999", "9999999999999999", "9999999999999999"][k], ["9223372036854775", "922337203685477", "922337203685477580", "922337203685477580", "922337203685477580"][k]][sx::choice(3, "prefix")];
    let base: u128 = prefix.parse().unwrap();
    let (d, v) = t::digits(if prefix.len() == 18 { 1 } else { 3 }, "digits");
    let n = base * (if prefix.len() == 18 { 10 } else { 1000 }) + v as u128;
    let more = sx::choice(2, "more") == 1 && k < 4;
    let mut s = t::cat(&[sign, "P", if k >= 2 { "T" } else { "" }, prefix, &d]);
    s.push(c);
    let mut total = n * f as u128;
    if more {
        let (d, v) = t::digits(5, "seconds");
        if k < 2 {
            s.push('T');
        }
        s.push_str(&d);
        s.push('S');
        total += v as u128;
    }
    judge(way, &s, sign == "-", total as u64, total <= MAX as u128);
}
/// What is no duration is rejected by every entry point.
pub fn malformed() {
    let way = sx::choice(WAYS, "way");
    let s = match sx::choice(6, "shape") {
        0 => t::cat(&["PT", &t::digits(2, "digits").0]),
        1 => t::digits(2, "digits").0,
        2 => t::cat(&["P", &t::digits(2, "digits").0, "H"]),
        3 => t::cat(&["PT", &t::digits(2, "digits").0, "S", &t::digits(1, "digits").0]),
        4 => t::cat(&["P", &t::digits(2, "digits").0, "X"]),
        _ => t::cat(&["PT5M", " "]),
    };
    sx::check(read(way, &s).is_none(), "accepted what is no duration");
    sx::cover("malformed");
}
