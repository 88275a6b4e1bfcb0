//! C28: positions and request statuses.
use crate::{sx, t};
use ikal::{Geo, RequestStatus};

/// The forms of RFC 5545: digits, perhaps with a sign, a point and digits.
fn number(s: &str) -> bool {
    let b = s.as_bytes();
    let b = if let [b'+' | b'-', r @ ..] = b { r } else { b };
    let n = b.iter().take_while(|c| c.is_ascii_digit()).count();
    let rest = &b[n..];
    n > 0 && (rest.is_empty() || rest[0] == b'.' && rest.len() > 1 && rest[1..].iter().all(u8::is_ascii_digit))
}
/// Whether a number that is `s` can be `x`: Some(must).
fn half(s: &str) -> (bool, Option<f32>) {
    (number(s), s.parse().ok())
}
fn geo(way: usize, s: &str) -> Option<Geo> {
    let line = || t::cat(&["GEO:", s, "\r\n"]);
    match way {
        0 => s.parse().ok(),
        1 => t::vevent(&line()).parse::<ikal::VEvent>().ok().map(|e| e.geo.unwrap()),
        2 => t::wrap("VTODO", &t::cat(&["UID:u\r\nDTSTAMP:20240101T000000\r\n", &line()])).parse::<ikal::VTodo>().ok().map(|e| e.geo.unwrap()),
        _ => ikal::vevent! { geo: s }.ok().map(|e| e.geo.unwrap()),
    }
}
fn same(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()
}
fn judge_geo(way: usize, s: &str) {
    let got = geo(way, s);
    match &got {
        Some(_) => sx::cover("accepted"),
        None => sx::cover("rejected"),
    }
    let Some((a, b)) = s.split_once(';') else { return sx::check(got.is_none(), "a position without ';' is accepted") };
    let ((m, x), (n, y)) = (half(a), half(b));
    match (got, x, y) {
        (Some(g), Some(x), Some(y)) => sx::check(same(g.lat, x) && same(g.lon, y), "another position than written"),
        (Some(_), ..) => sx::check(false, "what is no position is accepted"),
        (None, ..) => sx::check(!m || !n, "a position is rejected"),
    }
}
/// A position with any characters put in, instead of others, or taken away.
pub fn positions() {
    let way = sx::choice(4, "way");
    let base = ["37.5;-122.25", "0;0", "-9;+180.0"][sx::choice(3, "text")];
    let i = sx::choice(base.len() as u64 + 1, "place");
    let more = sx::ascii(t::param("N", 1), "more");
    sx::assume(!more.contains(['\r', '\n']));
    let skip = sx::choice(2, "skip").min(base.len() - i);
    judge_geo(way, &t::cat(&[&base[..i], &more, &base[i + skip..]]))
}
/// Any digits.
pub fn digits() {
    let way = sx::choice(4, "way");
    let sign = |name: &str| ["", "-", "+"][sx::choice(3, name)];
    let (a, b) = (t::digits(1, "degrees").0, t::digits(1, "part").0);
    let x = t::cat(&[sign("sign"), &a, ".", &b]);
    let y = [t::cat(&[sign("other sign"), "12.5"]), "-0".into(), "180".into()][sx::choice(3, "other")].clone();
    let s = if sx::flag("first") { t::cat(&[&x, ";", &y]) } else { t::cat(&[&y, ";", &x]) };
    judge_geo(way, &s)
}
const STATUS: u64 = 6;
fn status(way: usize, s: &str) -> Option<RequestStatus> {
    let lines = || t::cat(&["REQUEST-STATUS:1.5;first\r\nREQUEST-STATUS:", s, "\r\n"]);
    let with = |name: &str| t::wrap(name, &t::cat(&[t::EV, &lines()]));
    let two = |l: Vec<RequestStatus>| {
        sx::check(l.len() == 2 && l[0].statdesc == "first" && l[0].extdata.is_none() && l[0].statcode == 1.5, "another status changes");
        l.into_iter().nth(1)
    };
    match way {
        0 => s.parse().ok(),
        1 => t::vevent(&lines()).parse::<ikal::VEvent>().ok().and_then(|e| two(e.rstatus)),
        2 => with("VTODO").parse::<ikal::VTodo>().ok().and_then(|e| two(e.rstatus)),
        3 => with("VJOURNAL").parse::<ikal::VJournal>().ok().and_then(|e| two(e.rstatus)),
        4 => with("VFREEBUSY").parse::<ikal::VFreebusy>().ok().and_then(|e| two(e.rstatus)),
        _ => RequestStatus::try_from(s).ok(),
    }
}
/// A code of up to three levels.
fn code(s: &str) -> usize {
    let mut n = 0;
    for p in s.split('.') {
        if p.is_empty() || !p.bytes().all(|c| c.is_ascii_digit()) {
            return 0;
        }
        n += 1;
    }
    n
}
fn judge(way: usize, s: &str) {
    let got = status(way, s);
    match &got {
        Some(_) => sx::cover("accepted"),
        None => sx::cover("rejected"),
    }
    let Some((a, rest)) = s.split_once(';') else { return sx::check(got.is_none(), "a status without ';' is accepted") };
    // the description ends before the first ';' that has no backslash
    let b = rest.as_bytes();
    let mut i = 0;
    while i < b.len() && b[i] != b';' {
        i += if b[i] == b'\\' { 2 } else { 1 };
    }
    let (desc, data) = if i < b.len() { (&rest[..i], Some(&rest[i + 1..])) } else { (rest, None) };
    match got {
        Some(x) => {
            let c = a.parse::<f32>();
            sx::check(c.is_ok(), "what is no status is accepted");
            sx::check(c.is_ok_and(|c| same(c, x.statcode)), "another code than written");
            sx::check(x.statdesc == desc, "another description than written");
            sx::check(x.extdata.as_deref() == data, "other data than written");
        }
        None => match code(a) {
            1 | 2 => sx::check(false, "a status is rejected"),
            3 => sx::kf(false, "status-levels"),
            _ => (),
        },
    }
}
/// Any characters as description and data.
pub fn statuses() {
    let way = sx::choice(STATUS, "way");
    let n = t::param("N", 3) as usize;
    let x = sx::unicode_n(n, "text");
    sx::assume(!x.contains(['\r', '\n']));
    let s = match sx::choice(4, "place") {
        0 => t::cat(&["2.0;", &x]),
        1 => t::cat(&["3.7;a", &x, "b;c\\;d"]),
        2 => t::cat(&["4;a\\,b;", &x]),
        _ => t::cat(&["2.8;", &x, ";c"]),
    };
    judge(way, &s)
}
/// Any characters in the code.
pub fn codes() {
    let way = sx::choice(STATUS, "way");
    let x = sx::ascii(t::param("M", 2), "code");
    sx::assume(!x.contains(['\r', '\n']));
    let s = match sx::choice(4, "place") {
        0 => t::cat(&[&x, ";d"]),
        1 => t::cat(&["2.", &x, ";d;e"]),
        2 => t::cat(&["3.1", &x, "d;e"]),
        _ => t::cat(&["3.1.", &x, ";d"]),
    };
    judge(way, &s)
}
fn period(way: usize, s: &str) -> Option<ikal::Period> {
    const P: &str = "20240301T000000/PT1H";
    let first: fn(Vec<ikal::Period>, usize) -> Option<ikal::Period> = |l, n| {
        sx::check(l.len() == n, "another number of periods");
        sx::check(n == 1 || Some(&l[0]) == P.parse().ok().as_ref(), "another period changes");
        l.into_iter().last()
    };
    let rdate = |body: &str, n: usize| match t::vevent(body).parse::<ikal::VEvent>().ok()?.rdate.into_iter().next()? {
        ikal::RDate::Period(l) => first(l, n),
        ikal::RDate::Date(_) => {
            sx::check(false, "a list of periods becomes one of dates");
            None
        }
    };
    let busy = |body: &str, n: usize| t::wrap("VFREEBUSY", &t::cat(&[t::EV, body])).parse::<ikal::VFreebusy>().ok().and_then(|f| first(f.freebusy, n));
    match way {
        0 => s.parse().ok(),
        1 => busy(&t::cat(&["FREEBUSY:", s, "\r\n"]), 1),
        2 => busy(&t::cat(&["FREEBUSY;FBTYPE=BUSY:", P, ",", s, "\r\n"]), 2),
        3 => rdate(&t::cat(&["RDATE;VALUE=PERIOD:", s, "\r\n"]), 1),
        _ => rdate(&t::cat(&["RDATE;VALUE=PERIOD:", P, ",", s, "\r\n"]), 2),
    }
}
/// A period with any characters put in, instead of others, or taken away.
pub fn periods() {
    let way = sx::choice(5, "way");
    let base = ["20240101T000000/20240102T003000", "20240101T000000/PT5M", "20240101T000000/-P1D", "20240101T000000/+P1W"][sx::choice(4, "text")];
    let i = sx::choice(base.len() as u64 + 1, "place");
    let more = sx::ascii(t::param("N", 1), "more");
    sx::assume(!more.contains(['\r', '\n', ',']));
    let skip = sx::choice(2, "skip").min(base.len() - i);
    let s = t::cat(&[&base[..i], &more, &base[i + skip..]]);
    let got = period(way, &s);
    match &got {
        Some(_) => sx::cover("accepted"),
        None => sx::cover("rejected"),
    }
    // the two halves as they are read alone
    let half = |s: &str| s.split_once('/').and_then(|(a, b)| {
        let start = a.parse::<ikal::DateTime>().ok()?;
        if let Ok(end) = b.parse::<ikal::DateTime>() {
            return Some(ikal::Period::StartEnd(ikal::period::StartEnd { start, end }));
        }
        let e = t::vevent(&t::cat(&["DURATION:", b, "\r\n"])).parse::<ikal::VEvent>().ok()?;
        Some(ikal::Period::StartDur(ikal::period::StartDur { start, duration: e.duration? }))
    });
    sx::check(got.is_some() == half(&s).is_some(), "a period is accepted unlike its halves");
    sx::check(got == half(&s), "another period than its halves");
}
