//! C22: conversions and arithmetic.
use crate::rec::*;
use crate::{sx, t};
use ikal::{Date, DateTime, Period};

/// One of the three kinds at an arbitrary second (or day), and the calendar-library time.
fn any() -> (usize, chrono::NaiveDateTime, Date) {
    let k = sx::choice(3, "kind");
    let c = match k {
        0 => days(2, 3),
        1 => {
            let (y, m, d) = [(2024, 2, 28), (2023, 12, 31), (2024, 7, 15), (2023, 2, 28), (2024, 1, 1)][sx::choice(t::param("DAYS", 3), "day")];
            with_second(Civil { y, m, d, s: 0 })
        }
        _ => with_second(changes()),
    };
    let d = start(k, c);
    (k, wall(&d), d)
}
fn changes() -> Civil {
    let md = [(3, 31), (10, 27), (3, 10), (11, 3)][sx::choice(4, "day")];
    Civil { y: 2024, m: md.0, d: md.1, s: 0 }
}
/// Conversions keep the day and the wall-clock time.
pub fn convert() {
    let (k, w, d) = any();
    sx::check(d.date_naive() == w.date(), "date_naive is another day");
    sx::check(chrono::NaiveDate::from(d) == w.date(), "another day as a calendar-library date");
    sx::check(d.has_time() == (k > 0), "has_time");
    let t = DateTime::from(d);
    sx::check(t.naive() == w && t.date_naive() == w.date(), "a date as a date-time is another time");
    sx::check(chrono::NaiveDateTime::from(t) == w, "another time as a calendar-library time");
    sx::check(matches!(t, DateTime::Local(_)) == (k == 2), "floating and local confused by a conversion");
    if k > 0 {
        sx::check(same(&Date::from(t), &d), "a date-time changes when it becomes a date");
    }
    match k {
        0 => sx::check(same(&Date::from(w.date()), &d), "a calendar-library date becomes another date"),
        1 => {
            sx::check(same(&Date::from(w), &d), "a calendar-library time becomes another date");
            sx::check(DateTime::from(w) == t, "a calendar-library time becomes another date-time");
        }
        _ => match chrono::DateTime::<chrono::Local>::try_from(t) {
            Ok(x) => {
                sx::check(x.naive_local() == w && DateTime::Local(x) == t, "a local time changes");
                sx::check(same(&Date::from(x), &d), "a local time becomes another date");
                sx::check(same(&DateTime::from(x).into(), &d), "a local time becomes another date-time");
            }
            Err(_) => sx::check(false, "a local time is rejected"),
        },
    }
    sx::cover("converted");
}
/// A floating time in the local zone: the earliest instant with that wall clock, or an error.
pub fn to_local() {
    let c = changes();
    let (w, r) = if sx::flag("text") {
        // the hours around the changes are the first ones of the day
        let ((h, hv), (m, mv)) = (t::digits(2, "hour"), t::digits(2, "minute"));
        let (x, xv) = [("00", 0), ("59", 59)][sx::choice(2, "seconds")];
        sx::assume((hv < 4) & (mv < 60));
        let w = naive(Civil { s: (hv * 3600 + mv * 60 + xv) as i64, ..c });
        let text = t::cat(&[["20240331T", "20241027T", "20240310T", "20241103T"][[(3, 31), (10, 27), (3, 10), (11, 3)].iter().position(|x| *x == (c.m, c.d)).unwrap()], &h, &m, x, "Z"]);
        match text.parse::<DateTime>() {
            Ok(DateTime::Local(x)) => (w, Ok(x)),
            Ok(_) => {
                sx::check(false, "a text with Z is no local time");
                return;
            }
            Err(e) => (w, Err(e)),
        }
    } else {
        let w = naive(Civil { s: sx::range(0, t::param("SECONDS", 14400) as i64, "second"), ..c });
        (w, chrono::DateTime::<chrono::Local>::try_from(DateTime::Naive(w)))
    };
    match (r, first_instant(w)) {
        (Ok(x), Some(y)) => {
            sx::check(x.naive_local() == w, "another wall-clock time in the local zone");
            sx::check(x.naive_utc() == y.naive_utc(), "not the earliest instant");
            sx::cover("local");
        }
        (Err(_), None) => sx::cover("skipped"),
        (Ok(_), _) => sx::check(false, "a skipped local time is accepted"),
        _ => sx::check(false, "an existing local time is rejected"),
    }
}
/// Adding and subtracting lengths.
pub fn add() {
    let (k, w, d) = any();
    let secs = sx::range(-(t::param("LENGTH", 100_000) as i64), t::param("LENGTH", 100_000) as i64, "length");
    let l = chrono::TimeDelta::seconds(secs);
    if k == 0 {
        let days = [0, 1, -1, 31, -31, 366, -366, 7, -30, 1461][sx::choice(t::param("SPAN", 7), "days")];
        let e = d + chrono::TimeDelta::days(days);
        sx::check(kind(&e) == 0 && wall(&e) == w + chrono::TimeDelta::days(days), "days added to a date");
        sx::check(same(&(e + chrono::TimeDelta::days(-days)), &d), "days added and subtracted");
        sx::cover("days");
        return;
    }
    let Date::DateTime(x) = d else { unreachable!() };
    let y = x + l;
    sx::check(kind(&Date::from(y)) == k, "adding a length changes the kind");
    sx::check(same(&(d + l), &y.into()), "a date and a date-time add differently");
    if k == 1 {
        sx::check(y.naive() == w + l, "adding a length to a floating time");
        sx::check(y - l == w, "subtracting the added length");
        sx::check(y - x == l, "the difference is not the added length");
        sx::check(x - l == w - l, "subtracting a length");
    } else {
        let (DateTime::Local(a), DateTime::Local(b)) = (x, y) else {
            sx::check(false, "a local time becomes another kind");
            return;
        };
        sx::check(b.naive_utc() == a.naive_utc() + l, "adding a length to a local time");
        sx::check(same(&(y + -l).into(), &d), "adding and subtracting a length of a local time");
        sx::check(x - l == w - l, "subtracting a length of a local time");
        sx::check(y - x == b.naive_local() - a.naive_local(), "the difference of local times");
    }
    sx::cover("times");
}
/// The length of a period.
pub fn period() {
    let (ka, a, x) = any();
    let (kb, b, y) = any();
    sx::assume((ka > 0) & (kb > 0));
    let (Date::DateTime(x), Date::DateTime(y)) = (x, y) else { return };
    let p = Period::StartEnd(ikal::period::StartEnd { start: x, end: y });
    sx::check(p.duration() == b - a, "the length of a period");
    sx::check(y - x == p.duration(), "the length of a period is not its end minus its start");
    let l = chrono::TimeDelta::seconds(sx::range(-1_000_000, 1_000_000, "length"));
    sx::check(Period::StartDur(ikal::period::StartDur { start: x, duration: l }).duration() == l, "the stated length of a period");
    sx::cover("period");
}
/// Lengths of any size, from and to years of four digits.
pub fn far() {
    let y = [1, 99, 1000, 1582, 1900, 1970, 2000, 2100, 9999][sx::choice(9, "year")];
    let day = chrono::NaiveDate::from_ymd_opt(y, [1, 2, 12][sx::choice(3, "month")], sx::range(1, 28, "day") as u32).unwrap();
    let k = sx::choice(3, "kind");
    let n = [1, 29, 400, 1461, 36_524, 99_999, 146_097, 1_000_000][sx::choice(8, "days")] * [1, -1][sx::choice(2, "sign")];
    let w = day.and_hms_opt(0, 0, 0).unwrap();
    sx::cover("far");
    if k == 0 {
        let (d, l) = (Date::Date(day), chrono::TimeDelta::days(n));
        sx::check(d.date_naive() == day && chrono::NaiveDate::from(d) == day && Date::from(day) == d, "another day");
        let e = d + l;
        sx::check(kind(&e) == 0 && wall(&e) == w + l, "days added to a date");
        sx::check(same(&(e + -l), &d), "days added and subtracted");
        return;
    }
    let w = w + chrono::TimeDelta::seconds([0, 3599, 86_399][sx::choice(3, "second")]);
    let l = chrono::TimeDelta::new(n * 86_400 + [0, 1, 43_200][sx::choice(3, "more")], [0, 1, 999_999_999][sx::choice(3, "fraction")]).unwrap();
    let x = if k == 1 { DateTime::Naive(w) } else { DateTime::Local(w.and_utc().with_timezone(&chrono::Local)) };
    let z = x + l;
    sx::check(kind(&Date::from(z)) == k, "adding a length changes the kind");
    sx::check(same(&(Date::from(x) + l), &z.into()), "a date and a date-time add differently");
    sx::check(same(&(z + -l).into(), &x.into()), "a length added and subtracted");
    match (x, z) {
        (DateTime::Local(x), DateTime::Local(z)) => sx::check(z.naive_utc() == x.naive_utc() + l, "adding a length to a local time"),
        _ => sx::check(z.naive() == w + l && z - x == l && z - l == w, "adding a length to a floating time"),
    }
    let p = Period::StartEnd(ikal::period::StartEnd { start: x, end: z });
    sx::check(p.duration() == z.naive() - x.naive(), "the length of a period");
    sx::check(Period::StartDur(ikal::period::StartDur { start: x, duration: l }).duration() == l, "the stated length of a period");
}
