//! C09: recurrence rules, part by part.
use crate::props::{day, digit, dt};
use crate::{sx, t};
use ikal::{Freq, Recur, Weekday, WeekdayNum};

const FREQ: [(&str, Freq); 7] = [
    ("SECONDLY", Freq::Secondly),
    ("MINUTELY", Freq::Minutely),
    ("HOURLY", Freq::Hourly),
    ("DAILY", Freq::Daily),
    ("WEEKLY", Freq::Weekly),
    ("MONTHLY", Freq::Monthly),
    ("YEARLY", Freq::Yearly),
];
const DAY: [(&str, Weekday); 7] = [
    ("SU", Weekday::Sunday),
    ("MO", Weekday::Monday),
    ("TU", Weekday::Tuesday),
    ("WE", Weekday::Wenesday),
    ("TH", Weekday::Thurday),
    ("FR", Weekday::Friday),
    ("SA", Weekday::Saturday),
];
const BY: [&str; 8] = ["BYSECOND", "BYMINUTE", "BYHOUR", "BYMONTHDAY", "BYYEARDAY", "BYWEEKNO", "BYMONTH", "BYSETPOS"];

fn by<'a>(r: &'a mut Recur, k: usize) -> &'a mut Vec<i8> {
    match k {
        0 => &mut r.by_second,
        1 => &mut r.by_minute,
        2 => &mut r.by_hour,
        3 => &mut r.by_monthday,
        4 => &mut r.by_yearday,
        5 => &mut r.by_weekno,
        6 => &mut r.by_month,
        _ => &mut r.by_setpos,
    }
}
fn empty() -> Recur {
    Recur { freq: Freq::Daily, interval: 1, ..Default::default() }
}
/// A number of one or two arbitrary digits with or without a sign.
fn number(name: &str) -> (String, i8) {
    let (s, v) = t::digits(1 + sx::choice(2, "digits"), name);
    match sx::choice(3, "sign") {
        0 => (s, v as i8),
        1 => (t::cat(&["-", &s]), -(v as i8)),
        _ => (t::cat(&["+", &s]), v as i8),
    }
}
const PARTS: usize = 14;
/// Part `k` with short arbitrary contents, and what it sets.
fn part(k: usize, r: &mut Recur) -> String {
    match k {
        0 => {
            let f = &FREQ[sx::choice(7, "freq")];
            r.freq = f.1.clone();
            t::cat(&["FREQ=", f.0])
        }
        1 => {
            let d = digit("until");
            let mut s = String::from("UNTIL=");
            if sx::choice(2, "kind") == 0 {
                s.push_str("2024010");
                s.push(d as char);
                r.until = Some(day(d).into());
            } else {
                s.push_str("20240101T00000");
                s.push(d as char);
                r.until = Some(dt(d).into());
            }
            s
        }
        2 | 3 => {
            let (s, v) = t::digits(2, "number");
            if k == 2 {
                r.count = Some(v as u8);
                t::cat(&["COUNT=", &s])
            } else {
                r.interval = v as u8;
                t::cat(&["INTERVAL=", &s])
            }
        }
        4 => {
            let d = &DAY[sx::choice(7, "wkst")];
            r.wkst = Some(d.1.clone());
            t::cat(&["WKST=", d.0])
        }
        5 => {
            let d = digit("ord");
            let w = &DAY[sx::choice(7, "day")];
            r.by_day = vec![
                WeekdayNum { weekday: w.1.clone(), ord: Some(-((d - b'0') as i8)) },
                WeekdayNum { weekday: Weekday::Monday, ord: None },
            ];
            let mut s = String::from("BYDAY=-");
            s.push(d as char);
            s.push_str(w.0);
            s.push_str(",MO");
            s
        }
        _ => {
            let d = digit("by");
            let mut s = t::cat(&[BY[k - 6], "=-"]);
            s.push(d as char);
            s.push_str(",7,12");
            *by(r, k - 6) = vec![-((d - b'0') as i8), 7, 12];
            s
        }
    }
}
/// Part `k` with one short element.
fn small(k: usize, r: &mut Recur) -> String {
    let d = if k == 4 || k == 5 { b'0' } else { digit("digit") };
    let n = (d - b'0') as i8;
    let w = if k == 4 || k == 5 { &DAY[[2, 0][sx::choice(2, "day")]] } else { &DAY[0] };
    let mut s = String::from(match k {
        1 => {
            r.until = Some("20240101T000000Z".parse::<ikal::Date>().unwrap());
            return "UNTIL=20240101T000000Z".into();
        }
        2 => {
            r.count = Some(d - b'0');
            "COUNT="
        }
        3 => {
            r.interval = d - b'0';
            "INTERVAL="
        }
        4 => {
            r.wkst = Some(w.1.clone());
            return t::cat(&["WKST=", w.0]);
        }
        5 => {
            r.by_day = vec![WeekdayNum { weekday: w.1.clone(), ord: None }];
            return t::cat(&["BYDAY=", w.0]);
        }
        _ => {
            by(r, k - 6).push(n);
            return {
                let mut s = t::cat(&[BY[k - 6], "="]);
                s.push(d as char);
                s
            };
        }
    });
    s.push(d as char);
    s
}
/// Three parts and the frequency, in every order.
pub fn triples() {
    let (i, j, k) = (1 + sx::choice(PARTS as u64 - 1, "i"), 1 + sx::choice(PARTS as u64 - 1, "j"), 1 + sx::choice(PARTS as u64 - 1, "k"));
    if i >= j || j == k || i == k {
        // i and j in either order around k
        return;
    }
    let mut r = empty();
    r.freq = Freq::Monthly;
    let (a, b, c) = (small(i, &mut r), small(j, &mut r), small(k, &mut r));
    let (a, b) = if sx::flag("swap") { (b, a) } else { (a, b) };
    let s = match sx::choice(t::param("ORDERS", 2), "frequency") {
        0 => t::cat(&["FREQ=MONTHLY;", &a, ";", &c, ";", &b]),
        1 => t::cat(&[&a, ";", &c, ";", &b, ";FREQ=MONTHLY"]),
        2 => t::cat(&[&a, ";FREQ=MONTHLY;", &c, ";", &b]),
        _ => t::cat(&[&a, ";", &c, ";FREQ=MONTHLY;", &b]),
    };
    sx::cover("three parts");
    sx::check(s.parse::<Recur>() == Ok(r), "a rule is not kept");
}
fn parse(s: &str) -> Option<Recur> {
    let a = s.parse::<Recur>();
    let e = t::vevent(&t::cat(&["RRULE:", s, "\r\n"])).parse::<ikal::VEvent>();
    match (a, e) {
        (Ok(a), Ok(e)) => {
            sx::check(e.rrule.as_ref() == Some(&a), "a rule means something else as a property");
            Some(a)
        }
        (Err(_), Err(_)) => None,
        _ => {
            sx::check(false, "a rule is accepted only in one way");
            None
        }
    }
}
/// Two parts and the frequency, in every order.
pub fn pairs() {
    let i = 1 + sx::choice(PARTS as u64 - 1, "i");
    let j = 1 + sx::choice(PARTS as u64 - 1, "j");
    if i == j {
        return;
    }
    let mut r = empty();
    let (a, b) = match sx::choice(3, "size") {
        0 => (part(i, &mut r), part(j, &mut r)),
        1 => (small(i, &mut r), part(j, &mut r)),
        _ => (small(i, &mut r), small(j, &mut r)),
    };
    let f = part(0, &mut r);
    let s = match sx::choice(3, "order") {
        0 => t::cat(&[&f, ";", &a, ";", &b]),
        1 => t::cat(&[&a, ";", &f, ";", &b]),
        _ => t::cat(&[&a, ";", &b, ";", &f]),
    };
    sx::cover("two parts");
    sx::check(s.parse::<Recur>() == Ok(r), "a rule is not kept");
}
/// All parts, in rotated and reversed order, any one of them missing.
pub fn all() {
    let from = sx::choice(PARTS as u64, "from");
    let back = sx::choice(2, "back") == 1;
    let without = sx::choice(PARTS as u64 + 1, "without");
    let mut r = empty();
    let mut s = String::new();
    for k in 0..PARTS {
        let i = (from + if back { PARTS - k } else { k }) % PARTS;
        if i == without {
            continue;
        }
        if !s.is_empty() {
            s.push(';');
        }
        let p = match i {
            // few paths per part
            0 => {
                r.freq = Freq::Monthly;
                "FREQ=MONTHLY".into()
            }
            1 => {
                let d = digit("until");
                r.until = Some(day(d).into());
                let mut p = String::from("UNTIL=2024010");
                p.push(d as char);
                p
            }
            4 => {
                r.wkst = Some(Weekday::Thurday);
                "WKST=TH".into()
            }
            5 => {
                r.by_day = vec![WeekdayNum { weekday: Weekday::Friday, ord: Some(2) }];
                "BYDAY=2FR".into()
            }
            i => part(i, &mut r),
        };
        s.push_str(&p);
    }
    if without == 0 {
        sx::cover("no frequency");
        sx::check(parse(&s).is_none(), "a rule without a frequency is accepted");
    } else {
        sx::cover("all parts");
        sx::check(parse(&s) == Some(r), "a rule is not kept");
    }
}
/// Lists of numbers, of weekdays.
pub fn lists() {
    let k = sx::choice(9, "list");
    let n = 1 + sx::choice(t::param("N", 3), "n");
    let mut r = empty();
    let mut s = t::cat(&["FREQ=DAILY;", if k < 8 { BY[k] } else { "BYDAY" }, "="]);
    for i in 0..n {
        if i > 0 {
            s.push(',');
        }
        if k == 8 && sx::choice(2, "ord") == 0 {
            let d = &DAY[sx::choice(7, "day")];
            r.by_day.push(WeekdayNum { weekday: d.1.clone(), ord: None });
            s.push_str(d.0);
            continue;
        }
        let (x, v) = number("number");
        s.push_str(&x);
        if k == 8 {
            r.by_day.push(WeekdayNum { weekday: Weekday::Saturday, ord: Some(v) });
            s.push_str("SA");
        } else {
            by(&mut r, k).push(v);
        }
    }
    sx::cover("list");
    sx::check(s.parse::<Recur>() == Ok(r), "a list of a rule is not kept");
}
/// A number as Rust reads it.
fn integer(s: &[u8]) -> Option<i64> {
    let (neg, d) = match s.first() {
        Some(b'-') => (true, &s[1..]),
        Some(b'+') => (false, &s[1..]),
        _ => (false, s),
    };
    let mut v = 0i64;
    let mut ok = !d.is_empty();
    for b in d {
        ok &= b.is_ascii_digit();
        v = v * 10 + b.wrapping_sub(b'0') as i64;
    }
    if !ok {
        None
    } else if neg {
        Some(-v)
    } else {
        Some(v)
    }
}
/// An arbitrary text as a number.
pub fn numbers() {
    let k = sx::choice(10, "part");
    let s = sx::ascii_n(sx::choice(t::param("N", 4) + 1, "n"), "value");
    for b in s.bytes() {
        sx::assume((b >= 0x20) & (b != 0x7f) & (b != b';') & (b != b','));
    }
    let name = ["COUNT", "INTERVAL"].get(k).copied().unwrap_or_else(|| BY[k - 2]);
    let rule = t::cat(&["FREQ=DAILY;", name, "=", &s]);
    let mut r = empty();
    let v = integer(s.as_bytes());
    let max = if k < 2 { 255 } else { 127 };
    let min = if k < 2 { 0 } else { -128 };
    match (v, rule.parse::<Recur>()) {
        (Some(v), Ok(x)) => {
            sx::cover("number");
            match k {
                0 => r.count = Some(v as u8),
                1 => r.interval = v as u8,
                _ => by(&mut r, k - 2).push(v as i8),
            }
            sx::check(min <= v && v <= max && x == r, "another number than written");
        }
        (Some(v), Err(_)) => {
            sx::cover("number rejected");
            if k < 2 && s.starts_with('-') {
                return;
            }
            if min <= v && v <= max {
                sx::check(false, "a number is rejected");
            } else if k == 0 {
                sx::kf(false, "count-255");
            } else if k == 1 {
                sx::kf(false, "interval-255");
            } else if (name == "BYYEARDAY" || name == "BYSETPOS") && -366 <= v && v <= 366 {
                sx::kf(false, "by-127");
            }
        }
        (None, r) => {
            sx::cover("no number");
            sx::check(r.is_err(), "a malformed number is accepted");
        }
    }
}
/// A part of any unknown name, with any value, and maybe its separator.
fn other(s: &str) -> bool {
    match s.bytes().position(|c| c == b'=') {
        Some(k) => (k > 0) & !s[..s.len() - 1].contains(';'),
        None => false,
    }
}
/// An arbitrary text as UNTIL, as weekday, as list of weekdays, or around a separator.
pub fn malformed() {
    let s = sx::ascii_n(sx::choice(t::param("N", 2) + 1, "n"), "value");
    for b in s.bytes() {
        sx::assume((b >= 0x20) & (b != 0x7f) & (b != b';'));
    }
    let day = DAY.iter().find(|d| d.0 == s);
    match sx::choice(7, "part") {
        0 => {
            let r = t::cat(&["FREQ=DAILY;UNTIL=202401", &s]).parse::<Recur>();
            let v = integer(s.as_bytes()).filter(|v| s.len() == 2 && 1 <= *v && *v <= 31 && !s.starts_with(['+', '-']));
            match v {
                Some(v) => sx::check(r == Ok(Recur { until: chrono::NaiveDate::from_ymd_opt(2024, 1, v as u32).map(Into::into), ..empty() }), "UNTIL is not kept"),
                None => sx::check(r.is_err(), "a malformed UNTIL is accepted"),
            }
        }
        1 => {
            let r = t::cat(&["FREQ=DAILY;WKST=", &s]).parse::<Recur>();
            match day {
                Some(d) => sx::check(r == Ok(Recur { wkst: Some(d.1.clone()), ..empty() }), "WKST is not kept"),
                None => sx::check(r.is_err(), "a malformed WKST is accepted"),
            }
        }
        2 => {
            let r = t::cat(&["FREQ=DAILY;BYDAY=MO,", &s]).parse::<Recur>();
            match day {
                Some(d) => {
                    let l = vec![WeekdayNum { weekday: Weekday::Monday, ord: None }, WeekdayNum { weekday: d.1.clone(), ord: None }];
                    sx::check(r == Ok(Recur { by_day: l, ..empty() }), "BYDAY is not kept")
                }
                None => sx::check(r.is_err(), "a malformed BYDAY is accepted"),
            }
        }
        3 => {
            // an element of a list of numbers
            let r = t::cat(&["FREQ=DAILY;BYHOUR=1,", &s, ",2"]).parse::<Recur>();
            let b = s.as_bytes();
            // a comma makes two elements of it
            let v = if s.contains(',') { None } else { integer(b) };
            match v {
                Some(v) => sx::check(r == Ok(Recur { by_hour: vec![1, v as i8, 2], ..empty() }), "BYHOUR is not kept"),
                None => sx::check(r.is_err(), "a malformed BYHOUR is accepted"),
            }
        }
        4 => {
            // too short to be a part: no part behind it is lost
            let r = t::cat(&["FREQ=DAILY;", &s, ";COUNT=3"]).parse::<Recur>();
            match r {
                Ok(r) => sx::check((s.is_empty() || other(&s)) && r == Recur { count: Some(3), ..empty() }, "a malformed part is accepted"),
                Err(_) => {}
            }
        }
        5 => {
            // behind the last part
            let part = sx::flag("separator");
            let r = t::cat(&["FREQ=DAILY;BYDAY=MO", if part { ";" } else { " " }, &s]).parse::<Recur>();
            match r {
                Ok(r) => sx::check((s.is_empty() || part && other(&s)) && r == Recur { by_day: vec![WeekdayNum { weekday: Weekday::Monday, ord: None }], ..empty() }, "text behind a rule is accepted"),
                Err(_) => {}
            }
        }
        _ => {
            // no frequency, whatever else
            let r = t::cat(&["INTERVAL=2;FREQ", &s, "DAILY"]).parse::<Recur>();
            if s == "=" {
                sx::check(r == Ok(Recur { interval: 2, ..empty() }), "FREQ is not kept")
            } else {
                sx::check(r.is_err(), "a rule without a frequency is accepted")
            }
        }
    }
    sx::cover("malformed");
}
/// Long lists, all of them in one rule.
pub fn large() {
    let n = [13, 32, 80][sx::choice(3, "n")];
    let d = digit("d");
    let mut r = empty();
    let mut s = String::from("FREQ=DAILY");
    for k in 0..9 {
        let mut l = Vec::new();
        for i in 0..n {
            let (c, m) = if i % 5 == k % 5 { (d, i as i8 % 9) } else { (b'1' + (i + k) as u8 % 9, 0) };
            let x = t::cat(&[if i % 2 == 0 { "-" } else { "" }, &if m > 0 { m.to_string() } else { String::new() }, &String::from(c as char)]);
            let y = (m * 10 + (c - b'0') as i8) * if i % 2 == 0 { -1 } else { 1 };
            if k == 8 {
                let w = &DAY[i % 7];
                l.push(t::cat(&[&x, w.0]));
                r.by_day.push(WeekdayNum { weekday: w.1.clone(), ord: Some(y) });
            } else {
                l.push(x);
                by(&mut r, k).push(y);
            }
        }
        s.push_str(&t::cat(&[";", if k < 8 { BY[k] } else { "BYDAY" }, "=", &l.join(",")]));
    }
    sx::cover("long lists");
    sx::check(s.parse::<Recur>() == Ok(r.clone()), "long lists of a rule are not kept");
    let e = t::vevent(&t::cat(&["RRULE:", &s, "\r\n"])).parse::<ikal::VEvent>();
    sx::check(e.is_ok_and(|e| e.rrule == Some(r)), "long lists of a rule are not kept in a component");
}
