//! C04: each property reaches its own field.
use crate::props::*;
use crate::{each_comp, sx, t};

fn pick<C: Comp>(name: &str) -> usize {
    sx::choice(C::PROPS.len() as u64, name)
}
/// Two properties in any order, the mandatory ones before or after them.
pub fn pairs() {
    fn go<C: Comp>() {
        let (i, j) = (pick::<C>("i"), pick::<C>("j"));
        if t::param("ALL", 1) == 0 && i != j && (i * 7 + j * 3) % 5 != 0 {
            return;
        }
        let (x, y) = (sample(&C::PROPS[i], digit("x")), sample(&C::PROPS[j], digit("y")));
        let mut b = Built::<C>::new();
        if sx::choice(2, "place") == 0 {
            b = b.must(99);
            b.add(i, &x);
            b.add(j, &y);
        } else {
            b.add(i, &x);
            b.add(j, &y);
            b = b.must(99);
        }
        sx::cover("two properties");
        b.check("a property is not in its field");
        // the other way round
        if i != j {
            let mut o = Built::<C>::new().must(99);
            o.add(j, &y);
            o.add(i, &x);
            o.check("the order of the properties matters");
        }
    }
    each_comp!(go)
}
/// All properties at once, in a rotated or reversed order, some repeated.
pub fn all() {
    fn go<C: Comp>() {
        let n = C::PROPS.len();
        let step = t::param("STEP", 8);
        let from = (sx::choice(n as u64 / step + 1, "from") * step as usize) % n;
        let back = sx::choice(2, "back") == 1;
        let again = (from + n / 2) % n;
        let d = digit("d");
        let mut b = Built::<C>::new();
        for k in 0..n {
            let i = (from + if back { n - 1 - k } else { k }) % n;
            b.add(i, &sample(&C::PROPS[i], d));
            if i % 4 == again % 4 {
                b.add(again, &sample(&C::PROPS[again], digit("e")));
            }
        }
        sx::cover("all properties");
        b.check("a property is not in its field");
    }
    each_comp!(go)
}
/// Lists: elements in order, over several lines.
pub fn lists() {
    fn go<C: Comp>() {
        let i = pick::<C>("i");
        let p = &C::PROPS[i];
        let mut b = Built::<C>::new().must(99);
        match p.kind {
            // any text, commas and backslashes in it as well
            K::List => {
                for _ in 0..2 {
                    let s = sx::ascii_n(sx::choice(t::param("N", 4), "n"), "text");
                    for c in s.bytes() {
                        sx::assume((c >= 0x20) & (c != 0x7f));
                    }
                    b.add(i, &v(&s, b'1'));
                }
            }
            K::Exdate | K::Rdate | K::Freebusy => {
                for _ in 0..3 {
                    b.add(i, &v("", digit("d")));
                }
            }
            _ => return,
        }
        sx::cover("list");
        b.check("a list is not kept");
    }
    each_comp!(go)
}
/// Lists of dates of several kinds and lengths, and of periods.
pub fn dates() {
    use ikal::{Date, Period, RDate};
    let periods = sx::choice(2, "periods") == 1;
    let n = 1 + sx::choice(t::param("N", 3), "n");
    let mut s = String::new();
    let (mut a, mut b): (Vec<Date>, Vec<Period>) = (vec![], vec![]);
    for k in 0..n {
        if k > 0 {
            s.push(',');
        }
        let x = digit("x");
        if periods {
            let y = digit("y");
            if sx::choice(2, "kind") == 0 {
                s.push_str(&t::cat(&[&value(K::Dt, &v("", x)), "/", &value(K::Dt, &v("", y))]));
                b.push(Period::StartEnd(ikal::period::StartEnd { start: dt(x), end: dt(y) }));
            } else {
                s.push_str(&t::cat(&[&value(K::Dt, &v("", x)), "/", &value(K::Dur, &v("", y))]));
                b.push(Period::StartDur(ikal::period::StartDur { start: dt(x), duration: dur(y) }));
            }
        } else if sx::choice(2, "kind") == 0 {
            s.push_str("2024010");
            s.push(x as char);
            a.push(Date::Date(day(x)));
        } else {
            s.push_str(&value(K::Dt, &v("", x)));
            a.push(dt(x).into());
        }
    }
    s.push_str("\r\n");
    sx::cover(if periods { "periods" } else { "dates" });
    match sx::choice(3, "component") {
        0 => {
            let e = t::vevent(&t::cat(&[if periods { "RDATE;VALUE=PERIOD:" } else { "RDATE:" }, &s])).parse::<ikal::VEvent>().unwrap();
            sx::check(e.rdate == [if periods { RDate::Period(b) } else { RDate::Date(a) }], "RDATE");
        }
        1 if !periods => {
            let e = t::vevent(&t::cat(&["EXDATE:", &s])).parse::<ikal::VEvent>().unwrap();
            sx::check(e.exdate == a, "EXDATE");
        }
        2 if periods => {
            let e = t::wrap("VFREEBUSY", &t::cat(&["UID:u\r\nDTSTAMP:20240101T000000\r\nFREEBUSY:", &s])).parse::<ikal::VFreebusy>().unwrap();
            sx::check(e.freebusy == b, "FREEBUSY");
        }
        _ => (),
    }
}
/// A mandatory property is missing.
pub fn missing() {
    fn go<C: Comp>() {
        let i = pick::<C>("missing");
        let j = pick::<C>("other");
        if C::PROPS[i].n != N::Must || i == j {
            return;
        }
        let mut b = Built::<C>::new().must(i);
        b.add(j, &sample(&C::PROPS[j], digit("x")));
        sx::cover("missing");
        sx::check(b.parse().is_err(), "a mandatory property is missing and nobody minds");
    }
    each_comp!(go)
}
/// RFC 5545 names it RECURRENCE-ID.
pub fn recurrence_id() {
    let d = digit("d");
    let s = t::vevent(&t::cat(&["RECURRENCE-ID:", &value(K::Date, &v("", d)), "\r\n"]));
    let e = s.parse::<ikal::VEvent>().unwrap();
    sx::cover("recurrence id");
    sx::kf(e.recurid == Some(dt(d).into()), "recurrence-id");
}
/// Typed properties with parameters that do not change what the value means.
pub fn params() {
    fn go<C: Comp>() {
        let i = pick::<C>("i");
        let p = &C::PROPS[i];
        let value_type = match p.kind {
            K::Text | K::Uri | K::List | K::Ext => return,
            K::Date | K::Dt | K::Rdate | K::Exdate => "DATE-TIME",
            K::Dur | K::Trigger => "DURATION",
            K::Int => "INTEGER",
            K::Geo => "FLOAT",
            K::Recur => "RECUR",
            K::Freebusy => "PERIOD",
            K::Offset => "UTC-OFFSET",
            K::Class | K::Status | K::Transp | K::Rstatus => "TEXT",
        };
        let k = sx::choice(PARAMS.len() as u64, "parameter");
        let (name, x) = PARAMS[k];
        if name == "VALUE" && k > 0 {
            return;
        }
        let x = if k == 0 { value_type } else { x };
        let y = v("", digit("d"));
        let mut b = Built::<C>::new().must(i);
        let n = if p.n == N::Many { 2 } else { 1 };
        for _ in 0..n {
            b.body.push_str(&t::cat(&[p.name, ";X-A=\"b;c:d\";", name, "=", &quoted(x), ":", &value(p.kind, &y), "\r\n"]));
            (p.set)(&mut b.want, &y);
        }
        sx::cover("parameter");
        b.check("a parameter changes the value");
    }
    each_comp!(go)
}
/// Long lists in one line, and many lines.
pub fn large() {
    fn go<C: Comp>() {
        let i = pick::<C>("i");
        let p = &C::PROPS[i];
        if p.n != N::Many {
            return;
        }
        let d = digit("d");
        let mut b = Built::<C>::new().must(99);
        if p.kind == K::List && sx::flag("one line") {
            let s: Vec<String> = (0..60).map(|i| t::cat(&["e\\,", &(i * 7 % 60).to_string(), &String::from(d as char)])).collect();
            b.add(i, &v(&s.join(","), d));
        } else {
            for j in 0..60u8 {
                b.add(i, &sample(p, if j % 3 == 0 { d } else { b'0' + j % 10 }));
            }
        }
        sx::cover("long list");
        b.check("a long list is not kept");
    }
    each_comp!(go)
}
/// Many dates and periods in one line.
pub fn many_dates() {
    use ikal::{Date, Period, RDate};
    let x = digit("x");
    let n = [9, 17, 70][sx::choice(3, "n")];
    let (mut s, mut p) = (Vec::new(), Vec::new());
    let (mut a, mut b): (Vec<Date>, Vec<Period>) = (vec![], vec![]);
    for k in 0..n {
        let y = if k % 4 == 0 { x } else { b'1' + k % 9 };
        s.push(value(K::Dt, &v("", y)));
        a.push(dt(y).into());
        p.push(t::cat(&[&value(K::Dt, &v("", x)), "/", &value(K::Dur, &v("", y))]));
        b.push(Period::StartDur(ikal::period::StartDur { start: dt(x), duration: dur(y) }));
    }
    let (s, p) = (s.join(","), p.join(","));
    sx::cover("many");
    let got = t::vevent(&t::cat(&["EXDATE:", &s, "\r\nRDATE:", &s, "\r\nRDATE;VALUE=PERIOD:", &p, "\r\n"])).parse::<ikal::VEvent>();
    sx::check(got.is_ok_and(|e| e.exdate == a && e.rdate == [RDate::Date(a), RDate::Period(b.clone())]), "a long list of dates is not kept");
    let got = t::wrap("VFREEBUSY", &t::cat(&["UID:u\r\nDTSTAMP:20240101T000000\r\nFREEBUSY:", &p, "\r\n"])).parse::<ikal::VFreebusy>();
    sx::check(got.is_ok_and(|e| e.freebusy == b), "a long list of periods is not kept");
}
