//! C10: output lines are folded losslessly within 75 octets.
use crate::props::*;
use crate::{each_comp, sx, t};
use t::unfold;
use ikal::{Text, Uri};

fn filler(n: usize) -> String {
    "abcdefghij".repeat(n / 10 + 1)[..n].into()
}
/// The characters at the fold: anything, of one to four bytes.
fn around(n: usize) -> String {
    sx::unicode_n(n, "chars")
}
/// An event with one long property; `line` is that property unfolded.
fn check(e: &ikal::VEvent, name: &str, line: &str) {
    let Ok(out) = ikal::ser::ical(e) else { return sx::check(false, "serialization fails") };
    let lines = unfold(&out);
    sx::check(lines.iter().filter(|l| l.starts_with(name)).count() == 1, "a long line is split");
    sx::check(lines.iter().any(|l| l == line), "folding changes a line");
    // DTSTAMP, UID, DTSTART between BEGIN and END
    sx::check(lines.len() == if name == "UID" { 5 } else { 6 }, "another number of lines");
    sx::cover(if out.len() > lines.iter().map(|l| l.len() + 2).sum() { "folded" } else { "short" });
}
/// Long texts, addresses, parameters and extension properties.
pub fn long() {
    let n = t::param("N", 2) as usize;
    let kind = sx::choice(5, "kind");
    let turns = sx::choice(2, "turns") * 75;
    let at = |head: usize| filler(75 - n - 1 - head + sx::choice(n as u64 + 3, "place") + turns);
    let tail = filler([0, 3, 80][sx::choice(3, "tail")]);
    let mut e = ikal::VEvent { uid: "u".into(), ..Default::default() };
    let x = around(n);
    match kind {
        0 => {
            let v = Text::from(t::cat(&[&at(12), &x, &tail]).as_str());
            let line = t::cat(&["DESCRIPTION:", &ikal::ser::ical(&v).unwrap()]);
            e.description = Some(v);
            check(&e, "DESCRIPTION", &line)
        }
        1 => {
            let v = Uri::from(t::cat(&[&at(4), &x, &tail]).as_str());
            let line = t::cat(&["URL:", &ikal::ser::ical(&v).unwrap()]);
            e.url = Some(v);
            check(&e, "URL", &line)
        }
        2 => {
            let mut v = Text::from(&tail);
            v.params.insert("LANGUAGE".into(), t::cat(&[&at(17), &x]));
            let line = t::cat(&["SUMMARY;", &ikal::ser::ical(&v).unwrap()]);
            e.summary = Some(v);
            check(&e, "SUMMARY", &line)
        }
        3 => {
            let v = t::cat(&[&at(4), &x, &tail]);
            e.uid = v.as_str().into();
            let line = t::cat(&["UID:", &ikal::ser::ical(&e.uid).unwrap()]);
            check(&e, "UID", &line)
        }
        _ => {
            let v = t::cat(&[&at(10), &x, &tail]);
            e.x_prop.insert("X-FOO-BAR".into(), v.as_str().into());
            let line = t::cat(&["X-FOO-BAR:", &ikal::ser::ical(&e.x_prop["X-FOO-BAR"]).unwrap()]);
            check(&e, "X-FOO-BAR", &line)
        }
    }
}
/// Long lists of texts, dates, periods, and long rules.
pub fn lists() {
    let n = 1 + sx::choice(t::param("N", 12), "n");
    let d = digit("d");
    let mut e = ikal::VEvent { uid: "u".into(), ..Default::default() };
    match sx::choice(5, "kind") {
        0 => {
            e.exdate = vec![dt(d).into(); n];
            let line = t::cat(&["EXDATE:", &ikal::ser::ical(&e.exdate).unwrap()]);
            check(&e, "EXDATE", &line)
        }
        1 => {
            e.categories = vec![Text::from("catégorie"); n];
            let line = t::cat(&["CATEGORIES:", &ikal::ser::ical(&e.categories).unwrap()]);
            check(&e, "CATEGORIES", &line)
        }
        2 => {
            let mut r = recur(d);
            r.by_monthday = vec![-(num(d) as i8); n];
            r.by_minute = vec![59; n];
            let line = t::cat(&["RRULE:", &ikal::ser::ical(&r).unwrap()]);
            e.rrule = Some(r);
            check(&e, "RRULE", &line)
        }
        3 => {
            let r = ikal::RDate::Period(vec![periods(d)[0].clone(); n]);
            let line = t::cat(&["RDATE;", &ikal::ser::ical(&r).unwrap()]);
            e.rdate = vec![r];
            check(&e, "RDATE", &line)
        }
        _ => {
            let mut r = rstatus(b'1');
            r.statdesc = "été".repeat(n);
            r.extdata = Some("€uro".repeat(n));
            let line = t::cat(&["REQUEST-STATUS:", &ikal::ser::ical(&r).unwrap()]);
            e.rstatus = vec![r];
            check(&e, "REQUEST-STATUS", &line)
        }
    }
}
/// Every text property of every component, nested ones too.
pub fn components() {
    fn go<C: Comp>() {
        let i = sx::choice(C::PROPS.len() as u64, "property");
        let p = &C::PROPS[i];
        if !matches!(p.kind, K::Text | K::Uri | K::List | K::Ext) || p.name == "ACTION" {
            return;
        }
        let a = around(1);
        // a comma separates the elements of a list
        sx::assume(p.kind != K::List || a != ",");
        let mut x = v(&t::cat(&[&filler(61), &a, &filler(70)]), b'1');
        x.params.insert("P".into(), filler(80));
        let mut c = Built::<C>::new().must(99).want;
        (p.set)(&mut c, &x);
        let lines = match c.ser() {
            Ok(s) => unfold(&s),
            Err(_) => return sx::check(false, "serialization fails"),
        };
        let must = C::PROPS.iter().filter(|q| q.n == N::Must).count();
        sx::cover("component");
        sx::check(lines.len() == must + 2 + (p.n != N::Must) as usize, "another number of lines");
        sx::check(lines.iter().any(|l| l.starts_with(p.name) && l.len() > 200), "folding changes a line");
    }
    each_comp!(go)
}
/// Components inside of others are not folded again.
pub fn nested() {
    let mut c = ikal::VCalendar { prodid: "p".into(), version: "2.0".into(), ..Default::default() };
    let s = t::cat(&[&filler(t::param("FROM", 58) as usize + sx::choice(t::param("SPAN", 6), "place")), &around(1), &filler(sx::choice(3, "tail") * 40)]);
    let x = Text::from(s.as_str());
    let line = t::cat(&["DESCRIPTION:", &ikal::ser::ical(&x).unwrap()]);
    let mut a = ikal::valarm::Display::new();
    a.description = x.clone();
    let alarm = ikal::VAlarm::from(a);
    let mut z = ikal::VTimezone { tzid: "z".into(), ..Default::default() };
    z.standard.push(ikal::vtimezone::Standard { comment: vec![x.clone()], ..Default::default() });
    c.events.push(ikal::VEvent { description: Some(x.clone()), alarms: vec![alarm.clone()], ..Default::default() });
    c.journals.push(ikal::VJournal { description: vec![x], ..Default::default() });
    c.alarms.push(alarm);
    c.timezones.push(z);
    let lines = match ikal::ser::ical(&c) {
        Ok(s) => unfold(&s),
        Err(_) => return sx::check(false, "serialization fails"),
    };
    sx::cover("nested");
    sx::check(lines.iter().filter(|l| **l == line).count() == 4, "folding changes a nested line");
    sx::check(lines.iter().any(|l| l.starts_with("COMMENT:") && l[8..] == line[12..]), "folding changes a nested line");
}
/// Very long lines.
pub fn huge() {
    let place = sx::choice(t::param("PLACES", 3), "place");
    let x = around(1);
    let v = Text::from(t::cat(&[&filler(1460 + 700 * place), &x, &filler(2000)]).as_str());
    let line = t::cat(&["DESCRIPTION:", &ikal::ser::ical(&v).unwrap()]);
    sx::cover("very long");
    check(&ikal::VEvent { uid: "u".into(), description: Some(v), ..Default::default() }, "DESCRIPTION", &line)
}
