//! C02: folding does not change what is parsed.
use crate::props::*;
use crate::{each_comp, sx, t};

/// `s` broken before byte `at` by CRLF and a space or a tab.
fn fold(s: &str, at: usize) -> String {
    let mut b = [0u8; 1];
    sx::bytes(&mut b, "blank");
    sx::assume((b[0] == b' ') | (b[0] == b'\t'));
    let mut out = String::from(&s[..at]);
    out.push_str("\r\n");
    out.push(b[0] as char);
    out.push_str(&s[at..]);
    out
}
/// Fold the line `s` (with its CRLF) `n` times anywhere behind its first character.
fn folded(s: &str, n: u64) -> String {
    let mut s = s.to_string();
    for _ in 0..n {
        let at = 1 + sx::choice(s.len() as u64 - 2, "at");
        // a later fold does not go into the line break of an earlier one
        if s.is_char_boundary(at) && !s[at..].starts_with('\n') && !(at > 0 && s[..at].ends_with("\r\n")) {
            s = fold(&s, at);
        }
    }
    s
}
fn same<C: Comp>(text: &str, folded: &str) {
    match (C::parse(text), C::parse(folded)) {
        (Ok(a), Ok(b)) => {
            sx::cover("accepted");
            sx::check(a == b, "folding changes the value")
        }
        (Err(_), Err(_)) => sx::cover("rejected"),
        _ => sx::check(false, "folding changes what is accepted"),
    }
}
fn plain(n: usize, name: &str) -> String {
    let s = sx::ascii_n(n, name);
    for b in s.bytes() {
        sx::assume((b != b'\r') & (b != b'\n'));
    }
    s
}
/// A line of every property with any last characters, folded anywhere.
pub fn lines() {
    fn go<C: Comp>() {
        let i = sx::choice(C::PROPS.len() as u64, "property");
        let p = &C::PROPS[i];
        let mut l = match p.kind {
            K::Text | K::Uri | K::List | K::Ext => t::cat(&[p.name, ";P=\"q:\";R=é:v€"]),
            k => line(p.name, k, &v("", b'3')).replace("\r\n", ""),
        };
        let n = t::param("N", 1) as usize;
        l.truncate(l.len() - if l.is_ascii() { n } else { 0 });
        l.push_str(&plain(n, "value"));
        l.push_str("\r\n");
        let must = Built::<C>::new().must(i).body;
        let f = folded(&l, t::param("FOLDS", 1));
        same::<C>(&t::wrap(C::NAME, &t::cat(&[&must, &l])), &t::wrap(C::NAME, &t::cat(&[&must, &f])));
    }
    each_comp!(go)
}
/// A line of any characters, folded anywhere.
pub fn any() {
    let l = t::cat(&[&plain(t::param("N", 5) as usize, "line"), "\r\n"]);
    let f = folded(&l, t::param("FOLDS", 1));
    same::<ikal::VTimezone>(&t::wrap("VTIMEZONE", &t::cat(&["TZID:t\r\n", &l])), &t::wrap("VTIMEZONE", &t::cat(&["TZID:t\r\n", &f])));
}
/// Any line of a calendar with every kind of component, folded anywhere.
pub fn whole() {
    let s = calendar(digit("a"));
    let lines: Vec<&str> = s.split_inclusive("\r\n").collect();
    let n = lines.len();
    let k = sx::choice(n as u64, "line");
    let mut f = String::new();
    for (i, l) in lines.iter().enumerate() {
        if i == k || (t::param("BOTH", 0) == 1 && i == (k + 7) % n) {
            f.push_str(&folded(l, 1));
        } else {
            f.push_str(l);
        }
    }
    same::<ikal::VCalendar>(&s, &f);
}
/// Every line of a calendar folded behind each of its characters.
pub fn everywhere() {
    let s = calendar(digit("a"));
    let step = 1 + sx::choice(t::param("STEP", 3), "step");
    let mut f = String::new();
    for l in s.split_inclusive("\r\n") {
        let l = l.strip_suffix("\r\n").unwrap();
        for (i, c) in l.chars().enumerate() {
            if i > 0 && i % step == 0 {
                f.push_str("\r\n");
                f.push(if i % 2 == 0 { ' ' } else { '\t' });
            }
            f.push(c);
        }
        f.push_str("\r\n");
    }
    same::<ikal::VCalendar>(&s, &f);
}
