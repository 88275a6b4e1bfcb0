//! Shared pieces of component text and small reference models.
#![allow(dead_code)]
use crate::sx;

pub const EV: &str = "UID:u\r\nDTSTAMP:20240101T000000\r\nDTSTART:20240101T000000\r\n";

pub fn wrap(name: &str, body: &str) -> String {
    let mut s = String::from("BEGIN:");
    s.push_str(name);
    s.push_str("\r\n");
    s.push_str(body);
    s.push_str("END:");
    s.push_str(name);
    s.push_str("\r\n");
    s
}
/// A VEVENT with the mandatory properties, then `body`.
pub fn vevent(body: &str) -> String {
    let mut s = String::from(EV);
    s.push_str(body);
    wrap("VEVENT", &s)
}
pub fn cat(parts: &[&str]) -> String {
    let mut s = String::new();
    for p in parts {
        s.push_str(p);
    }
    s
}
/// `n` symbolic decimal digits and the number they spell.
#[inline(never)]
pub fn digits(n: usize, name: &str) -> (String, u64) {
    let s = sx::ascii_n(n, name);
    let mut v = 0u64;
    for b in s.bytes() {
        sx::assume(b.is_ascii_digit());
        v = v * 10 + (b - b'0') as u64;
    }
    (s, v)
}
pub fn leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
pub fn month_len(y: i64, m: i64) -> i64 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 if leap(y) => 29,
        2 => 28,
        _ => 0,
    }
}
/// A bound that the run can override through the environment.
#[inline(never)]
pub fn param(name: &str, default: u64) -> u64 {
    std::env::var(name).ok().and_then(|v| v.parse().ok()).unwrap_or(default)
}

/// The lines of `out`, continuation lines joined; checks every physical line.
pub fn unfold(out: &str) -> Vec<String> {
    let mut lines: Vec<String> = vec![];
    let b = out.as_bytes();
    let mut from = 0;
    while from < b.len() {
        let mut to = from;
        while to < b.len() && b[to] != b'\r' && b[to] != b'\n' {
            to += 1;
        }
        sx::check(to + 1 < b.len() && b[to] == b'\r' && b[to + 1] == b'\n', "a line does not end in CRLF");
        // both ends are line breaks, so the slices are characters
        if b[from] == b' ' {
            sx::check(to - from <= 76, "a line is longer than 75 octets");
            match lines.last_mut() {
                Some(l) => l.push_str(&out[from + 1..to]),
                None => sx::check(false, "the first line continues another"),
            }
        } else {
            sx::check(to - from <= 75, "a line is longer than 75 octets");
            lines.push(out[from..to].into());
        }
        from = to + 2;
    }
    lines
}
