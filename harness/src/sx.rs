//! Interface between the harnesses and the symbolic executor; with the
//! `replay` feature the same calls read a counterexample file instead.
#![allow(dead_code)]

#[cfg(not(feature = "replay"))]
mod imp {
    unsafe extern "C" {
        fn sx_bytes(p: *mut u8, n: usize, name: *const u8, len: usize);
        fn sx_int(bits: usize, name: *const u8, len: usize) -> u64;
        fn sx_assume(c: bool);
        fn sx_assert(c: bool, name: *const u8, len: usize);
        fn sx_kf(c: bool, name: *const u8, len: usize);
        fn sx_cover(name: *const u8, len: usize);
        fn sx_log(name: *const u8, len: usize);
        fn sx_conc(v: u64) -> u64;
    }
    pub fn bytes(p: &mut [u8], name: &str) {
        unsafe { sx_bytes(p.as_mut_ptr(), p.len(), name.as_ptr(), name.len()) }
    }
    pub fn int(bits: usize, name: &str) -> u64 {
        unsafe { sx_int(bits, name.as_ptr(), name.len()) }
    }
    pub fn assume(c: bool) {
        unsafe { sx_assume(c) }
    }
    pub fn check(c: bool, name: &str) {
        unsafe { sx_assert(c, name.as_ptr(), name.len()) }
    }
    pub fn kf(c: bool, name: &str) {
        unsafe { sx_kf(c, name.as_ptr(), name.len()) }
    }
    pub fn cover(name: &str) {
        unsafe { sx_cover(name.as_ptr(), name.len()) }
    }
    pub fn log(s: &str) {
        unsafe { sx_log(s.as_ptr(), s.len()) }
    }
    pub fn conc(v: u64) -> u64 {
        unsafe { sx_conc(v) }
    }
}

#[cfg(feature = "replay")]
mod imp {
    use std::collections::HashMap;
    use std::sync::Mutex;
    static VALUES: Mutex<Option<HashMap<String, u64>>> = Mutex::new(None);
    static SEEN: Mutex<Option<HashMap<String, u32>>> = Mutex::new(None);
    pub fn load(path: &str) {
        let mut m = HashMap::new();
        for l in std::fs::read_to_string(path).expect("replay file").lines() {
            if l.starts_with('#') {
                continue;
            }
            if let Some((k, v)) = l.rsplit_once(' ') {
                m.insert(k.to_string(), v.parse().expect("value"));
            }
        }
        *VALUES.lock().unwrap() = Some(m);
        *SEEN.lock().unwrap() = Some(HashMap::new());
    }
    fn get(name: &str) -> u64 {
        let mut s = SEEN.lock().unwrap();
        let c = s.get_or_insert_default().entry(name.to_string()).or_insert(0);
        *c += 1;
        let key = if *c == 1 { name.to_string() } else { format!("{name}#{c}") };
        *VALUES.lock().unwrap().get_or_insert_default().get(&key).unwrap_or(&0)
    }
    pub fn bytes(p: &mut [u8], name: &str) {
        for (i, b) in p.iter_mut().enumerate() {
            *b = get(&format!("{name}[{i}]")) as u8;
        }
    }
    pub fn int(bits: usize, name: &str) -> u64 {
        let v = get(name);
        if bits >= 64 { v } else { v & ((1 << bits) - 1) }
    }
    pub fn assume(c: bool) {
        if !c {
            println!("SX-ASSUME");
            std::process::exit(77);
        }
    }
    pub fn check(c: bool, name: &str) {
        if !c {
            println!("SX-ASSERT {name}");
            std::process::exit(1);
        }
    }
    pub fn kf(c: bool, name: &str) {
        if !c {
            println!("SX-KF {name}");
        }
    }
    pub fn cover(s: &str) {
        println!("SX-COVER {s}");
    }
    pub fn log(s: &str) {
        println!("SX-LOG {s}");
    }
    pub fn conc(v: u64) -> u64 {
        v
    }
}

pub use imp::*;

/// A value in lo..=hi.
#[inline(never)]
pub fn range(lo: i64, hi: i64, name: &str) -> i64 {
    let span = (hi - lo) as u64;
    let bits = 64 - span.leading_zeros() as usize;
    let v = if bits == 0 { 0 } else { int(bits, name) };
    assume(v <= span);
    lo + v as i64
}
/// A value in 0..n, one path per value.
#[inline(never)]
pub fn choice(n: u64, name: &str) -> usize {
    conc(range(0, n as i64 - 1, name) as u64) as usize
}
#[inline(never)]
pub fn flag(name: &str) -> bool {
    int(1, name) != 0
}
/// A string of at most `max` arbitrary ASCII characters (length one path each).
#[inline(never)]
pub fn ascii(max: u64, name: &str) -> String {
    let n = choice(max + 1, "len");
    ascii_n(n, name)
}
#[inline(never)]
pub fn ascii_n(n: usize, name: &str) -> String {
    let mut v = vec![0u8; n];
    bytes(&mut v, name);
    for b in &v {
        assume(*b < 0x80);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// A string of `n` characters, each ASCII, a two-byte, a three-byte or a four-byte character.
#[inline(never)]
pub fn unicode_n(n: usize, name: &str) -> String {
    let mut s = String::new();
    for _ in 0..n {
        match choice(4, "class") {
            0 => s.push_str(&ascii_n(1, name)),
            1 => s.push('é'),
            2 => s.push('€'),
            _ => s.push('𝄞'),
        }
    }
    s
}
