//! Intervals of terms under the constraints of a path.
use crate::exec::{Dom, St};
use crate::expr::*;

/// The values s, s+1, .. s+n modulo 2^w.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Iv {
    pub s: u128,
    pub n: u128,
}
const MAXW: u32 = 96;

fn smin(w: u32) -> i128 {
    -(1i128 << (w - 1))
}
fn smax(w: u32) -> i128 {
    (1i128 << (w - 1)) - 1
}
impl Iv {
    pub fn top(w: u32) -> Iv {
        Iv { s: 0, n: mask(w) }
    }
    pub fn k(v: u128) -> Iv {
        Iv { s: v, n: 0 }
    }
    pub fn u(lo: u128, hi: u128) -> Iv {
        debug_assert!(lo <= hi);
        Iv { s: lo, n: hi - lo }
    }
    pub fn i(lo: i128, hi: i128, w: u32) -> Iv {
        Iv { s: lo as u128 & mask(w), n: (hi - lo) as u128 }
    }
    fn mk(s: u128, n: u128, w: u32) -> Iv {
        if n >= mask(w) { Iv::top(w) } else { Iv { s: s & mask(w), n } }
    }
    /// unsigned bounds
    pub fn ub(self, w: u32) -> (u128, u128) {
        if self.s + self.n <= mask(w) { (self.s, self.s + self.n) } else { (0, mask(w)) }
    }
    /// signed bounds
    pub fn sb(self, w: u32) -> (i128, i128) {
        let t = sext(self.s, w);
        if self.n <= mask(w) >> 1 && t + self.n as i128 <= smax(w) { (t, t + self.n as i128) } else { (smin(w), smax(w)) }
    }
    fn hull(self, o: Iv, w: u32) -> Iv {
        let m = mask(w);
        let f = |a: Iv, b: Iv| {
            let d = b.s.wrapping_sub(a.s) & m;
            a.n.max(d + b.n)
        };
        let (x, y) = (f(self, o), f(o, self));
        if x <= y { Iv::mk(self.s, x, w) } else { Iv::mk(o.s, y, w) }
    }
    pub fn meet(self, o: Iv, w: u32) -> Iv {
        let m = mask(w);
            let top = |a: Iv| a.n >= m;
        if top(self) {
            return o;
        }
        if top(o) {
            return self;
        }
        let f = |a: Iv, b: Iv| {
            let d = b.s.wrapping_sub(a.s) & m;
            // b relative to a is d..d+b.n; one piece of overlap only if b does not reach around to a's start
            if d + b.n <= m && d <= a.n { Some(Iv { s: b.s, n: (a.n - d).min(b.n) }) } else { None }
        };
        match (f(self, o), f(o, self)) {
            (Some(x), Some(y)) => if x.n <= y.n { x } else { y },
            (Some(x), None) | (None, Some(x)) => x,
            _ => if self.n <= o.n { self } else { o },
        }
    }
}

#[derive(Default)]
pub struct Cache {
    stamp: u64,
    m: Map<Ex, Iv>,
}

fn from_table(t: &[u64], d: &Dom, w: u32) -> Option<Iv> {
    let (mut lo, mut hi, mut sl, mut sh) = (u128::MAX, 0u128, i128::MAX, i128::MIN);
    for (k, v) in t.iter().enumerate() {
        if d[k / 64] >> (k % 64) & 1 == 1 {
            let v = *v as u128;
            lo = lo.min(v);
            hi = hi.max(v);
            let s = sext(v, w);
            sl = sl.min(s);
            sh = sh.max(s);
        }
    }
    if lo > hi {
        return None;
    }
    Some(if hi - lo <= (sh - sl) as u128 { Iv::u(lo, hi) } else { Iv::i(sl, sh, w) })
}

/// An interval that contains every value of e on this path.
pub fn range(ar: &Arena, st: &St, c: &mut Cache, e: Ex) -> Iv {
    if c.stamp != st.stamp {
        c.m.clear();
        c.stamp = st.stamp;
    }
    go(ar, st, c, e)
}
fn go(ar: &Arena, st: &St, c: &mut Cache, e: Ex) -> Iv {
    let n = *ar.node(e);
    let w = n.w as u32;
    if n.op == Op::Const {
        return Iv::k(n.k);
    }
    if w > MAXW {
        return if w == 128 { Iv { s: 0, n: u128::MAX } } else { Iv::top(w) };
    }
    if let Some(r) = c.m.get(&e) {
        return *r;
    }
    let mut r = op(ar, st, c, &n);
    if let Some(v) = n.vars.single() {
        if w <= 64 {
            if let Some(t) = ar.table(e) {
                let d = st.dom.get(&v).copied().unwrap_or([u64::MAX; 4]);
                if let Some(x) = from_table(&t, &d, w) {
                    r = x;
                }
            }
        }
    }
    if n.nb < n.w {
        r = r.meet(Iv::u(0, mask(n.nb as u32)), w);
    }
    if let Some(x) = st.rng.get(&e) {
        r = r.meet(*x, w);
    }
    c.m.insert(e, r);
    r
}
fn op(ar: &Arena, st: &St, c: &mut Cache, n: &Node) -> Iv {
    let w = n.w as u32;
    let top = Iv::top(w);
    let m = mask(w);
    macro_rules! g {
        ($x:expr) => {
            go(ar, st, c, $x)
        };
    }
    if !matches!(n.op, Op::Const | Op::Var) && ar.w(n.a) > MAXW {
        return top;
    }
    match n.op {
        Op::Const => Iv::k(n.k),
        Op::Var => top,
        Op::Not => {
            let a = g!(n.a);
            Iv::mk(!(a.s + a.n), a.n, w)
        }
        Op::Add => {
            let (a, b) = (g!(n.a), g!(n.b));
            Iv::mk(a.s + b.s, a.n + b.n, w)
        }
        Op::Mul => {
            let (a, b) = (g!(n.a), g!(n.b));
            let (k, x) = if b.n == 0 { (b.s, a) } else if a.n == 0 { (a.s, b) } else {
                // both vary: exact products of the bounds, if they fit
                let (a, b) = (a.ub(w), b.ub(w));
                return match a.1.checked_mul(b.1) {
                    Some(h) if h <= m => Iv::u(a.0 * b.0, h),
                    _ => top,
                };
            };
            let k = sext(k, w);
            match x.n.checked_mul(k.unsigned_abs()) {
                Some(nn) if nn < m => {
                    let first = if k >= 0 { x.s } else { (x.s + x.n) & m };
                    Iv::mk(first.wrapping_mul(k as u128), nn, w)
                }
                _ => top,
            }
        }
        Op::UDiv => {
            let (a, b) = (g!(n.a).ub(w), g!(n.b).ub(w));
            if b.0 == 0 { return top; }
            Iv::u(a.0 / b.1, a.1 / b.0)
        }
        Op::URem => {
            let (a, b) = (g!(n.a).ub(w), g!(n.b).ub(w));
            if b.0 == 0 { return Iv::u(0, a.1); }
            if b.0 == b.1 && a.0 / b.0 == a.1 / b.0 { return Iv::u(a.0 % b.0, a.1 % b.0); }
            Iv::u(0, a.1.min(b.1 - 1))
        }
        Op::SDiv => {
            let b = g!(n.b).sb(w);
            let a = g!(n.a).sb(w);
            if b.0 != b.1 || b.0 <= 0 { return top; }
            Iv::i(a.0 / b.0, a.1 / b.0, w)
        }
        Op::SRem => {
            let b = g!(n.b).sb(w);
            let a = g!(n.a).sb(w);
            if b.0 != b.1 || b.0 <= 0 { return top; }
            let k = b.0;
            if a.0 / k == a.1 / k && (a.0 >= 0) == (a.1 >= 0) { return Iv::i(a.0 % k, a.1 % k, w); }
            let lo = if a.0 >= 0 { 0 } else { (-(k - 1)).max(a.0) };
            let hi = if a.1 < 0 { 0 } else { (k - 1).min(a.1) };
            Iv::i(lo, hi, w)
        }
        Op::Shl => match ar.cv(n.b) {
            Some(k) if k < w as u128 => {
                let a = g!(n.a);
                let f = 1u128 << k;
                match a.n.checked_mul(f) {
                    Some(nn) if nn < m => Iv::mk(a.s.wrapping_mul(f), nn, w),
                    _ => top,
                }
            }
            _ => top,
        },
        Op::LShr => match ar.cv(n.b) {
            Some(k) if k < w as u128 => {
                let a = g!(n.a).ub(w);
                Iv::u(a.0 >> k, a.1 >> k)
            }
            _ => top,
        },
        Op::AShr => match ar.cv(n.b) {
            Some(k) if k < w as u128 => {
                let a = g!(n.a).sb(w);
                Iv::i(a.0 >> k, a.1 >> k, w)
            }
            _ => top,
        },
        Op::And => {
            if w == 1 {
                let (a, b) = (g!(n.a), g!(n.b));
                if a == Iv::k(0) || b == Iv::k(0) { return Iv::k(0); }
                if a == Iv::k(1) { return b; }
                if b == Iv::k(1) { return a; }
                return top;
            }
            let (a, b) = (g!(n.a).ub(w), g!(n.b).ub(w));
            Iv::u(0, a.1.min(b.1))
        }
        Op::Or => {
            if w == 1 {
                let (a, b) = (g!(n.a), g!(n.b));
                if a == Iv::k(1) || b == Iv::k(1) { return Iv::k(1); }
                if a == Iv::k(0) { return b; }
                if b == Iv::k(0) { return a; }
                return top;
            }
            let (a, b) = (g!(n.a).ub(w), g!(n.b).ub(w));
            let x = a.1 | b.1;
            let h = if x == 0 { 0 } else { mask(128 - x.leading_zeros()) };
            Iv::u(a.0.max(b.0), h)
        }
        Op::Xor => {
            if w == 1 {
                let (a, b) = (g!(n.a), g!(n.b));
                return if a.n == 0 && b.n == 0 { Iv::k(a.s ^ b.s) } else { top };
            }
            let (a, b) = (g!(n.a).ub(w), g!(n.b).ub(w));
            let x = a.1 | b.1;
            let h = if x == 0 { 0 } else { mask(128 - x.leading_zeros()) };
            Iv::u(0, h)
        }
        Op::Eq => {
            let aw = ar.w(n.a);
            let (a, b) = (g!(n.a), g!(n.b));
            if a.n == 0 && b.n == 0 { return Iv::k((a.s == b.s) as u128); }
            let (x, y) = (a.ub(aw), b.ub(aw));
            if x.1 < y.0 || y.1 < x.0 { return Iv::k(0); }
            let (x, y) = (a.sb(aw), b.sb(aw));
            if x.1 < y.0 || y.1 < x.0 { return Iv::k(0); }
            top
        }
        Op::Ult => {
            let aw = ar.w(n.a);
            let (a, b) = (g!(n.a).ub(aw), g!(n.b).ub(aw));
            if a.1 < b.0 { Iv::k(1) } else if a.0 >= b.1 { Iv::k(0) } else { top }
        }
        Op::Slt => {
            let aw = ar.w(n.a);
            let (a, b) = (g!(n.a).sb(aw), g!(n.b).sb(aw));
            if a.1 < b.0 { Iv::k(1) } else if a.0 >= b.1 { Iv::k(0) } else { top }
        }
        Op::Ite => {
            let k = g!(n.a);
            if k == Iv::k(1) { return g!(n.b); }
            if k == Iv::k(0) { return g!(n.c); }
            let (a, b) = (g!(n.b), g!(n.c));
            a.hull(b, w)
        }
        Op::Concat => {
            let bw = ar.w(n.b);
            let (a, b) = (g!(n.a).ub(ar.w(n.a)), g!(n.b).ub(bw));
            Iv::u((a.0 << bw) + b.0, (a.1 << bw) + b.1)
        }
        Op::Extract => {
            let lo = n.c;
            let aw = ar.w(n.a);
            let a = g!(n.a);
            if lo == 0 {
                return Iv::mk(a.s, a.n, w);
            }
            if aw == lo + w {
                let a = a.ub(aw);
                return Iv::u(a.0 >> lo, a.1 >> lo);
            }
            let a = a.ub(aw);
            Iv::mk(a.0 >> lo, (a.1 >> lo) - (a.0 >> lo), w)
        }
        Op::ZExt => {
            let a = g!(n.a).ub(ar.w(n.a));
            Iv::u(a.0, a.1)
        }
        Op::SExt => {
            let a = g!(n.a).sb(ar.w(n.a));
            Iv::i(a.0, a.1, w)
        }
    }
}
/// What a fact about a comparison says about its operands.
pub fn facts(ar: &Arena, st: &St, c: &mut Cache, e: Ex, v: bool, out: &mut Vec<(Ex, Iv)>) {
    let n = *ar.node(e);
    if n.w == 1 && n.op == Op::Extract {
        // the sign
        let w = ar.w(n.a);
        if w <= MAXW && n.c as u32 == w - 1 && w > 1 {
            let h = 1u128 << (w - 1);
            let i = if v { Iv::u(h, mask(w)) } else { Iv::u(0, h - 1) };
            let old = range(ar, st, c, n.a);
            push(ar, n.a, i.meet(old, w), out);
        }
        return;
    }
    if n.w != 1 || !matches!(n.op, Op::Eq | Op::Ult | Op::Slt) {
        return;
    }
    let w = ar.w(n.a);
    if w > MAXW {
        return;
    }
    let (a, b) = (range(ar, st, c, n.a), range(ar, st, c, n.b));
    let m = mask(w);
    let mut put = |x: Ex, i: Iv| {
        if ar.cv(x).is_none() {
            let old = if x == n.a { a } else { b };
            push(ar, x, i.meet(old, w), out)
        }
    };
    match (n.op, v) {
        (Op::Eq, true) => {
            put(n.a, b);
            put(n.b, a);
        }
        (Op::Eq, false) => {
            let cut = |x: Iv, k: u128| {
                if x.n == 0 { x } else if x.s == k { Iv { s: (x.s + 1) & m, n: x.n - 1 } } else if (x.s + x.n) & m == k { Iv { s: x.s, n: x.n - 1 } } else { x }
            };
            if b.n == 0 {
                put(n.a, cut(a, b.s));
            }
            if a.n == 0 {
                put(n.b, cut(b, a.s));
            }
        }
        (Op::Ult, true) => {
            let (x, y) = (a.ub(w), b.ub(w));
            if y.1 > 0 { put(n.a, Iv::u(0, y.1 - 1)); }
            if x.0 < m { put(n.b, Iv::u(x.0 + 1, m)); }
        }
        (Op::Ult, false) => {
            let (x, y) = (a.ub(w), b.ub(w));
            put(n.a, Iv::u(y.0, m));
            put(n.b, Iv::u(0, x.1));
        }
        (Op::Slt, true) => {
            let (x, y) = (a.sb(w), b.sb(w));
            if y.1 > smin(w) { put(n.a, Iv::i(smin(w), y.1 - 1, w)); }
            if x.0 < smax(w) { put(n.b, Iv::i(x.0 + 1, smax(w), w)); }
        }
        (Op::Slt, false) => {
            let (x, y) = (a.sb(w), b.sb(w));
            put(n.a, Iv::i(y.0, smax(w), w));
            put(n.b, Iv::i(smin(w), x.1, w));
        }
        _ => {}
    }
}
fn push(ar: &Arena, x: Ex, i: Iv, out: &mut Vec<(Ex, Iv)>) {
    let n = *ar.node(x);
    let w = n.w as u32;
    if i.n >= mask(w) {
        return;
    }
    out.push((x, i));
    match n.op {
        Op::Add => {
            if let Some(k) = ar.cv(n.b) {
                push(ar, n.a, Iv { s: i.s.wrapping_sub(k) & mask(w), n: i.n }, out)
            } else if let Some(k) = ar.cv(n.a) {
                push(ar, n.b, Iv { s: i.s.wrapping_sub(k) & mask(w), n: i.n }, out)
            }
        }
        Op::Extract if n.c == 0 => {
            let a = n.a;
            // a sum cut to the bits it can have
            if ar.nb(a) <= w {
                push(ar, a, Iv::u(i.ub(w).0, i.ub(w).1), out)
            }
        }
        Op::Not => push(ar, n.a, Iv { s: !(i.s + i.n) & mask(w), n: i.n }, out),
        Op::ZExt => {
            let aw = ar.w(n.a);
            let b = i.ub(w);
            if b.0 <= mask(aw) {
                push(ar, n.a, Iv::u(b.0, b.1.min(mask(aw))), out)
            }
        }
        Op::SExt => {
            let aw = ar.w(n.a);
            let b = i.sb(w);
            let (lo, hi) = (b.0.max(smin(aw)), b.1.min(smax(aw)));
            if lo <= hi {
                push(ar, n.a, Iv::i(lo, hi, aw), out)
            }
        }
        _ => {}
    }
}

/// Random terms: the simplifier and the intervals agree with evaluation.
#[cfg(test)]
mod tests {
    use super::*;
    use std::rc::Rc;
    struct Rng(u64);
    impl Rng {
        fn next(&mut self) -> u64 {
            self.0 ^= self.0 << 13;
            self.0 ^= self.0 >> 7;
            self.0 ^= self.0 << 17;
            self.0
        }
        fn below(&mut self, n: u64) -> u64 {
            (self.next() >> 11) % n
        }
    }
    #[test]
    fn random_terms() {
        let seed = std::env::var("SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1u64);
        let rounds = std::env::var("ROUNDS").ok().and_then(|v| v.parse().ok()).unwrap_or(3000u64);
        let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) | 1);
        for _ in 0..rounds {
            let mut ar = Arena::default();
            let mut st = crate::exec::St::blank();
            let ws = [8, 8, 8, 16, 32];
            let vars: Vec<Ex> = ws.iter().enumerate().map(|(i, w)| ar.var(&format!("v{i}"), *w)).collect();
            let mut lim = vec![];
            for (i, w) in ws.iter().enumerate() {
                let (mut lo, mut hi) = (0, mask(*w) as u64);
                if r.below(2) == 0 {
                    lo = if r.below(2) == 0 { 48 } else { r.below(200) };
                    hi = lo + r.below(20);
                    if *w == 8 {
                        let mut d = [0u64; 4];
                        for k in lo..=hi {
                            d[k as usize / 64] |= 1 << (k % 64);
                        }
                        Rc::make_mut(&mut st.dom).insert(i as u32, d);
                    } else {
                        Rc::make_mut(&mut st.rng).insert(vars[i], Iv::u(lo as u128, hi as u128));
                    }
                }
                lim.push((lo, hi));
            }
            st.stamp = 1;
            let mut models: Vec<Vec<u128>> = (0..12)
                .map(|_| lim.iter().map(|(lo, hi)| match r.below(4) { 0 => *lo, 1 => *hi, _ => lo + r.below(hi - lo + 1) } as u128).collect())
                .collect();
            let mut pool: Vec<Ex> = vars.clone();
            let mut ops = vec![];
            for _ in 0..40 {
                let a = pool[if r.below(2) == 0 { pool.len() - 1 } else { r.below(pool.len() as u64) as usize }];
                let w = ar.w(a);
                let mut b = if r.below(2) == 0 { pool[r.below(pool.len() as u64) as usize] } else {
                    let k = match r.below(6) { 0 => r.below(4), 1 => 1 << r.below(20), 2 => (1u64 << r.below(20)) - 1, 3 => (r.below(100)).wrapping_neg(), 4 => 48u64.wrapping_neg(), _ => r.below(1000) };
                    ar.c(k as u128, w)
                };
                if ar.w(b) != w {
                    b = if ar.w(b) < w && r.below(3) == 0 { ar.sext(b, w) } else { ar.zresize(b, w) };
                }
                let va: Vec<u128> = models.iter().map(|m| ar.eval(a, m, &mut Map::default())).collect();
                let vb: Vec<u128> = models.iter().map(|m| ar.eval(b, m, &mut Map::default())).collect();
                let m = mask(w);
                let mut k = r.below(22);
                if matches!(k, 8 | 9) && vb.contains(&0) {
                    k = 0; // never executed
                }
                let (e, f): (Ex, Box<dyn Fn(u128, u128) -> u128>) = match k {
                    0 | 1 => (ar.add(a, b), Box::new(move |x, y| x.wrapping_add(y) & m)),
                    2 => (ar.sub(a, b), Box::new(move |x, y| x.wrapping_sub(y) & m)),
                    3 | 4 => (ar.mul(a, b), Box::new(move |x, y| x.wrapping_mul(y) & m)),
                    5 => (ar.and(a, b), Box::new(|x, y| x & y)),
                    6 => (ar.or(a, b), Box::new(|x, y| x | y)),
                    7 => (ar.xor(a, b), Box::new(|x, y| x ^ y)),
                    8 => (ar.udiv(a, b), Box::new(move |x, y| if y == 0 { m } else { x / y })),
                    9 => (ar.urem(a, b), Box::new(|x, y| if y == 0 { x } else { x % y })),
                    10 => (ar.eq(a, b), Box::new(|x, y| (x == y) as u128)),
                    11 => (ar.ult(a, b), Box::new(|x, y| (x < y) as u128)),
                    12 => (ar.slt(a, b), Box::new(move |x, y| (sext(x, w) < sext(y, w)) as u128)),
                    13 | 14 => {
                        let w2 = (w + r.below(24) as u32).min(64);
                        (ar.zext(a, w2), Box::new(|x, _| x))
                    }
                    15 => {
                        let w2 = (w + r.below(24) as u32).min(64);
                        (ar.sext(a, w2), Box::new(move |x, _| sext(x, w) as u128 & mask(w2)))
                    }
                    16 => {
                        let lo = if r.below(2) == 0 { 0 } else { r.below(w as u64) as u32 };
                        let hi = lo + r.below((w - lo) as u64) as u32;
                        (ar.extract(a, hi, lo), Box::new(move |x, _| x >> lo & mask(hi - lo + 1)))
                    }
                    17 if w <= 32 => (ar.concat(a, b), Box::new(move |x, y| x << w | y)),
                    18 => {
                        let s = r.below(w as u64) as u32;
                        (ar.shl_k(a, s), Box::new(move |x, _| x << s & m))
                    }
                    19 => {
                        let s = r.below(w as u64) as u32;
                        (ar.lshr_k(a, s), Box::new(move |x, _| x >> s))
                    }
                    20 => {
                        let c = ar.ult(a, b);
                        (ar.ite(c, a, b), Box::new(|x, y| x.min(y)))
                    }
                    _ => (ar.not(a), Box::new(move |x, _| !x & m)),
                };
                ops.push(format!("{k}: {} , {} => {}", ar.show(a, 9), ar.show(b, 9), ar.show(e, 9)));
                let iv = range(&ar, &st, &mut Cache::default(), e);
                for (j, md) in models.iter().enumerate() {
                    let (want, got) = (f(va[j], vb[j]), ar.eval(e, md, &mut Map::default()));
                    assert_eq!(want, got, "{} under {md:?}", ops.last().unwrap());
                    assert!(bits_of(got) <= ar.nb(e), "bound of {}", ops.last().unwrap());
                    assert!(got.wrapping_sub(iv.s) & mask(ar.w(e)) <= iv.n, "interval {iv:?} of {} under {md:?}", ops.last().unwrap());
                }
                if ar.cv(e).is_none() {
                    pool.push(e);
                }
                // take a comparison as a fact
                if ar.w(e) == 1 && ar.cv(e).is_none() && r.below(3) == 0 {
                    let v = ar.eval(e, &models[0], &mut Map::default());
                    let mut fs = vec![];
                    facts(&ar, &st, &mut Cache::default(), e, v == 1, &mut fs);
                    models.retain(|m| ar.eval(e, m, &mut Map::default()) == v);
                    for (x, i) in fs {
                        for md in &models {
                            let got = ar.eval(x, md, &mut Map::default());
                            assert!(got.wrapping_sub(i.s) & mask(ar.w(x)) <= i.n, "fact {i:?} on {} from {}", ar.show(x, 9), ops.last().unwrap());
                        }
                        Rc::make_mut(&mut st.rng).insert(x, i);
                    }
                    st.stamp += 1;
                }
            }
        }
    }
    fn bits_of(v: u128) -> u32 {
        128 - v.leading_zeros()
    }
}
