//! Hash-consed bit-vector terms (width 1..=128) with local simplification.
//! A term is an index into a thread-local arena; width-1 terms double as booleans.
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Fx {
    fn add(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
}
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ self.0 >> 29
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0; 8];
            x[..c.len()].copy_from_slice(c);
            self.add(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.add(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.add(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.add(x)
    }
    fn write_u128(&mut self, x: u128) {
        self.add(x as u64);
        self.add((x >> 64) as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.add(x as u64)
    }
}
pub type Map<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type Ex = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Not,
    And,
    Or,
    Xor,
    Add,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract, // low bit in c
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Key {
    op: Op,
    w: u8,
    a: u32,
    b: u32,
    c: u32,
    k: u128,
}

pub const VARWORDS: usize = 4;
#[derive(Clone, Copy, PartialEq, Eq, Default, Debug)]
pub struct VarSet(pub [u64; VARWORDS]);
impl VarSet {
    pub fn or(self, o: VarSet) -> VarSet {
        let mut r = self;
        for i in 0..VARWORDS {
            r.0[i] |= o.0[i];
        }
        r
    }
    pub fn meets(self, o: VarSet) -> bool {
        (0..VARWORDS).any(|i| self.0[i] & o.0[i] != 0)
    }
    pub fn has(self, v: u32) -> bool {
        self.0[v as usize / 64] >> (v % 64) & 1 == 1
    }
    /// the only member, if there is exactly one
    pub fn single(self) -> Option<u32> {
        let mut r = None;
        for (i, w) in self.0.iter().enumerate() {
            if *w != 0 {
                if r.is_some() || w & (w - 1) != 0 {
                    return None;
                }
                r = Some(i as u32 * 64 + w.trailing_zeros());
            }
        }
        r
    }
    pub fn empty(self) -> bool {
        self.0.iter().all(|x| *x == 0)
    }
}

#[derive(Clone, Copy)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub nb: u8, // upper bound on the number of significant bits (unsigned)
    pub a: Ex,
    pub b: Ex,
    pub c: Ex,
    pub k: u128,
    pub vars: VarSet,
}

#[derive(Default)]
pub struct Arena {
    pub n: Vec<Node>,
    map: Map<Key, Ex>,
    tables: RefCell<Map<Ex, Option<Rc<[u64]>>>>,
    var_terms: Vec<Ex>,
    pub var_names: Vec<String>,
    var_ids: HashMap<String, Ex>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}
fn bits(v: u128) -> u8 {
    (128 - v.leading_zeros()) as u8
}

impl Arena {
    pub fn node(&self, e: Ex) -> &Node {
        &self.n[e as usize]
    }
    pub fn w(&self, e: Ex) -> u32 {
        self.n[e as usize].w as u32
    }
    pub fn nb(&self, e: Ex) -> u32 {
        self.n[e as usize].nb as u32
    }
    pub fn cv(&self, e: Ex) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn raw(&mut self, op: Op, w: u32, a: Ex, b: Ex, c: Ex, k: u128) -> Ex {
        debug_assert!(w >= 1 && w <= 128, "{op:?} {w}");
        let key = Key { op, w: w as u8, a, b, c, k };
        if let Some(e) = self.map.get(&key) {
            return *e;
        }
        let (nargs, _) = arity(op);
        let mut vars = VarSet::default();
        let args = [a, b, c];
        for x in args.iter().take(nargs) {
            vars = vars.or(self.n[*x as usize].vars);
        }
        if op == Op::Var {
            vars.0[k as usize / 64] |= 1 << (k % 64);
        }
        let nbf = |e: Ex| self.n[e as usize].nb;
        let wf = |e: Ex| self.n[e as usize].w;
        let w8 = w as u8;
        let nb = match op {
            Op::Const => bits(k),
            Op::And => nbf(a).min(nbf(b)),
            Op::Or | Op::Xor => nbf(a).max(nbf(b)),
            Op::Add => (nbf(a).max(nbf(b)) + 1).min(w8),
            Op::Mul => (nbf(a) as u32 + nbf(b) as u32).min(w) as u8,
            Op::UDiv => {
                let d = self.cv(b).filter(|d| *d != 0);
                match d {
                    Some(d) => bits(if nbf(a) == 0 { 0 } else { mask(nbf(a) as u32) / d }),
                    None => w8,
                }
            }
            Op::URem => match self.cv(b).filter(|d| *d != 0) {
                Some(d) => nbf(a).min(bits(d - 1)),
                None => nbf(a),
            },
            Op::LShr => nbf(a),
            Op::Ite => nbf(b).max(nbf(c)),
            Op::Concat => {
                if nbf(a) == 0 {
                    nbf(b)
                } else {
                    nbf(a) + wf(b)
                }
            }
            Op::Extract => {
                let lo = c as u8;
                nbf(a).saturating_sub(lo).min(w8)
            }
            Op::ZExt => nbf(a),
            Op::SExt => {
                if nbf(a) < wf(a) {
                    nbf(a)
                } else {
                    w8
                }
            }
            _ => w8,
        };
        let e = self.n.len() as Ex;
        self.n.push(Node { op, w: w8, nb, a, b, c, k, vars });
        self.map.insert(key, e);
        e
    }
    pub fn c(&mut self, k: u128, w: u32) -> Ex {
        self.raw(Op::Const, w, 0, 0, 0, k & mask(w))
    }
    pub fn tru(&mut self) -> Ex {
        self.c(1, 1)
    }
    pub fn fls(&mut self) -> Ex {
        self.c(0, 1)
    }
    pub fn var(&mut self, name: &str, w: u32) -> Ex {
        if let Some(e) = self.var_ids.get(name) {
            return *e;
        }
        let id = self.var_names.len();
        assert!(id < VARWORDS * 64, "too many symbolic variables");
        self.var_names.push(name.to_string());
        let e = self.raw(Op::Var, w, 0, 0, 0, id as u128);
        self.var_terms.push(e);
        self.var_ids.insert(name.to_string(), e);
        e
    }
    pub fn var_term(&self, id: u32) -> Ex {
        self.var_terms[id as usize]
    }
    pub fn not(&mut self, a: Ex) -> Ex {
        let n = *self.node(a);
        let w = n.w as u32;
        match n.op {
            Op::Const => return self.c(!n.k, w),
            Op::Not => return n.a,
            _ => {}
        }
        self.raw(Op::Not, w, a, 0, 0, 0)
    }
    /// low k bits of a, as width k
    pub fn trunc(&mut self, a: Ex, k: u32) -> Ex {
        self.extract(a, k - 1, 0)
    }
    pub fn zext(&mut self, a: Ex, w: u32) -> Ex {
        let n = *self.node(a);
        if n.w as u32 == w {
            return a;
        }
        debug_assert!(w > n.w as u32);
        match n.op {
            Op::Const => self.c(n.k, w),
            Op::ZExt => self.zext(n.a, w),
            _ => self.raw(Op::ZExt, w, a, 0, 0, 0),
        }
    }
    pub fn sext(&mut self, a: Ex, w: u32) -> Ex {
        let n = *self.node(a);
        let aw = n.w as u32;
        if aw == w {
            return a;
        }
        if n.op == Op::Const {
            return self.c(sext(n.k, aw) as u128, w);
        }
        if (n.nb as u32) < aw {
            return self.zext(a, w);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        self.raw(Op::SExt, w, a, 0, 0, 0)
    }
    /// resize to w, zero-extending or truncating
    pub fn zresize(&mut self, a: Ex, w: u32) -> Ex {
        let aw = self.w(a);
        if aw < w {
            self.zext(a, w)
        } else if aw > w {
            self.trunc(a, w)
        } else {
            a
        }
    }
    pub fn extract(&mut self, a: Ex, hi: u32, lo: u32) -> Ex {
        let n = *self.node(a);
        let aw = n.w as u32;
        let w = hi - lo + 1;
        if w == aw {
            return a;
        }
        if lo >= n.nb as u32 {
            return self.c(0, w);
        }
        match n.op {
            Op::Const => return self.c(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, hi + n.c, lo + n.c),
            Op::Concat => {
                let bw = self.w(n.b);
                if hi < bw {
                    return self.extract(n.b, hi, lo);
                }
                if lo >= bw {
                    return self.extract(n.a, hi - bw, lo - bw);
                }
                let h = self.extract(n.a, hi - bw, 0);
                let l = self.extract(n.b, bw - 1, lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if hi < iw {
                    return self.extract(n.a, hi, lo);
                }
                if lo >= iw {
                    return self.c(0, w);
                }
                let l = self.extract(n.a, iw - 1, lo);
                return self.zext(l, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if hi < iw {
                    return self.extract(n.a, hi, lo);
                }
                if lo < iw {
                    let l = self.extract(n.a, iw - 1, lo);
                    return self.sext(l, w);
                }
            }
            Op::Ite => {
                if self.cv(n.b).is_some() || self.cv(n.c).is_some() || w == 1 {
                    let x = self.extract(n.b, hi, lo);
                    let y = self.extract(n.c, hi, lo);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                return self.and(x, y);
            }
            Op::Or => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                return self.or(x, y);
            }
            Op::Xor => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                return self.xor(x, y);
            }
            Op::Not => {
                let x = self.extract(n.a, hi, lo);
                return self.not(x);
            }
            Op::Add if lo == 0 => {
                let x = self.extract(n.a, hi, 0);
                let y = self.extract(n.b, hi, 0);
                return self.add(x, y);
            }
            // no carry comes from bits that one side does not have
            Op::Add if self.cv(n.b).is_some_and(|c| c & mask(lo) == 0) => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                return self.add(x, y);
            }
            Op::Mul if lo == 0 => {
                let x = self.extract(n.a, hi, 0);
                let y = self.extract(n.b, hi, 0);
                return self.mul(x, y);
            }
            _ => {}
        }
        self.raw(Op::Extract, w, a, 0, lo, 0)
    }
    pub fn concat(&mut self, a: Ex, b: Ex) -> Ex {
        let (na, nb) = (*self.node(a), *self.node(b));
        let (wa, wb) = (na.w as u32, nb.w as u32);
        let w = wa + wb;
        debug_assert!(w <= 128);
        if na.op == Op::Const && nb.op == Op::Const {
            return self.c(na.k << wb | nb.k, w);
        }
        if na.op == Op::Const && na.k == 0 {
            return self.zext(b, w);
        }
        // extract(x,h,m) ++ extract(x,m-1,l)
        let (xa, la) = if na.op == Op::Extract { (na.a, na.c) } else { (a, 0) };
        let (xb, lb) = if nb.op == Op::Extract { (nb.a, nb.c) } else { (b, 0) };
        if xa == xb && la == lb + wb {
            return self.extract(xa, la + wa - 1, lb);
        }
        // the low part of a sum simplifies to another term than an extract
        if na.op == Op::Extract && la == wb && matches!(self.node(xa).op, Op::Add | Op::Mul | Op::ZExt | Op::Ite | Op::Concat) {
            let l = self.extract(xa, wb - 1, 0);
            if l == b {
                return self.extract(xa, la + wa - 1, 0);
            }
        }
        if nb.op == Op::Concat {
            // a ++ (b1 ++ b2): join a with b1 when they are adjacent
            let nb1 = *self.node(nb.a);
            let w1 = nb1.w as u32;
            let (x1, l1) = if nb1.op == Op::Extract { (nb1.a, nb1.c) } else { (nb.a, 0) };
            if (xa == x1 && la == l1 + w1) || (na.op == Op::Const && nb1.op == Op::Const) {
                let j = self.concat(a, nb.a);
                return self.concat(j, nb.b);
            }
        }
        if na.op == Op::Concat {
            let inner = self.node(na.b);
            let (iw, iop, ia, ic) = (inner.w as u32, inner.op, inner.a, inner.c);
            let (xi, li) = if iop == Op::Extract { (ia, ic) } else { (na.b, 0) };
            if (xi == xb && li == lb + wb) || (iop == Op::Const && nb.op == Op::Const) {
                let _ = iw;
                let j = self.concat(na.b, b);
                return self.concat(na.a, j);
            }
        }
        if na.op == Op::ZExt {
            let x = self.concat(na.a, b);
            return self.zext(x, w);
        }
        self.raw(Op::Concat, w, a, b, 0, 0)
    }
    fn comm(&self, a: Ex, b: Ex) -> (Ex, Ex) {
        // constants to the right, otherwise by index
        match (self.cv(a).is_some(), self.cv(b).is_some()) {
            (true, false) => (b, a),
            (false, true) => (a, b),
            _ => {
                if a <= b {
                    (a, b)
                } else {
                    (b, a)
                }
            }
        }
    }
    pub fn and(&mut self, a: Ex, b: Ex) -> Ex {
        let (a, b) = self.comm(a, b);
        if a == b {
            return a;
        }
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.c(x & k, w);
            }
            if k == 0 {
                return b;
            }
            if k == mask(w) {
                return a;
            }
            let n = *self.node(a);
            // low mask
            if k & (k + 1) == 0 {
                let kb = bits(k) as u32;
                if kb >= n.nb as u32 {
                    return a;
                }
                let l = self.extract(a, kb - 1, 0);
                return self.zext(l, w);
            }
            // contiguous mask  0..01..10..0
            let tz = k.trailing_zeros();
            let kk = k >> tz;
            if kk & (kk + 1) == 0 {
                let kb = bits(kk) as u32;
                let m = self.extract(a, tz + kb - 1, tz);
                let z = self.c(0, tz);
                let x = self.concat(m, z);
                return self.zext(x, w);
            }
            match n.op {
                Op::And => {
                    if let Some(k2) = self.cv(n.b) {
                        let kk = self.c(k & k2, w);
                        return self.and(n.a, kk);
                    }
                }
                Op::ZExt => {
                    let iw = self.w(n.a);
                    let kk = self.c(k, iw);
                    let x = self.and(n.a, kk);
                    return self.zext(x, w);
                }
                Op::Ite if self.cv(n.b).is_some() || self.cv(n.c).is_some() => {
                    let x = self.and(n.b, b);
                    let y = self.and(n.c, b);
                    return self.ite(n.a, x, y);
                }
                _ => {}
            }
        }
        if w == 1 {
            let (na, nb) = (*self.node(a), *self.node(b));
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                return self.fls();
            }
        }
        if let (Op::ZExt, Op::ZExt) = (self.node(a).op, self.node(b).op) {
            let (ia, ib) = (self.node(a).a, self.node(b).a);
            let m = self.w(ia).min(self.w(ib));
            let x = self.zresize(ia, m);
            let y = self.zresize(ib, m);
            let r = self.and(x, y);
            return self.zext(r, w);
        }
        self.raw(Op::And, w, a, b, 0, 0)
    }
    pub fn or(&mut self, a: Ex, b: Ex) -> Ex {
        let (a, b) = self.comm(a, b);
        if a == b {
            return a;
        }
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.c(x | k, w);
            }
            if k == 0 {
                return a;
            }
            if k == mask(w) {
                return b;
            }
            let n = *self.node(a);
            if n.op == Op::Ite && (self.cv(n.b).is_some() || self.cv(n.c).is_some()) {
                let x = self.or(n.b, b);
                let y = self.or(n.c, b);
                return self.ite(n.a, x, y);
            }
        }
        if w == 1 {
            let (na, nb) = (*self.node(a), *self.node(b));
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                return self.tru();
            }
        } else {
            // disjoint parts join into a concatenation
            for (x, y) in [(a, b), (b, a)] {
                let ny = self.nb(y);
                let (tz, hi) = self.low_zeros(x);
                if tz > 0 && tz >= ny && tz < w {
                    let l = self.extract(y, tz - 1, 0);
                    let r = self.concat(hi, l);
                    return self.zresize(r, w);
                }
            }
        }
        if let (Op::ZExt, Op::ZExt) = (self.node(a).op, self.node(b).op) {
            let (ia, ib) = (self.node(a).a, self.node(b).a);
            let m = self.w(ia).max(self.w(ib));
            let x = self.zresize(ia, m);
            let y = self.zresize(ib, m);
            let r = self.or(x, y);
            return self.zext(r, w);
        }
        self.raw(Op::Or, w, a, b, 0, 0)
    }
    /// (k, x >> k) when the low k bits of x are known zero through a Concat with 0
    fn low_zeros(&mut self, x: Ex) -> (u32, Ex) {
        let n = *self.node(x);
        match n.op {
            Op::Concat => {
                if self.cv(n.b) == Some(0) {
                    return (self.w(n.b), n.a);
                }
                (0, x)
            }
            Op::ZExt => self.low_zeros(n.a),
            Op::Const if n.k != 0 => {
                let tz = n.k.trailing_zeros();
                if tz == 0 {
                    return (0, x);
                }
                let w = n.w as u32;
                let h = self.extract(x, w - 1, tz);
                (tz, h)
            }
            _ => (0, x),
        }
    }
    pub fn xor(&mut self, a: Ex, b: Ex) -> Ex {
        let (a, b) = self.comm(a, b);
        let w = self.w(a);
        if a == b {
            return self.c(0, w);
        }
        if let Some(k) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.c(x ^ k, w);
            }
            if k == 0 {
                return a;
            }
            if k == mask(w) {
                return self.not(a);
            }
            let n = *self.node(a);
            if n.op == Op::Xor {
                if let Some(k2) = self.cv(n.b) {
                    let kk = self.c(k ^ k2, w);
                    return self.xor(n.a, kk);
                }
            }
            if n.op == Op::ZExt && bits(k) as u32 <= self.w(n.a) {
                let iw = self.w(n.a);
                let kk = self.c(k, iw);
                let x = self.xor(n.a, kk);
                return self.zext(x, w);
            }
            if n.op == Op::Ite && (self.cv(n.b).is_some() || self.cv(n.c).is_some()) {
                let x = self.xor(n.b, b);
                let y = self.xor(n.c, b);
                return self.ite(n.a, x, y);
            }
        }
        self.raw(Op::Xor, w, a, b, 0, 0)
    }
    pub fn add(&mut self, a: Ex, b: Ex) -> Ex {
        let (a, b) = self.comm(a, b);
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.c(x.wrapping_add(k), w);
            }
            if k == 0 {
                return a;
            }
            let n = *self.node(a);
            if n.op == Op::Add {
                if let Some(k2) = self.cv(n.b) {
                    let kk = self.c(k.wrapping_add(k2), w);
                    return self.add(n.a, kk);
                }
            }
            if n.op == Op::Ite && (self.cv(n.b).is_some() && self.cv(n.c).is_some()) {
                let x = self.add(n.b, b);
                let y = self.add(n.c, b);
                return self.ite(n.a, x, y);
            }
        } else {
            // pull constants outward
            for (x, y) in [(a, b), (b, a)] {
                let n = *self.node(x);
                if n.op == Op::Add && self.cv(n.b).is_some() {
                    let s = self.add(n.a, y);
                    return self.add(s, n.b);
                }
                // y + not(y)+1 handled through sub
            }
            // x + (-x) cancels: -x is represented as Mul(x, -1)
            for (x, y) in [(a, b), (b, a)] {
                let n = *self.node(y);
                if n.op == Op::Mul && n.a == x && self.cv(n.b) == Some(mask(w)) {
                    return self.c(0, w);
                }
            }
        }
        let m = self.nb(a).max(self.nb(b)) + 1;
        if m < w {
            let x = self.zresize(a, m);
            let y = self.zresize(b, m);
            let r = self.raw_add(x, y, m);
            return self.zext(r, w);
        }
        self.raw_add(a, b, w)
    }
    fn raw_add(&mut self, a: Ex, b: Ex, w: u32) -> Ex {
        let (a, b) = self.comm(a, b);
        self.raw(Op::Add, w, a, b, 0, 0)
    }
    pub fn neg(&mut self, a: Ex) -> Ex {
        let w = self.w(a);
        let m = self.c(mask(w), w);
        self.mul(a, m)
    }
    pub fn sub(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if a == b {
            return self.c(0, w);
        }
        if let Some(k) = self.cv(b) {
            let nk = self.c((!k).wrapping_add(1), w);
            return self.add(a, nk);
        }
        // (x + c) - x
        let na = *self.node(a);
        if na.op == Op::Add && na.a == b {
            return na.b;
        }
        if na.op == Op::Add && na.b == b {
            return na.a;
        }
        let nbn = *self.node(b);
        if nbn.op == Op::Add && nbn.a == a {
            return self.neg(nbn.b);
        }
        if na.op == Op::Add && nbn.op == Op::Add {
            if let (Some(x), Some(y)) = (self.cv(na.b), self.cv(nbn.b)) {
                let d = self.sub(na.a, nbn.a);
                let k = self.c(x.wrapping_sub(y), w);
                return self.add(d, k);
            }
        }
        let n = self.neg(b);
        self.add(a, n)
    }
    pub fn mul(&mut self, a: Ex, b: Ex) -> Ex {
        let (a, b) = self.comm(a, b);
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.c(x.wrapping_mul(k), w);
            }
            if k == 0 {
                return b;
            }
            if k == 1 {
                return a;
            }
            if k & (k - 1) == 0 {
                let s = k.trailing_zeros();
                return self.shl_k(a, s);
            }
            let n = *self.node(a);
            if n.op == Op::Mul {
                if let Some(k2) = self.cv(n.b) {
                    let kk = self.c(k.wrapping_mul(k2), w);
                    return self.mul(n.a, kk);
                }
            }
            if n.op == Op::Ite && (self.cv(n.b).is_some() && self.cv(n.c).is_some()) {
                let x = self.mul(n.b, b);
                let y = self.mul(n.c, b);
                return self.ite(n.a, x, y);
            }
            if n.op == Op::Add && k == mask(w) {
                // -(x + c) = -x - c
                if self.cv(n.b).is_some() {
                    let x = self.mul(n.a, b);
                    let y = self.mul(n.b, b);
                    return self.add(x, y);
                }
            }
        }
        let m = self.nb(a) + self.nb(b);
        if m < w && m > 0 {
            let x = self.zresize(a, m);
            let y = self.zresize(b, m);
            let (x, y) = self.comm(x, y);
            let r = self.raw(Op::Mul, m, x, y, 0, 0);
            return self.zext(r, w);
        }
        self.raw(Op::Mul, w, a, b, 0, 0)
    }
    pub fn shl_k(&mut self, a: Ex, s: u32) -> Ex {
        let w = self.w(a);
        if s == 0 {
            return a;
        }
        if s >= w {
            return self.c(0, w);
        }
        let hi = self.extract(a, w - s - 1, 0);
        let z = self.c(0, s);
        self.concat(hi, z)
    }
    pub fn lshr_k(&mut self, a: Ex, s: u32) -> Ex {
        let w = self.w(a);
        if s == 0 {
            return a;
        }
        if s >= w {
            return self.c(0, w);
        }
        let x = self.extract(a, w - 1, s);
        self.zext(x, w)
    }
    pub fn shl(&mut self, a: Ex, b: Ex) -> Ex {
        if let Some(k) = self.cv(b) {
            return self.shl_k(a, k.min(255) as u32);
        }
        let w = self.w(a);
        self.raw(Op::Shl, w, a, b, 0, 0)
    }
    pub fn lshr(&mut self, a: Ex, b: Ex) -> Ex {
        if let Some(k) = self.cv(b) {
            return self.lshr_k(a, k.min(255) as u32);
        }
        let w = self.w(a);
        self.raw(Op::LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            let s = (k.min(255) as u32).min(w - 1);
            if s == 0 {
                return a;
            }
            let x = self.extract(a, w - 1, s);
            return self.sext(x, w);
        }
        if self.nb(a) < w {
            return self.lshr(a, b);
        }
        self.raw(Op::AShr, w, a, b, 0, 0)
    }
    pub fn udiv(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k != 0 {
                if let Some(x) = self.cv(a) {
                    return self.c(x / k, w);
                }
                if k & (k - 1) == 0 {
                    return self.lshr_k(a, k.trailing_zeros());
                }
            }
        }
        let m = self.nb(a).max(self.nb(b)).max(1);
        if m < w {
            let x = self.zresize(a, m);
            let y = self.zresize(b, m);
            let r = self.udiv(x, y);
            return self.zext(r, w);
        }
        self.raw(Op::UDiv, w, a, b, 0, 0)
    }
    pub fn urem(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k != 0 {
                if let Some(x) = self.cv(a) {
                    return self.c(x % k, w);
                }
                if k & (k - 1) == 0 {
                    let m = self.c(k - 1, w);
                    return self.and(a, m);
                }
            }
        }
        let m = self.nb(a).max(self.nb(b)).max(1);
        if m < w {
            let x = self.zresize(a, m);
            let y = self.zresize(b, m);
            let r = self.urem(x, y);
            return self.zext(r, w);
        }
        self.raw(Op::URem, w, a, b, 0, 0)
    }
    pub fn sdiv(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let (Some(x), Some(k)) = (self.cv(a), self.cv(b)) {
            if k != 0 {
                return self.c(sext(x, w).wrapping_div(sext(k, w)) as u128, w);
            }
        }
        if self.nb(a) < w && self.nb(b) < w {
            return self.udiv(a, b);
        }
        self.raw(Op::SDiv, w, a, b, 0, 0)
    }
    pub fn srem(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let (Some(x), Some(k)) = (self.cv(a), self.cv(b)) {
            if k != 0 {
                return self.c(sext(x, w).wrapping_rem(sext(k, w)) as u128, w);
            }
        }
        if self.nb(a) < w && self.nb(b) < w {
            return self.urem(a, b);
        }
        self.raw(Op::SRem, w, a, b, 0, 0)
    }
    pub fn eq(&mut self, a: Ex, b: Ex) -> Ex {
        let (a, b) = self.comm(a, b);
        if a == b {
            return self.tru();
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            if let Some(k) = self.cv(b) {
                return if k == 1 { a } else { self.not(a) };
            }
            let x = self.xor(a, b);
            return self.not(x);
        }
        let n = *self.node(a);
        if let Some(k) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.c((x == k) as u128, 1);
            }
            if bits(k) > n.nb {
                return self.fls();
            }
            match n.op {
                Op::ZExt => {
                    let iw = self.w(n.a);
                    let kk = self.c(k, iw);
                    return self.eq(n.a, kk);
                }
                Op::SExt => {
                    let iw = self.w(n.a);
                    let t = k & mask(iw);
                    if sext(t, iw) as u128 & mask(w) != k {
                        return self.fls();
                    }
                    let kk = self.c(t, iw);
                    return self.eq(n.a, kk);
                }
                Op::Concat => {
                    let bw = self.w(n.b);
                    let aw = w - bw;
                    let kh = self.c(k >> bw, aw);
                    let kl = self.c(k, bw);
                    let x = self.eq(n.a, kh);
                    let y = self.eq(n.b, kl);
                    return self.and(x, y);
                }
                Op::Add => {
                    if let Some(k2) = self.cv(n.b) {
                        let kk = self.c(k.wrapping_sub(k2), w);
                        return self.eq(n.a, kk);
                    }
                }
                Op::Xor => {
                    if let Some(k2) = self.cv(n.b) {
                        let kk = self.c(k ^ k2, w);
                        return self.eq(n.a, kk);
                    }
                    if k == 0 {
                        return self.eq(n.a, n.b);
                    }
                }
                Op::Not => {
                    let kk = self.c(!k, w);
                    return self.eq(n.a, kk);
                }
                Op::Or if k == 0 => {
                    let x = self.eq(n.a, b);
                    let y = self.eq(n.b, b);
                    return self.and(x, y);
                }
                Op::Mul => {
                    if let Some(k2) = self.cv(n.b) {
                        if k2 == mask(w) {
                            let kk = self.c((!k).wrapping_add(1), w);
                            return self.eq(n.a, kk);
                        }
                    }
                }
                Op::Ite => {
                    if self.cv(n.b).is_some() || self.cv(n.c).is_some() {
                        let x = self.eq(n.b, b);
                        let y = self.eq(n.c, b);
                        return self.ite(n.a, x, y);
                    }
                }
                _ => {}
            }
        } else {
            let m = *self.node(b);
            if n.op == Op::ZExt && m.op == Op::ZExt {
                let iw = self.w(n.a).max(self.w(m.a));
                let x = self.zresize(n.a, iw);
                let y = self.zresize(m.a, iw);
                return self.eq(x, y);
            }
            if n.op == Op::Concat && m.op == Op::Concat && self.w(n.b) == self.w(m.b) {
                let x = self.eq(n.a, m.a);
                let y = self.eq(n.b, m.b);
                return self.and(x, y);
            }
            if let Some(r) = self.eq_sums(a, b) {
                return r;
            }
            if n.op == Op::Add && m.op == Op::Add {
                if let (Some(x), Some(y)) = (self.cv(n.b), self.cv(m.b)) {
                    let k = self.c(x.wrapping_sub(y), w);
                    let l = self.add(n.a, k);
                    if self.cv(k) == Some(0) {
                        return self.eq(n.a, m.a);
                    }
                    return self.raw_eq(l, m.a);
                }
                if n.a == m.a {
                    return self.eq(n.b, m.b);
                }
                if n.b == m.b {
                    return self.eq(n.a, m.a);
                }
            }
            if n.op == Op::Add && n.a == b {
                let z = self.c(0, w);
                return self.eq(n.b, z);
            }
            if m.op == Op::Add && m.a == a {
                let z = self.c(0, w);
                return self.eq(m.b, z);
            }
        }
        self.raw_eq(a, b)
    }
    /// Add `coef * e` to a linear combination modulo 2^w; e stands for its zero
    /// extension or its truncation to w bits.
    fn linear(&mut self, e: Ex, coef: u128, w: u32, out: &mut Vec<(Ex, u128)>, k: &mut u128) {
        let n = *self.node(e);
        let ew = n.w as u32;
        if coef & mask(w) == 0 || out.len() > 64 {
            if out.len() > 64 {
                out.push((e, coef & mask(w)));
            }
            return;
        }
        match n.op {
            Op::Const => {
                *k = k.wrapping_add(n.k.wrapping_mul(coef));
                return;
            }
            Op::ZExt => return self.linear(n.a, coef, w, out, k),
            Op::Add if ew >= w || self.nb(n.a).max(self.nb(n.b)) < ew => {
                self.linear(n.a, coef, w, out, k);
                return self.linear(n.b, coef, w, out, k);
            }
            Op::Mul if ew >= w || self.nb(n.a) + self.nb(n.b) <= ew => {
                if let Some(c) = self.cv(n.b) {
                    return self.linear(n.a, coef.wrapping_mul(c), w, out, k);
                }
            }
            Op::Concat => {
                let bw = self.w(n.b);
                self.linear(n.b, coef, w, out, k);
                return self.linear(n.a, coef.wrapping_mul(1u128 << bw), w, out, k);
            }
            Op::Extract if n.c == 0 && (ew >= w || self.nb(n.a) <= ew) => return self.linear(n.a, coef, w, out, k),
            _ => {}
        }
        let e = if ew > w { self.trunc(e, w) } else { e };
        for t in out.iter_mut() {
            if t.0 == e {
                t.1 = t.1.wrapping_add(coef) & mask(w);
                return;
            }
        }
        out.push((e, coef & mask(w)));
    }
    fn sum_like(&self, e: Ex) -> bool {
        let n = self.node(e);
        match n.op {
            Op::Add | Op::Mul => true,
            Op::Concat => self.cv(n.b) == Some(0) && self.sum_like(n.a),
            Op::ZExt | Op::Extract => self.sum_like(n.a),
            _ => false,
        }
    }
    /// Equality of two sums of which some terms cancel.
    fn eq_sums(&mut self, a: Ex, b: Ex) -> Option<Ex> {
        if !self.sum_like(a) || !self.sum_like(b) {
            return None;
        }
        let w = self.w(a);
        let (mut l, mut k) = (Vec::new(), 0);
        self.linear(a, 1, w, &mut l, &mut k);
        let n = l.len();
        let mut r = Vec::new();
        self.linear(b, 1, w, &mut r, &mut k.clone());
        let m = r.len();
        self.linear(b, mask(w), w, &mut l, &mut k);
        l.retain(|t| t.1 != 0);
        k &= mask(w);
        if l.len() >= n + m {
            return None;
        }
        if l.is_empty() {
            return Some(self.c((k == 0) as u128, 1));
        }
        let (mut x, mut y) = (self.c(k, w), self.c(0, w));
        if k > mask(w) >> 1 {
            (x, y) = (y, self.c(k.wrapping_neg(), w));
        }
        for (e, c) in l {
            let e = self.zext(e, w);
            let neg = c > mask(w) >> 1;
            let c = self.c(if neg { c.wrapping_neg() } else { c }, w);
            let t = self.mul(e, c);
            if neg {
                y = self.add(y, t);
            } else {
                x = self.add(x, t);
            }
        }
        if self.cv(x).is_some() || self.cv(y).is_some() {
            return Some(self.eq(x, y));
        }
        Some(self.raw_eq(x, y))
    }
    fn raw_eq(&mut self, a: Ex, b: Ex) -> Ex {
        let (a, b) = self.comm(a, b);
        self.raw(Op::Eq, 1, a, b, 0, 0)
    }
    pub fn ne(&mut self, a: Ex, b: Ex) -> Ex {
        let e = self.eq(a, b);
        self.not(e)
    }
    pub fn ult(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b {
            return self.fls();
        }
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c((x < y) as u128, 1),
            (None, Some(y)) => {
                if y == 0 {
                    return self.fls();
                }
                if bits(y) > self.nb(a) as u8 {
                    return self.tru();
                }
                if y == 1 {
                    let z = self.c(0, w);
                    return self.eq(a, z);
                }
                let n = *self.node(a);
                if n.op == Op::ZExt {
                    let iw = self.w(n.a);
                    let k = self.c(y, iw);
                    return self.ult(n.a, k);
                }
                if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                    let x = self.ult(n.b, b);
                    let z = self.ult(n.c, b);
                    return self.ite(n.a, x, z);
                }
                if n.op == Op::Concat && y & (y - 1) == 0 {
                    // a < 2^s  <=>  a >> s == 0
                    let s = y.trailing_zeros();
                    let h = self.lshr_k(a, s);
                    let z = self.c(0, w);
                    return self.eq(h, z);
                }
            }
            (Some(x), None) => {
                if x == mask(w) {
                    return self.fls();
                }
                if bits(x) > self.nb(b) as u8 || x == mask(self.nb(b)) {
                    return self.fls();
                }
                if x == 0 {
                    let z = self.c(0, w);
                    return self.ne(b, z);
                }
                let n = *self.node(b);
                if n.op == Op::ZExt {
                    let iw = self.w(n.a);
                    let k = self.c(x, iw);
                    return self.ult(k, n.a);
                }
                if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                    let y = self.ult(a, n.b);
                    let z = self.ult(a, n.c);
                    return self.ite(n.a, y, z);
                }
                // c < x  ==  !(x < c+1)
                let k = self.c(x + 1, w);
                let l = self.ult(b, k);
                return self.not(l);
            }
            _ => {
                let (n, m) = (*self.node(a), *self.node(b));
                if n.op == Op::ZExt && m.op == Op::ZExt {
                    let iw = self.w(n.a).max(self.w(m.a));
                    let x = self.zresize(n.a, iw);
                    let y = self.zresize(m.a, iw);
                    return self.ult(x, y);
                }
                // x + y < x and x < x + y where the sum does not wrap
                if n.op == Op::Add && (n.a == b || n.b == b) && self.nb(n.a).max(self.nb(n.b)) < w {
                    return self.fls();
                }
                if m.op == Op::Add && (m.a == a || m.b == a) && self.nb(m.a).max(self.nb(m.b)) < w {
                    let y = if m.a == a { m.b } else { m.a };
                    let z = self.c(0, w);
                    return self.ne(y, z);
                }
            }
        }
        self.raw(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn ule(&mut self, a: Ex, b: Ex) -> Ex {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b {
            return self.fls();
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c((sext(x, w) < sext(y, w)) as u128, 1);
        }
        let pa = self.nb(a) < w;
        let pb = self.nb(b) < w;
        if pa && pb {
            return self.ult(a, b);
        }
        if let Some(y) = self.cv(b) {
            if y == 0 {
                return self.extract(a, w - 1, w - 1);
            }
            if pa {
                // b negative
                return self.fls();
            }
            let n = *self.node(a);
            if n.op == Op::SExt {
                let iw = self.w(n.a);
                let t = y & mask(iw);
                if sext(t, iw) as u128 & mask(w) == y {
                    let k = self.c(t, iw);
                    return self.slt(n.a, k);
                }
                // constant out of the inner range
                return if sext(y, w) > 0 { self.tru() } else { self.fls() };
            }
            if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                let x = self.slt(n.b, b);
                let z = self.slt(n.c, b);
                return self.ite(n.a, x, z);
            }
        }
        if let Some(x) = self.cv(a) {
            if pb && sext(x, w) < 0 {
                return self.tru();
            }
            if x != mask(w) >> 1 {
                let k = self.c(x.wrapping_add(1), w);
                let l = self.slt(b, k);
                return self.not(l);
            }
            return self.fls();
        }
        if let (Op::SExt, Op::SExt) = (self.node(a).op, self.node(b).op) {
            let (ia, ib) = (self.node(a).a, self.node(b).a);
            if self.w(ia) == self.w(ib) {
                return self.slt(ia, ib);
            }
        }
        self.raw(Op::Slt, 1, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: Ex, a: Ex, b: Ex) -> Ex {
        if let Some(k) = self.cv(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let nc = *self.node(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (na, nb) = (*self.node(a), *self.node(b));
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                (None, Some(0)) => return self.and(c, a),
                _ => {}
            }
        }
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if na.op == Op::Ite && na.c == b {
            let cc = self.and(c, na.a);
            return self.ite(cc, na.b, b);
        }
        if nb.op == Op::Ite && nb.b == a {
            let cc = self.or(c, nb.a);
            return self.ite(cc, a, nb.c);
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && na.w == nb.w {
            let iw = self.w(na.a).max(self.w(nb.a));
            let x = self.zresize(na.a, iw);
            let y = self.zresize(nb.a, iw);
            let r = self.ite(c, x, y);
            return self.zext(r, w);
        }
        self.raw(Op::Ite, w, c, a, b, 0)
    }
    pub fn ones_pop(&mut self, a: Ex) -> Ex {
        // population count, width preserved
        let w = self.w(a);
        let mut s = self.c(0, w);
        for i in 0..w {
            let b = self.extract(a, i, i);
            let z = if w == 1 { b } else { self.zext(b, w) };
            s = self.add(s, z);
        }
        s
    }
    pub fn cttz(&mut self, a: Ex) -> Ex {
        let w = self.w(a);
        let mut r = self.c(w as u128, w);
        for i in (0..w).rev() {
            let b = self.extract(a, i, i);
            let k = self.c(i as u128, w);
            r = self.ite(b, k, r);
        }
        r
    }
    pub fn ctlz(&mut self, a: Ex) -> Ex {
        let w = self.w(a);
        let mut r = self.c(w as u128, w);
        for i in 0..w {
            let b = self.extract(a, i, i);
            let k = self.c((w - 1 - i) as u128, w);
            r = self.ite(b, k, r);
        }
        r
    }
    /// The values of a term over one variable of at most 8 bits, for every value of it.
    pub fn table(&self, e: Ex) -> Option<Rc<[u64]>> {
        let n = self.node(e);
        let v = n.vars.single()?;
        let vw = self.w(self.var_term(v));
        if vw > 8 {
            return None;
        }
        if let Some(t) = self.tables.borrow().get(&e) {
            return t.clone();
        }
        let t = self.table_of(e, 1 << vw);
        self.tables.borrow_mut().insert(e, t.clone());
        t
    }
    fn table_of(&self, e: Ex, size: usize) -> Option<Rc<[u64]>> {
        let n = self.node(e);
        let w = n.w as u32;
        if w > 64 {
            return None;
        }
        if n.op == Op::Var {
            return Some((0..size as u64).collect());
        }
        let (ar, _) = arity(n.op);
        let args = [n.a, n.b, n.c];
        let mut col: [Option<Rc<[u64]>>; 3] = [None, None, None];
        let mut k = [0u128; 3];
        for i in 0..ar {
            match self.cv(args[i]) {
                Some(c) => k[i] = c,
                None => col[i] = Some(self.table(args[i])?),
            }
        }
        let mut out = Vec::with_capacity(size);
        for j in 0..size {
            let g = |i: usize| match &col[i] {
                Some(t) => t[j] as u128,
                None => k[i],
            };
            let r = match n.op {
                Op::Ite => {
                    if g(0) == 1 {
                        g(1)
                    } else {
                        g(2)
                    }
                }
                _ => self.apply(n, g(0), g(1)),
            };
            out.push(r as u64);
        }
        Some(out.into())
    }
    fn apply(&self, n: &Node, a: u128, b: u128) -> u128 {
        let w = n.w as u32;
        let m = mask(w);
        let aw = self.w(n.a);
        match n.op {
            Op::Not => !a & m,
            Op::Extract => (a >> n.c) & m,
            Op::ZExt => a,
            Op::SExt => sext(a, aw) as u128 & m,
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Add => a.wrapping_add(b) & m,
            Op::Mul => a.wrapping_mul(b) & m,
            Op::UDiv => {
                if b == 0 {
                    m
                } else {
                    a / b
                }
            }
            Op::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            Op::SDiv => {
                let (x, y) = (sext(a, w), sext(b, w));
                if y == 0 {
                    (if x < 0 { 1 } else { -1i128 }) as u128 & m
                } else {
                    x.wrapping_div(y) as u128 & m
                }
            }
            Op::SRem => {
                let (x, y) = (sext(a, w), sext(b, w));
                if y == 0 {
                    a
                } else {
                    x.wrapping_rem(y) as u128 & m
                }
            }
            Op::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    (a << b) & m
                }
            }
            Op::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            Op::AShr => {
                let s = b.min(w as u128 - 1) as u32;
                (sext(a, w) >> s) as u128 & m
            }
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Slt => (sext(a, aw) < sext(b, aw)) as u128,
            Op::Concat => a << self.w(n.b) | b,
            _ => unreachable!(),
        }
    }
    /// A readable form of a term, cut at a depth.
    pub fn show(&self, e: Ex, depth: u32) -> String {
        let n = self.node(e);
        match n.op {
            Op::Const => format!("{:#x}", n.k),
            Op::Var => self.var_names[n.k as usize].clone(),
            _ if depth == 0 => format!("_{e}"),
            _ => {
                let (k, _) = arity(n.op);
                let a: Vec<String> = [n.a, n.b, n.c].iter().take(k).map(|x| self.show(*x, depth - 1)).collect();
                if n.op == Op::Extract {
                    format!("(Extract[{}+{}] {})", n.c, n.w, a.join(" "))
                } else {
                    format!("({:?}{} {})", n.op, n.w, a.join(" "))
                }
            }
        }
    }
    /// Evaluate under an assignment (unset variables are 0).
    pub fn eval(&self, e: Ex, model: &[u128], memo: &mut Map<Ex, u128>) -> u128 {
        let n = self.node(e);
        if n.op == Op::Const {
            return n.k;
        }
        if n.op == Op::Var {
            return model.get(n.k as usize).copied().unwrap_or(0);
        }
        if let Some(v) = n.vars.single() {
            if let Some(t) = self.table(e) {
                return t[model.get(v as usize).copied().unwrap_or(0) as usize] as u128;
            }
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let r = match n.op {
            Op::Ite => {
                if self.eval(n.a, model, memo) == 1 {
                    self.eval(n.b, model, memo)
                } else {
                    self.eval(n.c, model, memo)
                }
            }
            _ => {
                let a = self.eval(n.a, model, memo);
                let b = if arity(n.op).0 > 1 { self.eval(n.b, model, memo) } else { 0 };
                self.apply(n, a, b)
            }
        };
        memo.insert(e, r);
        r
    }
}

pub fn arity(op: Op) -> (usize, ()) {
    (
        match op {
            Op::Const | Op::Var => 0,
            Op::Not | Op::Extract | Op::ZExt | Op::SExt => 1,
            Op::Ite => 3,
            _ => 2,
        },
        (),
    )
}
