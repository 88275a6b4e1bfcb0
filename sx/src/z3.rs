//! Binding to libz3 (dlopen), translation of terms, query cache.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
}

type P = *mut c_void;

macro_rules! api {
    ($($f:ident : fn($($t:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case, dead_code)]
        struct Api { $($f: unsafe extern "C" fn($($t),*) $(-> $r)?,)* }
        impl Api {
            unsafe fn load(h: *mut c_void) -> Api {
                Api { $($f: {
                    let n = CString::new(concat!("Z3_", stringify!($f))).unwrap();
                    let p = dlsym(h, n.as_ptr());
                    assert!(!p.is_null(), "libz3 lacks {}", stringify!($f));
                    std::mem::transmute(p)
                },)* }
            }
        }
    };
}

api! {
    mk_config: fn() -> P;
    set_param_value: fn(P, *const c_char, *const c_char);
    mk_context: fn(P) -> P;
    set_error_handler: fn(P, P);
    get_error_code: fn(P) -> c_uint;
    mk_solver_for_logic: fn(P, P) -> P;
    mk_simple_solver: fn(P) -> P;
    solver_inc_ref: fn(P, P);
    solver_dec_ref: fn(P, P);
    solver_push: fn(P, P);
    solver_pop: fn(P, P, c_uint);
    solver_assert: fn(P, P, P);
    solver_check: fn(P, P) -> c_int;
    solver_get_model: fn(P, P) -> P;
    solver_set_params: fn(P, P, P);
    mk_params: fn(P) -> P;
    params_inc_ref: fn(P, P);
    params_set_uint: fn(P, P, P, c_uint);
    params_set_bool: fn(P, P, P, bool);
    model_inc_ref: fn(P, P);
    model_dec_ref: fn(P, P);
    model_eval: fn(P, P, P, bool, *mut P) -> bool;
    mk_string_symbol: fn(P, *const c_char) -> P;
    mk_bv_sort: fn(P, c_uint) -> P;
    mk_const: fn(P, P, P) -> P;
    mk_unsigned_int64: fn(P, u64, P) -> P;
    get_numeral_uint64: fn(P, P, *mut u64) -> bool;
    get_numeral_string: fn(P, P) -> *const c_char;
    get_full_version: fn() -> *const c_char;
    mk_true: fn(P) -> P;
    mk_false: fn(P) -> P;
    mk_not: fn(P, P) -> P;
    mk_and: fn(P, c_uint, *const P) -> P;
    mk_or: fn(P, c_uint, *const P) -> P;
    mk_xor: fn(P, P, P) -> P;
    mk_eq: fn(P, P, P) -> P;
    mk_ite: fn(P, P, P, P) -> P;
    mk_bvnot: fn(P, P) -> P;
    mk_bvand: fn(P, P, P) -> P;
    mk_bvor: fn(P, P, P) -> P;
    mk_bvxor: fn(P, P, P) -> P;
    mk_bvadd: fn(P, P, P) -> P;
    mk_bvmul: fn(P, P, P) -> P;
    mk_bvudiv: fn(P, P, P) -> P;
    mk_bvurem: fn(P, P, P) -> P;
    mk_bvsdiv: fn(P, P, P) -> P;
    mk_bvsrem: fn(P, P, P) -> P;
    mk_bvshl: fn(P, P, P) -> P;
    mk_bvlshr: fn(P, P, P) -> P;
    mk_bvashr: fn(P, P, P) -> P;
    mk_bvult: fn(P, P, P) -> P;
    mk_bvslt: fn(P, P, P) -> P;
    mk_concat: fn(P, P, P) -> P;
    mk_extract: fn(P, c_uint, c_uint, P) -> P;
    mk_zero_ext: fn(P, c_uint, P) -> P;
    mk_sign_ext: fn(P, c_uint, P) -> P;
}

#[derive(Clone)]
pub enum Res {
    Unsat,
    Sat(std::rc::Rc<Vec<(u32, u128)>>),
    Unknown,
}

pub struct Solver {
    a: Api,
    cx: P,
    fast: P,
    full: P,
    bv: Map<Ex, P>,
    bl: Map<Ex, P>,
    cache: Map<Vec<Ex>, Res>,
    pub queries: u64,
    pub cached: u64,
    pub slow: u64,
    pub secs: f64,
    pub maxq: f64,
    pub unknown: u64,
    pub sat: u64,
    pub unsat: u64,
    pub version: String,
}

unsafe extern "C" fn on_error(_c: P, e: c_uint) {
    eprintln!("z3 error code {e}");
    std::process::abort();
}

impl Solver {
    pub fn new(fast_ms: u32, full_ms: u32) -> Solver {
        unsafe {
            let mut h = std::ptr::null_mut();
            let mut names: Vec<String> = vec![];
            if let Ok(p) = std::env::var("SX_LIBZ3") {
                names.push(p);
            }
            names.push("/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so".into());
            names.push("libz3.so".into());
            names.push("libz3.so.4".into());
            for n in &names {
                let c = CString::new(n.as_str()).unwrap();
                h = dlopen(c.as_ptr(), 2);
                if !h.is_null() {
                    break;
                }
            }
            assert!(!h.is_null(), "libz3 not found");
            let a = Api::load(h);
            let cfg = (a.mk_config)();
            let cx = (a.mk_context)(cfg);
            (a.set_error_handler)(cx, on_error as *mut c_void);
            let version = CStr::from_ptr((a.get_full_version)()).to_string_lossy().into_owned();
            let sym = |s: &str| {
                let c = CString::new(s).unwrap();
                (a.mk_string_symbol)(cx, c.as_ptr())
            };
            let qfbv = sym("QF_BV");
            let mk = |ms: u32, simple: bool| {
                let s = if simple { (a.mk_simple_solver)(cx) } else { (a.mk_solver_for_logic)(cx, qfbv) };
                (a.solver_inc_ref)(cx, s);
                let p = (a.mk_params)(cx);
                (a.params_inc_ref)(cx, p);
                (a.params_set_uint)(cx, p, sym("timeout"), ms);
                (a.params_set_uint)(cx, p, sym("random_seed"), 0);
                (a.solver_set_params)(cx, s, p);
                s
            };
            let simple = std::env::var("SX_SIMPLE").map(|v| v == "1").unwrap_or(false);
            let fast = mk(fast_ms, simple);
            let full = mk(full_ms, false);
            Solver {
                a,
                cx,
                fast,
                full,
                bv: Map::default(),
                bl: Map::default(),
                cache: Map::default(),
                queries: 0,
                cached: 0,
                slow: 0,
                secs: 0.0,
                maxq: 0.0,
                unknown: 0,
                sat: 0,
                unsat: 0,
                version,
            }
        }
    }
    unsafe fn num(&self, k: u128, w: u32) -> P {
        let a = &self.a;
        let cx = self.cx;
        if w <= 64 {
            (a.mk_unsigned_int64)(cx, k as u64, (a.mk_bv_sort)(cx, w))
        } else {
            let hi = (a.mk_unsigned_int64)(cx, (k >> 64) as u64, (a.mk_bv_sort)(cx, w - 64));
            let lo = (a.mk_unsigned_int64)(cx, k as u64, (a.mk_bv_sort)(cx, 64));
            (a.mk_concat)(cx, hi, lo)
        }
    }
    fn bool_op(op: Op) -> bool {
        matches!(op, Op::Eq | Op::Ult | Op::Slt)
    }
    /// translate iteratively (deep terms must not overflow the stack)
    fn build(&mut self, ar: &Arena, root: Ex) {
        let mut st = vec![root];
        while let Some(&e) = st.last() {
            if self.bv.contains_key(&e) || self.bl.contains_key(&e) {
                st.pop();
                continue;
            }
            let n = ar.node(e);
            let k = arity(n.op).0;
            let mut ready = true;
            for c in [n.a, n.b, n.c].iter().take(k) {
                if !self.bv.contains_key(c) && !self.bl.contains_key(c) {
                    st.push(*c);
                    ready = false;
                }
            }
            if ready {
                st.pop();
                unsafe { self.mk(ar, e) };
            }
        }
    }
    unsafe fn get_bv(&mut self, e: Ex) -> P {
        if let Some(p) = self.bv.get(&e) {
            return *p;
        }
        let b = self.bl[&e];
        let one = self.num(1, 1);
        let zero = self.num(0, 1);
        let p = (self.a.mk_ite)(self.cx, b, one, zero);
        self.bv.insert(e, p);
        p
    }
    unsafe fn get_bl(&mut self, e: Ex) -> P {
        if let Some(p) = self.bl.get(&e) {
            return *p;
        }
        let b = self.bv[&e];
        let one = self.num(1, 1);
        let p = (self.a.mk_eq)(self.cx, b, one);
        self.bl.insert(e, p);
        p
    }
    unsafe fn mk(&mut self, ar: &Arena, e: Ex) {
        let n = *ar.node(e);
        let w = n.w as u32;
        let cx = self.cx;
        // boolean skeleton
        if w == 1 {
            let r = match n.op {
                Op::Const => Some(if n.k == 1 { (self.a.mk_true)(cx) } else { (self.a.mk_false)(cx) }),
                Op::Not => {
                    let x = self.get_bl(n.a);
                    Some((self.a.mk_not)(cx, x))
                }
                Op::And => {
                    let v = [self.get_bl(n.a), self.get_bl(n.b)];
                    Some((self.a.mk_and)(cx, 2, v.as_ptr()))
                }
                Op::Or => {
                    let v = [self.get_bl(n.a), self.get_bl(n.b)];
                    Some((self.a.mk_or)(cx, 2, v.as_ptr()))
                }
                Op::Xor => {
                    let (x, y) = (self.get_bl(n.a), self.get_bl(n.b));
                    Some((self.a.mk_xor)(cx, x, y))
                }
                Op::Ite => {
                    let (c, x, y) = (self.get_bl(n.a), self.get_bl(n.b), self.get_bl(n.c));
                    Some((self.a.mk_ite)(cx, c, x, y))
                }
                _ if Self::bool_op(n.op) => {
                    let aw = ar.w(n.a);
                    Some(match n.op {
                        Op::Eq if aw == 1 => {
                            let (x, y) = (self.get_bl(n.a), self.get_bl(n.b));
                            (self.a.mk_eq)(cx, x, y)
                        }
                        _ => {
                            let (x, y) = (self.get_bv(n.a), self.get_bv(n.b));
                            match n.op {
                                Op::Eq => (self.a.mk_eq)(cx, x, y),
                                Op::Ult => (self.a.mk_bvult)(cx, x, y),
                                _ => (self.a.mk_bvslt)(cx, x, y),
                            }
                        }
                    })
                }
                _ => None,
            };
            if let Some(r) = r {
                self.bl.insert(e, r);
                return;
            }
        }
        let p = match n.op {
            Op::Const => self.num(n.k, w),
            Op::Var => {
                let c = CString::new(ar.var_names[n.k as usize].as_str()).unwrap();
                let s = (self.a.mk_string_symbol)(cx, c.as_ptr());
                let so = (self.a.mk_bv_sort)(cx, w);
                (self.a.mk_const)(cx, s, so)
            }
            Op::Ite => {
                let c = self.get_bl(n.a);
                let (x, y) = (self.get_bv(n.b), self.get_bv(n.c));
                (self.a.mk_ite)(cx, c, x, y)
            }
            Op::Not => {
                let x = self.get_bv(n.a);
                (self.a.mk_bvnot)(cx, x)
            }
            Op::Extract => {
                let x = self.get_bv(n.a);
                (self.a.mk_extract)(cx, n.c + w - 1, n.c, x)
            }
            Op::ZExt => {
                let x = self.get_bv(n.a);
                (self.a.mk_zero_ext)(cx, w - ar.w(n.a), x)
            }
            Op::SExt => {
                let x = self.get_bv(n.a);
                (self.a.mk_sign_ext)(cx, w - ar.w(n.a), x)
            }
            op => {
                let (x, y) = (self.get_bv(n.a), self.get_bv(n.b));
                let a = &self.a;
                match op {
                    Op::And => (a.mk_bvand)(cx, x, y),
                    Op::Or => (a.mk_bvor)(cx, x, y),
                    Op::Xor => (a.mk_bvxor)(cx, x, y),
                    Op::Add => (a.mk_bvadd)(cx, x, y),
                    Op::Mul => (a.mk_bvmul)(cx, x, y),
                    Op::UDiv => (a.mk_bvudiv)(cx, x, y),
                    Op::URem => (a.mk_bvurem)(cx, x, y),
                    Op::SDiv => (a.mk_bvsdiv)(cx, x, y),
                    Op::SRem => (a.mk_bvsrem)(cx, x, y),
                    Op::Shl => (a.mk_bvshl)(cx, x, y),
                    Op::LShr => (a.mk_bvlshr)(cx, x, y),
                    Op::AShr => (a.mk_bvashr)(cx, x, y),
                    Op::Concat => (a.mk_concat)(cx, x, y),
                    _ => unreachable!(),
                }
            }
        };
        self.bv.insert(e, p);
    }

    /// Is the conjunction of `cs` satisfiable? Each element is a width-1 term.
    pub fn check(&mut self, ar: &Arena, mut cs: Vec<Ex>) -> Res {
        cs.sort_unstable();
        cs.dedup();
        if let Some(r) = self.cache.get(&cs) {
            self.cached += 1;
            return r.clone();
        }
        for c in &cs {
            self.build(ar, *c);
        }
        let t0 = Instant::now();
        let mut vs = VarSet::default();
        for c in &cs {
            vs = vs.or(ar.node(*c).vars);
        }
        let mut res = Res::Unknown;
        unsafe {
            for (i, s) in [self.fast, self.full].into_iter().enumerate() {
                (self.a.solver_push)(self.cx, s);
                for c in &cs {
                    let b = self.get_bl(*c);
                    (self.a.solver_assert)(self.cx, s, b);
                }
                let r = (self.a.solver_check)(self.cx, s);
                if r == -1 {
                    res = Res::Unsat;
                } else if r == 1 {
                    let m = (self.a.solver_get_model)(self.cx, s);
                    (self.a.model_inc_ref)(self.cx, m);
                    let mut out = vec![];
                    for v in 0..ar.var_names.len() as u32 {
                        if !vs.has(v) {
                            continue;
                        }
                        let ve = ar.var_term(v);
                        let p = self.get_bv(ve);
                        let mut q = std::ptr::null_mut();
                        assert!((self.a.model_eval)(self.cx, m, p, true, &mut q));
                        let mut u = 0u64;
                        let val = if (self.a.get_numeral_uint64)(self.cx, q, &mut u) {
                            u as u128
                        } else {
                            CStr::from_ptr((self.a.get_numeral_string)(self.cx, q)).to_str().unwrap().parse().unwrap()
                        };
                        out.push((v, val));
                    }
                    (self.a.model_dec_ref)(self.cx, m);
                    res = Res::Sat(std::rc::Rc::new(out));
                }
                (self.a.solver_pop)(self.cx, s, 1);
                if r != 0 {
                    break;
                }
                if i == 0 {
                    self.slow += 1;
                }
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.secs += dt;
        self.maxq = self.maxq.max(dt);
        self.queries += 1;
        match &res {
            Res::Unknown => self.unknown += 1,
            Res::Unsat => self.unsat += 1,
            Res::Sat(m) => {
                self.sat += 1;
                // the model must satisfy the query under our own semantics
                let mut v = vec![0u128; ar.var_names.len()];
                for (i, x) in m.iter() {
                    v[*i as usize] = *x;
                }
                let mut memo = Map::default();
                for c in &cs {
                    assert_eq!(ar.eval(*c, &v, &mut memo), 1, "solver model does not satisfy the query");
                }
            }
        }
        if dt > 5.0 && std::env::var("SX_DEBUG").is_ok() {
            eprintln!("slow query {dt:.1}s, {} terms", cs.len());
        }
        self.cache.insert(cs, res.clone());
        res
    }
}
