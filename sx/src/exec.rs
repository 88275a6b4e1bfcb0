//! Path-forking symbolic interpreter over the parsed IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::iv::{self, Iv};
use crate::z3::{Res, Solver};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub func: u32,
    pub body: &'static Body,
    pub regs: Vec<Val>,
    pub bb: u32,
    pub ip: u32,
    pub obj: u64,
    pub dst: u32,
    pub normal: Option<u32>,
}

pub struct Model {
    pub v: Vec<u128>,
    memo: RefCell<Map<Ex, u128>>,
}

#[derive(Clone)]
pub struct St {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Vec<Ex>,
    pub known: Rc<Map<Ex, u128>>,
    pub model: Rc<Model>,
    pub steps: u64,
    pub names: Rc<HashMap<String, u32>>,
    pub errno: u64,
    pub out: Rc<Vec<String>>,
    pub cov: Rc<Vec<String>>,
    pub dom: Rc<Map<u32, Dom>>, // values left to each small variable by its unary constraints
    pub multi: VarSet,              // variables that occur in a constraint with others
    pub rng: Rc<Map<Ex, Iv>>,       // intervals of terms learnt from comparisons
    pub stamp: u64,                 // changes whenever dom or rng does
}
#[cfg(test)]
impl St {
    pub fn blank() -> St {
        St {
            frames: vec![],
            mem: Default::default(),
            pc: vec![],
            known: Default::default(),
            model: Rc::new(Model { v: vec![], memo: Default::default() }),
            steps: 0,
            names: Default::default(),
            errno: 0,
            out: Default::default(),
            cov: Default::default(),
            dom: Default::default(),
            multi: Default::default(),
            rng: Default::default(),
            stamp: 0,
        }
    }
}
pub type Dom = [u64; 4];

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String, // assert | panic | hang | abort
    pub id: String,
    pub at: String,
    pub inputs: Vec<(String, u128, u32)>,
    pub known: bool,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub ended: u64,
    pub assumed_away: u64,
    pub instrs: u64,
    pub forks: u64,
    pub asserts: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    pub maxsteps: u64,
    pub domain: u64,
    pub interval: u64,
    pub crosschecked: u64,
    pub errors: Vec<String>,
    pub logs: Vec<String>,
    pub samples: Vec<(Vec<(String, u128, u32)>, Vec<String>)>, // models of complete paths and what they reach
}

pub struct Cfg {
    pub max_steps: u64,
    pub max_viol: usize,
    pub env: Vec<(String, String)>,
    pub deadline: Option<Instant>,
    /// written when a violation is found; once it is older than `grace`
    /// seconds, the runs that share it end
    pub stop: Option<(String, u64)>,
    pub trace: bool,
    pub max_paths: u64,
    pub crosscheck: bool,
    pub confirm: u32,
    pub plain: bool,
    pub fork_select: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ext {
    Nop,
    Zero,
    MinusOne,
    Memcpy,
    Memset,
    UMax,
    UMin,
    SMax,
    SMin,
    UaddSat,
    UsubSat,
    SaddSat,
    SsubSat,
    Ov(u8, bool), // op, signed
    Bswap,
    BitRev,
    Ctpop,
    Ctlz,
    Cttz,
    Fshl,
    Fshr,
    Abs,
    Scmp,
    Ucmp,
    IsConst,
    Expect,
    TlsAddr,
    LoadRel,
    Trap,
    PtrMask,
    FAbs,
    Bcmp,
    Strlen,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Getenv,
    FailErrno,
    Clock,
    Errno,
    Syscall,
    KeyCreate,
    SxBytes,
    SxInt,
    SxAssume,
    SxAssert,
    SxCover,
    SxKf,
    SxConc,
    SxLog,
    SxNote,
    Unsupported,
}

pub struct Exec {
    pub m: Module,
    pub ar: Arena,
    pub so: Solver,
    pub work: Vec<St>,
    pub cfg: Cfg,
    pub st: Stats,
    pub viol: Vec<Violation>,
    viol_keys: HashMap<String, usize>,
    ext: Vec<Ext>,
    bodies: Vec<Option<&'static Body>>,
    pub diverge: Vec<bool>,
    ovr: Map<u32, u32>,
    pub covered: HashSet<(u32, u32), std::hash::BuildHasherDefault<Fx>>,
    pub hot: Map<(u32, u32, u32), u64>,
    env_objs: Vec<(String, u64)>,
    errno_obj: u64,
    base: Mem,
    truth: Map<Ex, Dom>,
    joined: Map<Vec<u64>, Ex>, // the terms that were stored as these bytes
    confirms: Map<(u32, u32, u32), u32>,
    ivc: RefCell<iv::Cache>,
    stamps: std::cell::Cell<u64>,
}

enum Dec {
    T,
    F,
    Both(Rc<Model>), // model for the side the current model does not take
    Unk,
}

type R<T> = Result<T, End>;
#[derive(Debug)]
pub enum End {
    Done,
    Assume,
    Err(String),
    Viol(String, String),
    Retry, // re-execute the instruction (state was constrained)
}

fn ext_kind(n: &str) -> Ext {
    use Ext::*;
    if let Some(r) = n.strip_prefix("llvm.") {
        let h = |p: &str| r.starts_with(p);
        if h("lifetime") || h("assume") || h("experimental.noalias") || h("dbg") || h("x86.sse2.pause") || h("invariant") || h("prefetch") {
            return Nop;
        }
        for (p, k) in [
            ("memcpy", Memcpy),
            ("memmove", Memcpy),
            ("memset", Memset),
            ("umax", UMax),
            ("umin", UMin),
            ("smax", SMax),
            ("smin", SMin),
            ("uadd.sat", UaddSat),
            ("usub.sat", UsubSat),
            ("sadd.sat", SaddSat),
            ("ssub.sat", SsubSat),
            ("uadd.with", Ov(0, false)),
            ("usub.with", Ov(1, false)),
            ("umul.with", Ov(2, false)),
            ("sadd.with", Ov(0, true)),
            ("ssub.with", Ov(1, true)),
            ("smul.with", Ov(2, true)),
            ("bswap", Bswap),
            ("bitreverse", BitRev),
            ("ctpop", Ctpop),
            ("ctlz", Ctlz),
            ("cttz", Cttz),
            ("fshl", Fshl),
            ("fshr", Fshr),
            ("abs", Abs),
            ("scmp", Scmp),
            ("ucmp", Ucmp),
            ("is.constant", IsConst),
            ("expect", Expect),
            ("threadlocal.address", TlsAddr),
            ("load.relative", LoadRel),
            ("trap", Trap),
            ("ptrmask", PtrMask),
            ("fabs", FAbs),
        ] {
            if h(p) {
                return k;
            }
        }
        return Unsupported;
    }
    match n {
        "memcpy" | "memmove" => Memcpy,
        "bcmp" | "memcmp" => Bcmp,
        "strlen" => Strlen,
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => Realloc,
        "free" => Free,
        "posix_memalign" => Memalign,
        "getenv" => Getenv,
        "open64" | "open" | "stat64" | "fstat64" | "lstat64" | "readlink" | "realpath" | "read" | "lseek64" | "statx" => FailErrno,
        "clock_gettime" => Clock,
        "__errno_location" => Errno,
        "syscall" => Syscall,
        "pthread_key_create" => KeyCreate,
        "pthread_key_delete" | "pthread_setspecific" | "close" | "munmap" | "gettid" => Zero,
        "write" | "writev" => MinusOne,
        "abort" => Trap,
        "sx_bytes" => SxBytes,
        "sx_int" => SxInt,
        "sx_assume" => SxAssume,
        "sx_assert" => SxAssert,
        "sx_cover" => SxCover,
        "sx_kf" => SxKf,
        "sx_conc" => SxConc,
        "sx_log" => SxLog,
        "sx_note" => SxNote,
        _ => Unsupported,
    }
}

impl Exec {
    pub fn new(m: Module, so: Solver, cfg: Cfg) -> Exec {
        let ext = m.exts.iter().map(|n| ext_kind(n)).collect();
        let diverge = m
            .funcs
            .iter()
            .map(|f| {
                let n = &f.name;
                n.contains("4core9panicking") || n.contains("rust_begin_unwind") || n.contains("18handle_alloc_error") || n.contains("3std7process5abort")
            })
            .collect();
        // overrides: a harness function `sx_ov_<x>` replaces the std function named below
        let mut ovr = Map::default();
        let table: &[(&str, &str)] = &[
            ("4core5slice6memchr14memchr_aligned", "sx_ov_memchr_aligned"),
            ("4core5slice6memchr7memrchr", "sx_ov_memrchr"),
            ("x86_646memchr10memchr_raw6detect", "sx_ov_memchr_raw"),
            ("x86_646memchr11memchr2_raw6detect", "sx_ov_memchr2_raw"),
            ("x86_646memchr11memchr3_raw6detect", "sx_ov_memchr3_raw"),
            ("4core3str5count14do_count_chars", "sx_ov_count_chars"),
            ("4core3fmteNtB5_5Debug3fmt", "sx_ov_str_debug"),
        ];
        for (i, f) in m.funcs.iter().enumerate() {
            for (pat, rep) in table {
                if f.name.contains(pat) {
                    if let Some(r) = m.fn_ids.get(*rep).filter(|_| !cfg.plain) {
                        ovr.insert(i as u32, *r);
                    }
                }
            }
        }
        let nb = m.funcs.len();
        let mut e = Exec {
            m,
            ar: Arena::default(),
            so,
            work: vec![],
            cfg,
            st: Stats::default(),
            viol: vec![],
            viol_keys: HashMap::new(),
            ext,
            bodies: vec![None; nb],
            diverge,
            ovr,
            covered: Default::default(),
            hot: Default::default(),
            joined: Default::default(),
            confirms: Default::default(),
            env_objs: vec![],
            errno_obj: 0,
            base: Mem::default(),
            truth: Default::default(),
            ivc: Default::default(),
            stamps: Default::default(),
        };
        e.ar.c(0, 1);
        let mut mem = Mem::default();
        mem.next = GLOB_OID;
        for g in &e.m.globals {
            mem.put(Obj { b: g.bytes.clone(), s: None, ro: g.constant });
        }
        e.errno_obj = mem.alloc(8);
        for (k, v) in e.cfg.env.clone() {
            let mut b = v.clone().into_bytes();
            b.push(0);
            let id = mem.put(Obj { b, s: None, ro: false });
            e.env_objs.push((k, id));
        }
        e.base = mem;
        e
    }

    fn body(&mut self, f: u32) -> &'static Body {
        if let Some(b) = self.bodies[f as usize] {
            return b;
        }
        let rc = self.m.body(f);
        let b: &'static Body = unsafe { &*Rc::into_raw(rc) };
        self.bodies[f as usize] = Some(b);
        b
    }

    pub fn start(&mut self, entry: &str) {
        let f = *self.m.fn_ids.get(entry).unwrap_or_else(|| panic!("no entry {entry}"));
        let body = self.body(f);
        let mut mem = self.base.clone();
        let obj = if body.frame > 0 { mem.alloc(body.frame as usize) } else { 0 };
        let fr = Frame { func: f, body, regs: vec![Val::C(0); body.nregs as usize], bb: 0, ip: 0, obj, dst: NONE, normal: None };
        self.covered.insert((f, 0));
        self.work.push(St {
            frames: vec![Rc::new(fr)],
            mem,
            pc: vec![],
            known: Default::default(),
            model: Rc::new(Model { v: vec![], memo: Default::default() }),
            steps: 0,
            names: Rc::new(HashMap::new()),
            errno: 0,
            out: Rc::new(vec![]),
            cov: Rc::new(vec![]),
            dom: Default::default(),
            multi: VarSet::default(),
            rng: Default::default(),
            stamp: 0,
        });
    }

    pub fn over(&self) -> bool {
        self.viol.iter().filter(|v| !v.known).count() >= self.cfg.max_viol
            || self.st.errors.len() >= 20
            || self.st.paths >= self.cfg.max_paths
            || self.cfg.deadline.map(|d| Instant::now() > d).unwrap_or(false)
            || self.stopped()
    }

    fn stopped(&self) -> bool {
        let Some((f, grace)) = &self.cfg.stop else { return false };
        let age = std::fs::metadata(f).and_then(|m| m.modified()).ok().and_then(|t| t.elapsed().ok());
        age.map(|a| a.as_secs() >= *grace).unwrap_or(false)
    }

    pub fn explore(&mut self, until_frontier: usize) {
        while !self.work.is_empty() {
            if self.over() {
                return;
            }
            let st = if until_frontier > 0 {
                if self.work.len() >= until_frontier {
                    return;
                }
                self.work.remove(0)
            } else {
                self.work.pop().unwrap()
            };
            self.run_path(st);
        }
    }

    fn run_path(&mut self, mut st: St) {
        let r = loop {
            match self.steps(&mut st) {
                Err(End::Retry) => continue,
                Err(e) => break e,
                Ok(()) => {}
            }
        };
        self.st.paths += 1;
        self.st.maxsteps = self.st.maxsteps.max(st.steps);
        if !st.out.is_empty() {
            self.st.logs.extend(st.out.iter().cloned());
        }
        match r {
            End::Done => {
                self.st.ended += 1;
                if self.st.ended.is_power_of_two() && self.st.samples.len() < 12 {
                    let i = self.inputs(&st, &st.model);
                    self.st.samples.push((i, st.cov.to_vec()));
                }
            }
            End::Assume => self.st.assumed_away += 1,
            End::Err(e) => {
                let at = self.backtrace(&st);
                if self.cfg.trace {
                    eprintln!("ERROR {e} at {at}");
                }
                self.st.errors.push(format!("{e} at {at}"));
            }
            End::Viol(k, id) => {
                let at = self.backtrace(&st);
                self.report(&st, &k, &id, &at, None, false);
            }
            End::Retry => unreachable!(),
        }
    }

    pub fn backtrace(&self, st: &St) -> String {
        let mut v: Vec<String> = vec![];
        for fr in st.frames.iter().rev() {
            let blk = &fr.body.blocks[fr.bb as usize];
            let d = blk.ins.get(fr.ip as usize).map(|i| i.dbg).unwrap_or(0);
            for (f, file, line) in self.m.loc(d) {
                v.push(format!("{f} ({file}:{line})"));
            }
            if d == 0 {
                v.push(self.m.funcs[fr.func as usize].name.to_string());
            }
            if v.len() > 40 {
                break;
            }
        }
        v.join(" < ")
    }

    fn report(&mut self, st: &St, kind: &str, id: &str, at: &str, model: Option<&Model>, known: bool) {
        let key = if kind == "assert" || kind == "kf" { format!("{kind}:{id}") } else { format!("{kind}:{id}:{}", at.split(" < ").take(6).collect::<Vec<_>>().join(" < ")) };
        let n = self.viol_keys.entry(key).or_insert(0);
        *n += 1;
        if *n > 1 {
            return;
        }
        let inputs = self.inputs(st, model.unwrap_or(&st.model));
        self.viol.push(Violation { kind: kind.into(), id: id.into(), at: at.into(), inputs, known });
        if let (false, Some((f, _))) = (known, &self.cfg.stop) {
            if std::fs::metadata(f).is_err() {
                let _ = std::fs::write(f, id);
            }
        }
    }
    fn inputs(&self, st: &St, model: &Model) -> Vec<(String, u128, u32)> {
        let mut inputs = vec![];
        let mut names: Vec<_> = st.names.iter().collect();
        names.sort_by_key(|x| *x.1);
        for (n, e) in names {
            let node = self.ar.node(*e);
            let v = model.v.get(node.k as usize).copied().unwrap_or(0);
            inputs.push((n.clone(), v, node.w as u32));
        }
        inputs
    }

    // ---------------------------------------------------------------- values
    fn ex(&mut self, v: &Val, w: u32) -> Ex {
        match v {
            Val::C(k) => self.ar.c(*k as u128, w),
            Val::W(k) => self.ar.c(*k, w),
            Val::S(e) => {
                debug_assert_eq!(self.ar.w(*e), w);
                *e
            }
            Val::Agg(_) => panic!("aggregate as scalar"),
        }
    }
    fn val(&self, e: Ex) -> Val {
        let n = self.ar.node(e);
        if n.op == Op::Const {
            if n.w > 64 {
                Val::W(n.k)
            } else {
                Val::C(n.k as u64)
            }
        } else {
            Val::S(e)
        }
    }
    fn conc(v: &Val) -> Option<u128> {
        match v {
            Val::C(k) => Some(*k as u128),
            Val::W(k) => Some(*k),
            _ => None,
        }
    }
    fn eval(&self, st: &St, e: Ex) -> u128 {
        self.ar.eval(e, &st.model.v, &mut st.model.memo.borrow_mut())
    }
    fn slice(&self, st: &St, e: Ex) -> Vec<Ex> {
        let mut vs = self.ar.node(e).vars;
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, c) in st.pc.iter().enumerate() {
                if !used[i] {
                    let cv = self.ar.node(*c).vars;
                    if cv.meets(vs) {
                        used[i] = true;
                        out.push(*c);
                        let n = vs.or(cv);
                        if n != vs {
                            vs = n;
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                return out;
            }
        }
    }
    /// Whether the solver is to confirm a decision made without it: every one
    /// with --crosscheck, otherwise the first few at each place in the code.
    fn confirm(&mut self, st: &St) -> bool {
        if self.cfg.crosscheck {
            return true;
        }
        let site = st.frames.last().map_or((0, 0, 0), |f| (f.func, f.bb, f.ip));
        let n = self.confirms.entry(site).or_insert(0);
        *n += 1;
        *n <= self.cfg.confirm
    }
    /// A model of pc && e, if there is one.
    fn feasible(&mut self, st: &St, e: Ex) -> Result<Option<Rc<Model>>, ()> {
        match self.ar.cv(e) {
            Some(1) => return Ok(Some(st.model.clone())),
            Some(_) => return Ok(None),
            None => {}
        }
        if self.eval(st, e) == 1 {
            return Ok(Some(st.model.clone()));
        }
        if let Some(k) = st.known.get(&e) {
            if *k == 0 {
                return Ok(None);
            }
        }
        if let Some(v) = self.ar.node(e).vars.single() {
            if self.ar.w(self.ar.var_term(v)) <= 8 {
                let t = self.truth_of(e, v);
                let d = st.dom.get(&v).copied().unwrap_or([u64::MAX; 4]);
                let x = [t[0] & d[0], t[1] & d[1], t[2] & d[2], t[3] & d[3]];
                let pick = (0..4).find(|i| x[*i] != 0).map(|i| i as u32 * 64 + x[i].trailing_zeros());
                let verdict = match pick {
                    None => Some(None),
                    Some(k) if !st.multi.has(v) => Some(Some(k)),
                    _ => None,
                };
                if let Some(p) = verdict {
                    self.st.domain += 1;
                    if self.confirm(st) {
                        let mut cs = self.slice(st, e);
                        cs.push(e);
                        self.st.crosschecked += 1;
                        match (self.so.check(&self.ar, cs), p) {
                            (Res::Unsat, None) | (Res::Sat(_), Some(_)) => {}
                            _ => panic!("domain reasoning and the solver disagree"),
                        }
                    }
                    return Ok(p.map(|k| {
                        let mut m = st.model.v.clone();
                        m.resize(self.ar.var_names.len(), 0);
                        m[v as usize] = k as u128;
                        Rc::new(Model { v: m, memo: Default::default() })
                    }));
                }
            }
        }
        if self.ar.w(e) == 1 && self.range(st, e) == Iv::k(0) {
            self.st.interval += 1;
            if self.confirm(st) {
                let mut cs = self.slice(st, e);
                cs.push(e);
                self.st.crosschecked += 1;
                if matches!(self.so.check(&self.ar, cs), Res::Sat(_)) {
                    panic!("interval reasoning and the solver disagree");
                }
            }
            return Ok(None);
        }
        if self.settle(st, e) == Some(false) {
            return Ok(None);
        }
        let mut cs = self.slice(st, e);
        cs.push(e);
        if self.cfg.trace {
            eprintln!("QUERY {} terms: {}", cs.len(), self.ar.show(e, 16));
        }
        let t = self.so.secs;
        let r = self.so.check(&self.ar, cs);
        if self.cfg.trace && self.so.secs - t > 0.3 {
            eprintln!("SLOW {:.1} {} {}", self.so.secs - t, self.ar.show(e, 9), self.backtrace(st));
        }
        match r {
            Res::Unsat => Ok(None),
            Res::Unknown => Err(()),
            Res::Sat(a) => {
                let mut v = st.model.v.clone();
                v.resize(self.ar.var_names.len(), 0);
                for (i, x) in a.iter() {
                    v[*i as usize] = *x;
                }
                Ok(Some(Rc::new(Model { v, memo: Default::default() })))
            }
        }
    }
    /// The values of the one variable of e (at most 8 bits) for which e holds.
    fn truth_of(&mut self, e: Ex, v: u32) -> Dom {
        if let Some(d) = self.truth.get(&e) {
            return *d;
        }
        let w = self.ar.w(self.ar.var_term(v));
        let mut d = [0u64; 4];
        match self.ar.table(e) {
            Some(t) => {
                for k in 0..1usize << w {
                    d[k / 64] |= (t[k] & 1) << (k % 64);
                }
            }
            None => {
                let mut m = vec![0u128; self.ar.var_names.len()];
                for k in 0..1u32 << w {
                    m[v as usize] = k as u128;
                    let mut memo = Map::default();
                    if self.ar.eval(e, &m, &mut memo) == 1 {
                        d[k as usize / 64] |= 1 << (k % 64);
                    }
                }
            }
        }
        self.truth.insert(e, d);
        d
    }
    fn learn(&self, st: &mut St, e: Ex, v: bool) {
        let mut todo = vec![(e, v)];
        let mut facts = vec![];
        while let Some((e, v)) = todo.pop() {
            let known = Rc::make_mut(&mut st.known);
            known.insert(e, v as u128);
            let n = self.ar.node(e);
            match n.op {
                Op::Not if n.w == 1 => todo.push((n.a, !v)),
                Op::And if n.w == 1 && v => {
                    todo.push((n.a, true));
                    todo.push((n.b, true));
                }
                Op::Or if n.w == 1 && !v => {
                    todo.push((n.a, false));
                    todo.push((n.b, false));
                }
                Op::Eq if v => {
                    if let Some(k) = self.ar.cv(n.b) {
                        known.insert(n.a, k);
                        // equal to a constant: so are the parts of a zero extension
                        let m = self.ar.node(n.a);
                        if m.op == Op::ZExt {
                            known.insert(m.a, k);
                        }
                    }
                }
                _ => {}
            }
            if matches!(n.op, Op::Eq | Op::Ult | Op::Slt) || (n.op == Op::Extract && n.w == 1) {
                iv::facts(&self.ar, st, &mut self.ivc.borrow_mut(), e, v, &mut facts);
                let mut ch = false;
                for (x, i) in facts.drain(..) {
                    let w = self.ar.w(x);
                    let old = st.rng.get(&x).copied().unwrap_or(Iv::top(w));
                    let new = old.meet(i, w);
                    if new != old {
                        Rc::make_mut(&mut st.rng).insert(x, new);
                        ch = true;
                    }
                }
                if ch {
                    self.touch(st);
                }
            }
        }
    }
    fn touch(&self, st: &mut St) {
        let s = self.stamps.get() + 1;
        self.stamps.set(s);
        st.stamp = s;
    }
    fn range(&self, st: &St, e: Ex) -> Iv {
        iv::range(&self.ar, st, &mut self.ivc.borrow_mut(), e)
    }
    fn assume(&mut self, st: &mut St, e: Ex, model: Rc<Model>) {
        let mut todo = vec![e];
        while let Some(e) = todo.pop() {
            let n = *self.ar.node(e);
            if n.op == Op::Const {
                continue;
            }
            if n.op == Op::And {
                todo.push(n.b);
                todo.push(n.a);
                continue;
            }
            if n.op == Op::Not && self.ar.node(n.a).op == Op::Or {
                let o = *self.ar.node(n.a);
                let (x, y) = (self.ar.not(o.a), self.ar.not(o.b));
                todo.push(y);
                todo.push(x);
                continue;
            }
            if st.pc.contains(&e) {
                continue;
            }
            st.pc.push(e);
            match n.vars.single() {
                Some(v) if self.ar.w(self.ar.var_term(v)) <= 8 => {
                    let t = self.truth_of(e, v);
                    let d = Rc::make_mut(&mut st.dom).entry(v).or_insert([u64::MAX; 4]);
                    for i in 0..4 {
                        d[i] &= t[i];
                    }
                    let d = *d;
                    self.touch(st);
                    let left: u32 = d.iter().map(|x| x.count_ones()).sum();
                    if left == 1 {
                        let k = (0..4).find(|i| d[*i] != 0).map(|i| i as u32 * 64 + d[i].trailing_zeros()).unwrap();
                        let t = self.ar.var_term(v);
                        Rc::make_mut(&mut st.known).insert(t, k as u128);
                    }
                }
                Some(_) => {}
                None => {
                    if self.cfg.trace {
                        eprintln!("MULTI {}", self.ar.show(e, 16));
                    }
                    st.multi = st.multi.or(n.vars)
                }
            }
        }
        if self.ar.cv(e).is_none() {
            self.learn(st, e, true);
        }
        st.model = model;
    }
    fn decide(&mut self, st: &mut St, e: Ex) -> Dec {
        match self.ar.cv(e) {
            Some(1) => return Dec::T,
            Some(_) => return Dec::F,
            None => {}
        }
        if let Some(k) = st.known.get(&e) {
            return if *k == 1 { Dec::T } else { Dec::F };
        }
        let v = self.eval(st, e) == 1;
        let other = if v { self.ar.not(e) } else { e };
        match self.feasible(st, other) {
            Err(()) => Dec::Unk,
            Ok(None) => {
                self.learn(st, e, v);
                if v {
                    Dec::T
                } else {
                    Dec::F
                }
            }
            Ok(Some(m)) => Dec::Both(m),
        }
    }
    /// A comparison that cancelling sums settle on this path.
    fn settle(&mut self, st: &St, e: Ex) -> Option<bool> {
        let n = *self.ar.node(e);
        if n.vars.single().is_some_and(|v| self.ar.w(self.ar.var_term(v)) <= 8) {
            return None;
        }
        let r = match n.op {
            Op::Not if n.w == 1 => return self.settle(st, n.a).map(|x| !x),
            Op::And if n.w == 1 => {
                let x = self.settle(st, n.a);
                if x == Some(false) {
                    return x;
                }
                let y = self.settle(st, n.b);
                return if y == Some(false) || x.is_some() { y } else { None };
            }
            Op::Eq | Op::Ult | Op::Slt => {
                let w = self.ar.w(n.a);
                if !(16..=64).contains(&w) {
                    return None;
                }
                let p = match n.op {
                    Op::Eq => Pred::Eq,
                    Op::Ult => Pred::Ult,
                    _ => Pred::Slt,
                };
                self.cmp_sums(st, p, w, n.a, n.b)
            }
            Op::Extract if n.w == 1 => {
                let w = self.ar.w(n.a);
                if !(16..=64).contains(&w) || n.c + 1 != w {
                    return None;
                }
                let z = self.ar.c(0, w);
                self.cmp_sums(st, Pred::Slt, w, n.a, z)
            }
            _ => return None,
        };
        match r {
            Some(Val::C(k)) => Some(k != 0),
            _ => None,
        }
    }
    fn fork(&mut self, st: &St) -> St {
        self.st.forks += 1;
        let fr = st.frames.last().unwrap();
        *self.hot.entry((fr.func, fr.bb, fr.ip)).or_insert(0) += 1;
        st.clone()
    }
    /// Make v concrete, forking one state per value.
    fn concretize(&mut self, st: &mut St, v: &Val, w: u32) -> R<u128> {
        let e = match v {
            Val::C(k) => return Ok(*k as u128),
            Val::W(k) => return Ok(*k),
            Val::S(e) => *e,
            _ => return Err(End::Err("concretize aggregate".into())),
        };
        if let Some(k) = st.known.get(&e) {
            return Ok(*k);
        }
        let k = self.eval(st, e);
        let kc = self.ar.c(k, w);
        let eq = self.ar.eq(e, kc);
        let ne = self.ar.not(eq);
        match self.feasible(st, ne) {
            Err(()) => Err(End::Err("solver unknown (concretize)".into())),
            Ok(None) => {
                self.learn(st, eq, true);
                Rc::make_mut(&mut st.known).insert(e, k);
                Ok(k)
            }
            Ok(Some(m)) => {
                let mut o = self.fork(st);
                self.assume(&mut o, ne, m);
                self.work.push(o);
                let m = st.model.clone();
                self.assume(st, eq, m);
                Rc::make_mut(&mut st.known).insert(e, k);
                Ok(k)
            }
        }
    }
    /// Floating point is computed on one path per value of the operands.
    fn flt(&mut self, st: &mut St, v: &Val, w: u32) -> R<Val> {
        Ok(match v {
            Val::S(_) => mkint(self.concretize(st, v, w)?, w),
            _ => v.clone(),
        })
    }
    fn conc64(&mut self, st: &mut St, v: &Val) -> R<u64> {
        if let Val::C(k) = v {
            return Ok(*k);
        }
        self.concretize(st, v, 64).map(|x| x as u64)
    }

    // ---------------------------------------------------------------- memory
    fn obj<'a>(st: &'a St, a: u64, n: u64) -> R<(&'a Obj, usize)> {
        let id = a >> 32;
        let off = (a & 0xffff_ffff) as usize;
        match st.mem.get(id) {
            Some(o) => {
                if off as u64 + n > o.b.len() as u64 {
                    return Err(End::Err(format!("access of {n} bytes at offset {off} of an object of {} bytes", o.b.len())));
                }
                Ok((o, off))
            }
            None => Err(End::Err(format!("access to invalid address {a:#x}"))),
        }
    }
    fn load_int(&mut self, st: &St, a: u64, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as usize;
        let (o, off) = Self::obj(st, a, n as u64)?;
        let sym = match &o.s {
            Some(s) => s[off..off + n].iter().any(|x| *x != NOSYM),
            None => false,
        };
        if !sym {
            let b = &o.b[off..off + n];
            if w <= 64 {
                let mut k = 0u64;
                for (i, x) in b.iter().enumerate() {
                    k |= (*x as u64) << (8 * i);
                }
                if w < 64 {
                    k &= (1u64 << w) - 1;
                }
                return Ok(Val::C(k));
            }
            let mut k = 0u128;
            for (i, x) in b.iter().enumerate() {
                k |= (*x as u128) << (8 * i);
            }
            return Ok(Val::W(k & mask(w)));
        }
        let s = o.s.as_ref().unwrap();
        if n > 1 {
            let key: Vec<u64> = (off..off + n).map(|i| if s[i] == NOSYM { o.b[i] as u64 } else { 1 << 32 | s[i] as u64 }).collect();
            if let Some(e) = self.rejoin(&key) {
                let e = if w < 8 * n as u32 { self.ar.trunc(e, w) } else { e };
                return Ok(self.val(e));
            }
        }
        let mut acc: Option<Ex> = None;
        for i in 0..n {
            let byte = if s[off + i] == NOSYM {
                self.ar.c(o.b[off + i] as u128, 8)
            } else {
                match st.known.get(&s[off + i]) {
                    Some(k) => self.ar.c(*k, 8),
                    None => s[off + i],
                }
            };
            acc = Some(match acc {
                None => byte,
                Some(x) => self.ar.concat(byte, x),
            });
        }
        let e = acc.unwrap();
        let e = if w < 8 * n as u32 { self.ar.trunc(e, w) } else { e };
        Ok(self.val(e))
    }
    /// The term that was stored as these bytes, or the two that were.
    fn rejoin(&mut self, key: &[u64]) -> Option<Ex> {
        if let Some(e) = self.joined.get(key) {
            return Some(*e);
        }
        if key.len() < 4 || key.len() % 2 != 0 {
            return None;
        }
        let (l, h) = key.split_at(key.len() / 2);
        let mut part = |k: &[u64]| {
            if k.iter().all(|x| *x < 256) {
                let v = k.iter().rev().fold(0u128, |a, b| a << 8 | *b as u128);
                return Some(self.ar.c(v, 8 * k.len() as u32));
            }
            self.rejoin(k)
        };
        let l = part(l)?;
        let h = part(h)?;
        Some(self.ar.concat(h, l))
    }
    fn store_int(&mut self, st: &mut St, a: u64, w: u32, v: &Val) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        Self::obj(st, a, n as u64)?;
        let off = (a & 0xffff_ffff) as usize;
        let ar = &mut self.ar;
        let o = st.mem.get_mut(a >> 32).unwrap();
        if o.ro {
            return Err(End::Err("store to a constant".into()));
        }
        match v {
            Val::C(k) => {
                o.b[off..off + n].copy_from_slice(&k.to_le_bytes()[..n]);
                if let Some(s) = &mut o.s {
                    for x in &mut s[off..off + n] {
                        *x = NOSYM;
                    }
                }
            }
            Val::W(k) => {
                o.b[off..off + n].copy_from_slice(&k.to_le_bytes()[..n]);
                if let Some(s) = &mut o.s {
                    for x in &mut s[off..off + n] {
                        *x = NOSYM;
                    }
                }
            }
            Val::S(e) => {
                let e = ar.zresize(*e, 8 * n as u32);
                let mut key = vec![];
                let len = o.b.len();
                let s = o.s.get_or_insert_with(|| vec![NOSYM; len]);
                for i in 0..n {
                    let b = if n == 1 { e } else { ar.extract(e, 8 * i as u32 + 7, 8 * i as u32) };
                    match ar.cv(b) {
                        Some(k) => {
                            o.b[off + i] = k as u8;
                            s[off + i] = NOSYM;
                            key.push(k as u64);
                        }
                        None => {
                            s[off + i] = b;
                            key.push(1 << 32 | b as u64);
                        }
                    }
                }
                let mut m = n;
                while m > 1 && n.is_power_of_two() {
                    for i in 0..n / m {
                        let k = &key[i * m..(i + 1) * m];
                        if k.iter().any(|x| *x >= 256) {
                            let part = ar.extract(e, (8 * (i + 1) * m) as u32 - 1, (8 * i * m) as u32);
                            self.joined.insert(k.to_vec(), part);
                        }
                    }
                    m /= 2;
                }
            }
            Val::Agg(_) => return Err(End::Err("store aggregate as int".into())),
        }
        Ok(())
    }
    fn load(&mut self, st: &St, a: u64, t: &Ty) -> R<Val> {
        match t {
            Ty::Int(w) => self.load_int(st, a, *w),
            Ty::Ptr | Ty::F64 => self.load_int(st, a, 64),
            Ty::F32 => self.load_int(st, a, 32),
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() {
                    let (o, ft) = t.field_off(i as u64);
                    v.push(self.load(st, a + o, &ft)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            Ty::Arr(n, et) => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(st, a + i * et.size(), et)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            Ty::Vec(n, et) => {
                if et.bits() % 8 != 0 {
                    return Err(End::Err("load of a bit vector".into()));
                }
                let mut v = vec![];
                for i in 0..*n as u64 {
                    v.push(self.load(st, a + i * et.size(), et)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            _ => Err(End::Err("load type".into())),
        }
    }
    fn store(&mut self, st: &mut St, a: u64, t: &Ty, v: &Val) -> R<()> {
        match t {
            Ty::Int(w) => self.store_int(st, a, *w, v),
            Ty::Ptr | Ty::F64 => self.store_int(st, a, 64, v),
            Ty::F32 => self.store_int(st, a, 32, v),
            Ty::Struct(f, _) => {
                let vs = match v {
                    Val::Agg(x) => x.clone(),
                    _ => return Err(End::Err("store".into())),
                };
                for i in 0..f.len() {
                    let (o, ft) = t.field_off(i as u64);
                    self.store(st, a + o, &ft, &vs[i])?;
                }
                Ok(())
            }
            Ty::Arr(_, et) | Ty::Vec(_, et) => {
                let vs = match v {
                    Val::Agg(x) => x.clone(),
                    _ => return Err(End::Err("store".into())),
                };
                for (i, x) in vs.iter().enumerate() {
                    self.store(st, a + i as u64 * et.size(), et, x)?;
                }
                Ok(())
            }
            _ => Err(End::Err("store type".into())),
        }
    }
    /// Load through a symbolic address.
    fn load_sym(&mut self, st: &mut St, e: Ex, t: &Ty) -> R<Val> {
        let bits = match t {
            Ty::Int(w) if *w <= 64 => *w,
            _ => 0,
        };
        let a = self.eval(st, e) as u64;
        let id = a >> 32;
        let n = t.size();
        let ok = bits > 0
            && match st.mem.get(id) {
                Some(o) => o.b.len() <= 4096 && o.s.is_none() && o.b.len() as u64 >= n,
                None => false,
            };
        if ok {
            // the whole feasible range must be inside this object
            let len = st.mem.get(id).unwrap().b.len() as u64;
            let base = self.ar.c((id << 32) as u128, 64);
            let off = self.ar.sub(e, base);
            let lim = self.ar.c((len - n + 1) as u128, 64);
            let inb = self.ar.ult(off, lim);
            let oob = self.ar.not(inb);
            match self.feasible(st, oob) {
                Err(()) => return Err(End::Err("solver unknown (load)".into())),
                Ok(Some(_)) => {}
                Ok(None) => {
                    let (mino, maxo) = {
                        let b = self.range(st, off).ub(64);
                        ((b.0 as u64).min(len - n), (b.1.min((len - n) as u128)) as u64)
                    };
                    let mut stride = 1u64;
                    while stride < n {
                        let low = self.ar.extract(off, 63 - (stride * 2 - 1).leading_zeros(), 0);
                        if self.ar.cv(low) == Some(0) {
                            stride *= 2;
                        } else {
                            break;
                        }
                    }
                    // runs of equal values, from the top down
                    let o = st.mem.get(id).unwrap();
                    let rd = |p: u64| -> u128 {
                        let mut k = 0u128;
                        for i in 0..n {
                            k |= (o.b[(p + i) as usize] as u128) << (8 * i);
                        }
                        k & mask(bits)
                    };
                    let mut runs: Vec<(u64, u128)> = vec![]; // (first offset, value)
                    let mut p = mino / stride * stride;
                    while p <= maxo {
                        let k = rd(p);
                        if runs.last().map(|r| r.1 != k).unwrap_or(true) {
                            runs.push((p, k));
                        }
                        p += stride;
                    }
                    if runs.len() <= 64 {
                        let r = self.mux(off, &runs, bits);
                        return Ok(self.val(r));
                    }
                    if maxo / stride < 4096 {
                        let tab: Vec<u128> = (0..=maxo / stride).map(|i| rd(i.max(mino / stride) * stride)).collect();
                        let nb = 64 - (tab.len() as u64 - 1).leading_zeros();
                        let r = self.bitmux(off, stride.trailing_zeros(), nb, &tab, bits);
                        return Ok(self.val(r));
                    }
                }
            }
        }
        let a = self.concretize(st, &Val::S(e), 64)? as u64;
        self.load(st, a, t)
    }
    /// The table read as a decision tree over the bits of the index (equal subtrees are shared).
    fn bitmux(&mut self, off: Ex, sh: u32, nb: u32, tab: &[u128], bits: u32) -> Ex {
        if tab.iter().all(|x| *x == tab[0]) {
            return self.ar.c(tab[0], bits);
        }
        let h = 1usize << (nb - 1);
        let l = self.bitmux(off, sh, nb - 1, &tab[..tab.len().min(h)], bits);
        if tab.len() <= h {
            return l;
        }
        let r = self.bitmux(off, sh, nb - 1, &tab[h..], bits);
        let c = self.ar.extract(off, sh + nb - 1, sh + nb - 1);
        self.ar.ite(c, r, l)
    }
    fn mux(&mut self, off: Ex, runs: &[(u64, u128)], bits: u32) -> Ex {
        if runs.len() == 1 {
            return self.ar.c(runs[0].1, bits);
        }
        let h = runs.len() / 2;
        let l = self.mux(off, &runs[..h], bits);
        let r = self.mux(off, &runs[h..], bits);
        let k = self.ar.c(runs[h].0 as u128, 64);
        let c = self.ar.ult(off, k);
        self.ar.ite(c, l, r)
    }
    fn memcpy(&mut self, st: &mut St, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = Self::obj(st, s, n)?;
        let n = n as usize;
        let b = o.b[off..off + n].to_vec();
        let sy = match &o.s {
            Some(s) if s[off..off + n].iter().any(|x| *x != NOSYM) => Some(s[off..off + n].to_vec()),
            _ => None,
        };
        Self::obj(st, d, n as u64)?;
        let o = st.mem.get_mut(d >> 32).unwrap();
        if o.ro {
            return Err(End::Err("memcpy to a constant".into()));
        }
        let off = (d & 0xffff_ffff) as usize;
        o.b[off..off + n].copy_from_slice(&b);
        match sy {
            Some(v) => {
                let len = o.b.len();
                let s = o.s.get_or_insert_with(|| vec![NOSYM; len]);
                s[off..off + n].copy_from_slice(&v);
            }
            None => {
                if let Some(s) = &mut o.s {
                    for x in &mut s[off..off + n] {
                        *x = NOSYM;
                    }
                }
            }
        }
        Ok(())
    }
    fn bytes(&mut self, st: &St, a: u64, n: u64) -> R<Vec<Val>> {
        let mut v = vec![];
        for i in 0..n {
            v.push(self.load_int(st, a + i, 8)?);
        }
        Ok(v)
    }
    fn cstring(&mut self, st: &St, a: u64, n: u64) -> R<String> {
        let v = self.bytes(st, a, n)?;
        let mut b = vec![];
        for x in v {
            b.push(match x {
                Val::C(k) => k as u8,
                Val::S(e) => self.eval(st, e) as u8,
                _ => 0,
            });
        }
        Ok(String::from_utf8_lossy(&b).into_owned())
    }

    // ---------------------------------------------------------------- arithmetic
    fn bin(&mut self, st: &St, op: Bin, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
            let sx = |v: u64| -> i64 {
                let s = 64 - w;
                ((v << s) as i64) >> s
            };
            let r = match op {
                Bin::Add => x.wrapping_add(y),
                Bin::Sub => x.wrapping_sub(y),
                Bin::Mul => x.wrapping_mul(y),
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                Bin::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                Bin::AShr => (sx(x) >> y.min(w as u64 - 1)) as u64,
                Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem if y == 0 => return Err(End::Err("division by zero".into())),
                Bin::UDiv => x / y,
                Bin::URem => x % y,
                Bin::SDiv => sx(x).wrapping_div(sx(y)) as u64,
                Bin::SRem => sx(x).wrapping_rem(sx(y)) as u64,
                _ => {
                    if w != 64 {
                        let f = |v: u64| f32::from_bits(v as u32);
                        let r = match op {
                            Bin::FAdd => f(x) + f(y),
                            Bin::FSub => f(x) - f(y),
                            Bin::FMul => f(x) * f(y),
                            Bin::FDiv => f(x) / f(y),
                            _ => f(x) % f(y),
                        };
                        return Ok(Val::C(r.to_bits() as u64));
                    }
                    let f = f64::from_bits;
                    let r = match op {
                        Bin::FAdd => f(x) + f(y),
                        Bin::FSub => f(x) - f(y),
                        Bin::FMul => f(x) * f(y),
                        Bin::FDiv => f(x) / f(y),
                        _ => f(x) % f(y),
                    };
                    return Ok(Val::C(r.to_bits()));
                }
            };
            return Ok(Val::C(r & m));
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        if let (Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem, true) = (op, w <= 64) {
            if let Some(k) = self.ar.cv(y) {
                if let Some(r) = self.small_div(st, op, w, x, k) {
                    return Ok(self.val(r));
                }
            }
        }
        let ar = &mut self.ar;
        let r = match op {
            Bin::Add => ar.add(x, y),
            Bin::Sub => ar.sub(x, y),
            Bin::Mul => ar.mul(x, y),
            Bin::And => ar.and(x, y),
            Bin::Or => ar.or(x, y),
            Bin::Xor => ar.xor(x, y),
            Bin::Shl => ar.shl(x, y),
            Bin::LShr => ar.lshr(x, y),
            Bin::AShr => ar.ashr(x, y),
            Bin::UDiv => ar.udiv(x, y),
            Bin::URem => ar.urem(x, y),
            Bin::SDiv => ar.sdiv(x, y),
            Bin::SRem => ar.srem(x, y),
            _ => return Err(End::Err("symbolic floating point".into())),
        };
        let r = if matches!(op, Bin::Add | Bin::Sub) && (self.ar.cv(x).is_some() || self.ar.cv(y).is_some()) { self.narrow(st, r) } else { r };
        Ok(self.val(r))
    }
    /// The term with only the bits that can be set on this path.
    fn narrow(&mut self, st: &St, r: Ex) -> Ex {
        let n = *self.ar.node(r);
        let w = n.w as u32;
        if n.op != Op::Add || w > 64 || (self.ar.cv(n.a).is_none() && self.ar.cv(n.b).is_none()) {
            return r;
        }
        let hi = self.range(st, r).ub(w).1;
        let k = 128 - hi.leading_zeros();
        if k == 0 {
            return self.ar.c(0, w);
        }
        // never cutting bits of the operand: it would be another term
        let x = if self.ar.cv(n.a).is_some() { n.b } else { n.a };
        let k = k.max(self.ar.nb(x));
        if k >= n.nb as u32 {
            return r;
        }
        let t = self.ar.trunc(r, k);
        self.ar.zext(t, w)
    }
    /// Division by a constant of a dividend that leaves few quotients: one path per quotient.
    fn fork_div(&mut self, st: &mut St, op: Bin, w: u32, x: &Val, y: &Val) -> R<Option<Val>> {
        let (e, k) = match (x, y) {
            (Val::S(e), Val::C(k)) if w <= 64 => (*e, sext(*k as u128, w)),
            _ => return Ok(None),
        };
        if k <= 0 || self.ar.node(e).vars.single().is_some_and(|v| self.ar.w(self.ar.var_term(v)) <= 8) {
            return Ok(None);
        }
        let signed = matches!(op, Bin::SDiv | Bin::SRem);
        let i = self.range(st, e);
        let (lo, hi) = if signed {
            i.sb(w)
        } else {
            let u = i.ub(w);
            if u.1 > i64::MAX as u128 {
                return Ok(None);
            }
            (u.0 as i128, u.1 as i128)
        };
        let (q0, q1) = (lo / k, hi / k);
        if q1 - q0 > 6 {
            return self.sum_div(st, matches!(op, Bin::SRem | Bin::URem), w, e, k, lo, hi);
        }
        let mut q = q0;
        while q < q1 {
            let lim = if q < 0 { q * k + 1 } else { (q + 1) * k };
            let l = self.ar.c(lim as u128 & mask(w), w);
            let c = if signed { self.ar.slt(e, l) } else { self.ar.ult(e, l) };
            let v = self.val(c);
            if self.concretize(st, &v, 1)? != 0 {
                break;
            }
            q += 1;
        }
        let ar = &mut self.ar;
        let r = if matches!(op, Bin::SRem | Bin::URem) {
            let d = ar.c((q * k) as u128 & mask(w), w);
            let r = ar.sub(e, d);
            self.narrow(st, r)
        } else {
            ar.c(q as u128 & mask(w), w)
        };
        Ok(Some(self.val(r)))
    }
    /// e = sum of coefficients times terms, plus a constant, modulo 2^w.
    fn combination(&mut self, st: &St, e: Ex) -> Option<(Vec<(Ex, i128)>, i128)> {
        let (mut l, mut k) = (vec![], 0i128);
        self.signed_sum(st, e, 1, &mut l, &mut k, false, 0)?;
        l.retain(|x| x.1 != 0);
        Some((l, k))
    }
    fn build(&mut self, l: &[(Ex, i128)], k: i128, w: u32) -> Ex {
        let m = mask(w);
        let mut acc = None;
        for (t, c) in l {
            let t = self.ar.zresize(*t, w);
            let t = if *c == 1 {
                t
            } else {
                let c = self.ar.c(*c as u128 & m, w);
                self.ar.mul(t, c)
            };
            acc = Some(match acc {
                None => t,
                Some(a) => self.ar.add(a, t),
            });
        }
        let kc = self.ar.c(k as u128 & m, w);
        match acc {
            None => kc,
            Some(a) => self.ar.add(a, kc),
        }
    }
    /// A sum without the terms that cancel, when few are left.
    fn tidy(&mut self, st: &St, v: Val, w: u32) -> Val {
        let Val::S(e) = v else { return v };
        if self.ar.node(e).op != Op::Add || !matches!(w, 32 | 64) {
            return v;
        }
        if self.ar.node(e).vars.single().is_some_and(|v| self.ar.w(self.ar.var_term(v)) <= 8) {
            return v;
        }
        match self.combination(st, e) {
            Some((l, k)) if l.len() <= 3 => {
                let r = self.build(&l, k, w);
                self.val(r)
            }
            _ => v,
        }
    }
    fn span(&self, st: &St, l: &[(Ex, i128)], k: i128) -> Option<(i128, i128)> {
        let (mut lo, mut hi) = (k, k);
        for (e, c) in l {
            let (a, b) = self.range(st, *e).ub(self.ar.w(*e));
            let (a, b) = (c.checked_mul(i128::try_from(a).ok()?)?, c.checked_mul(i128::try_from(b).ok()?)?);
            lo = lo.checked_add(a.min(b))?;
            hi = hi.checked_add(a.max(b))?;
        }
        Some((lo, hi))
    }
    /// Division of a sum: the terms that the divisor divides leave the rest with few quotients.
    fn sum_div(&mut self, st: &mut St, rem: bool, w: u32, e: Ex, d: i128, lo: i128, hi: i128) -> R<Option<Val>> {
        let Some((mut l, mut k)) = self.combination(st, e) else { return Ok(None) };
        if l.iter().all(|x| x.1 % d != 0) {
            return Ok(None);
        }
        let Some((clo, chi)) = self.span(st, &l, k) else { return Ok(None) };
        let m = 1i128 << w;
        if hi - clo >= m || chi - lo >= m {
            return Ok(None);
        }
        let mut neg = false;
        if lo < 0 {
            let z = self.ar.c(0, w);
            let c = self.ar.slt(e, z);
            let v = self.val(c);
            neg = self.concretize(st, &v, 1)? != 0;
        }
        if neg {
            for x in &mut l {
                x.1 = -x.1;
            }
            k = -k;
        }
        let (a, r): (Vec<_>, Vec<_>) = l.into_iter().partition(|x| x.1 % d == 0);
        let Some((rlo, rhi)) = self.span(st, &r, k) else { return Ok(None) };
        let (q0, q1) = (rlo.div_euclid(d), rhi.div_euclid(d));
        if q1 - q0 > 6 || rhi.abs() >= m / 2 || rlo.abs() >= m / 2 {
            return Ok(None);
        }
        let rest = self.build(&r, k, w);
        let mut q = q0;
        while q < q1 {
            let lim = self.ar.c(((q + 1) * d) as u128 & mask(w), w);
            let l = Val::S(lim);
            let l = match self.ar.cv(lim) {
                Some(k) if w <= 64 => Val::C(k as u64),
                _ => l,
            };
            let x = self.val(rest);
            let v = self.cmp(st, Pred::Slt, w, &x, &l);
            if self.concretize(st, &v, 1)? != 0 {
                break;
            }
            q += 1;
        }
        let sign = if neg { -1 } else { 1 };
        let out = if rem {
            let l: Vec<_> = r.iter().map(|x| (x.0, sign * x.1)).collect();
            self.build(&l, sign * (k - q * d), w)
        } else {
            let l: Vec<_> = a.iter().map(|x| (x.0, sign * x.1 / d)).collect();
            self.build(&l, sign * q, w)
        };
        Ok(Some(self.val(out)))
    }
    /// Division by a constant of a dividend that leaves few quotients.
    fn small_div(&mut self, st: &St, op: Bin, w: u32, x: Ex, k: u128) -> Option<Ex> {
        let ks = sext(k, w);
        if ks <= 0 {
            return None;
        }
        let i = self.range(st, x);
        let signed = matches!(op, Bin::SDiv | Bin::SRem);
        let rem = matches!(op, Bin::URem | Bin::SRem);
        let s = i.sb(w);
        if signed && s.0 < 0 {
            if s.0 / ks != s.1 / ks {
                return None;
            }
            let q = s.0 / ks;
            let ar = &mut self.ar;
            return Some(if rem {
                let d = ar.c((q * ks) as u128, w);
                ar.sub(x, d)
            } else {
                ar.c(q as u128, w)
            });
        }
        let u = if signed { (s.0 as u128, s.1 as u128) } else { i.ub(w) };
        let (q0, q1) = (u.0 / k, u.1 / k);
        let ar = &mut self.ar;
        if q1 - q0 > 4 {
            // a non-negative dividend divides alike with and without sign
            return if signed {
                let kc = ar.c(k, w);
                Some(if rem { ar.urem(x, kc) } else { ar.udiv(x, kc) })
            } else {
                None
            };
        }
        let mut r = None;
        for q in (q0..=q1).rev() {
            let t = if rem {
                let d = ar.c(q * k, w);
                ar.sub(x, d)
            } else {
                ar.c(q, w)
            };
            r = Some(match r {
                None => t,
                Some(o) => {
                    let lim = ar.c((q + 1) * k, w);
                    let c = ar.ult(x, lim);
                    ar.ite(c, t, o)
                }
            });
        }
        r
    }
    fn cmp(&mut self, st: &St, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = 64 - w;
            let (sx, sy) = (((x << s) as i64), ((y << s) as i64));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
            };
            return Val::C(r as u64);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = self.plain_cmp(p, x, y);
        if self.ar.cv(r).is_none() {
            let i = self.range(st, r);
            if i.n == 0 {
                return Val::C(i.s as u64);
            }
            if w >= 16 {
                if let Some(b) = self.cmp_sums(st, p, w, x, y) {
                    return b;
                }
            }
        }
        self.val(r)
    }
    /// Add `coef * e` (e zero-extended) to a linear combination, using what the path knows.
    fn linear(&mut self, st: &St, e: Ex, coef: i128, out: &mut Vec<(Ex, i128)>, k: &mut i128, div: bool) -> Option<()> {
        if out.len() > 24 {
            return None;
        }
        let n = *self.ar.node(e);
        let ew = n.w as u32;
        if ew > 64 || coef.unsigned_abs() > 1 << 62 {
            return None;
        }
        let kn = if n.op == Op::Const { Some(n.k) } else { st.known.get(&e).copied() };
        if let Some(x) = kn {
            *k = k.checked_add(coef.checked_mul(x as i128)?)?;
            return Some(());
        }
        let top = |s: &Self, x: Ex| s.range(st, x).ub(s.ar.w(x)).1;
        match n.op {
            Op::ZExt => return self.linear(st, n.a, coef, out, k, div),
            Op::Add => {
                if top(self, n.a) + top(self, n.b) <= mask(ew) {
                    self.linear(st, n.a, coef, out, k, div)?;
                    return self.linear(st, n.b, coef, out, k, div);
                }
                // a constant subtracted without going below zero
                if let Some(c) = self.ar.cv(n.b) {
                    let d = mask(ew) + 1 - c;
                    if self.range(st, n.a).ub(ew).0 >= d {
                        *k -= coef.checked_mul(d as i128)?;
                        return self.linear(st, n.a, coef, out, k, div);
                    }
                }
            }
            Op::Mul => {
                if let Some(c) = self.ar.cv(n.b) {
                    if c < 1 << 62 && top(self, n.a).checked_mul(c).is_some_and(|x| x <= mask(ew)) {
                        return self.linear(st, n.a, coef.checked_mul(c as i128)?, out, k, div);
                    }
                }
            }
            Op::Concat => {
                let bw = self.ar.w(n.b);
                if bw < 62 {
                    self.linear(st, n.b, coef, out, k, div)?;
                    return self.linear(st, n.a, coef.checked_mul(1 << bw)?, out, k, div);
                }
            }
            // bits above all those of the other side
            Op::Or => {
                if let Some(c) = self.ar.cv(n.b) {
                    if c != 0 && top(self, n.a) < 1 << c.trailing_zeros() {
                        *k = k.checked_add(coef.checked_mul(c as i128)?)?;
                        return self.linear(st, n.a, coef, out, k, div);
                    }
                }
            }
            Op::Extract if n.c == 0 && top(self, n.a) <= mask(ew) => return self.linear(st, n.a, coef, out, k, div),
            // x % k is x - k * (x / k)
            Op::URem if div => {
                if let Some(c) = self.ar.cv(n.b) {
                    self.linear(st, n.a, coef, out, k, div)?;
                    let q = self.quotient(st, n.a, c)?;
                    return self.linear(st, q, coef.checked_mul(-(c as i128))?, out, k, false);
                }
            }
            Op::UDiv if div => {
                if let Some(c) = self.ar.cv(n.b) {
                    let q = self.quotient(st, n.a, c)?;
                    return self.linear(st, q, coef, out, k, false);
                }
            }
            Op::Ite => {
                if let Some(c) = st.known.get(&n.a) {
                    return self.linear(st, if *c == 1 { n.b } else { n.c }, coef, out, k, div);
                }
            }
            _ => {}
        }
        match out.iter_mut().find(|t| t.0 == e) {
            Some(t) => t.1 = t.1.checked_add(coef)?,
            None => out.push((e, coef)),
        }
        Some(())
    }
    /// x / k, as one division however nested and whatever its width.
    fn quotient(&mut self, st: &St, x: Ex, k: u128) -> Option<Ex> {
        let (mut x, mut k) = (x, k);
        loop {
            let n = *self.ar.node(x);
            match n.op {
                Op::ZExt => x = n.a,
                Op::Extract if n.c == 0 && self.range(st, n.a).ub(self.ar.w(n.a)).1 <= mask(n.w as u32) => x = n.a,
                Op::UDiv => match self.ar.cv(n.b) {
                    Some(c) if c > 0 => {
                        k = k.checked_mul(c)?;
                        x = n.a;
                    }
                    _ => break,
                },
                _ => break,
            }
        }
        if k == 0 || k > 1 << 62 || self.ar.w(x) > 64 {
            return None;
        }
        let a = self.ar.zext(x, 64);
        let c = self.ar.c(k, 64);
        Some(self.ar.udiv(a, c))
    }
    /// `linear` of a term that may be negative: its value is that of the combination, signed, modulo 2^w.
    fn signed_sum(&mut self, st: &St, e: Ex, coef: i128, out: &mut Vec<(Ex, i128)>, k: &mut i128, div: bool, depth: u32) -> Option<()> {
        let n = *self.ar.node(e);
        let w = n.w as u32;
        if depth > 40 {
            return None;
        }
        if st.known.get(&e).is_none() {
            match n.op {
                Op::Const => {
                    *k = k.checked_add(coef.checked_mul(sext(n.k, w))?)?;
                    return Some(());
                }
                Op::Add => {
                    self.signed_sum(st, n.a, coef, out, k, div, depth + 1)?;
                    return self.signed_sum(st, n.b, coef, out, k, div, depth + 1);
                }
                Op::Mul => {
                    if let Some(c) = self.ar.cv(n.b) {
                        return self.signed_sum(st, n.a, coef.checked_mul(sext(c, w))?, out, k, div, depth + 1);
                    }
                }
                Op::Ite => {
                    if let Some(c) = st.known.get(&n.a) {
                        return self.signed_sum(st, if *c == 1 { n.b } else { n.c }, coef, out, k, div, depth + 1);
                    }
                }
                _ => {}
            }
        }
        if coef.unsigned_abs() > 1 << 62 {
            return None;
        }
        self.linear(st, e, coef, out, k, div)
    }
    /// A comparison of sums that the path's intervals decide once equal terms cancel.
    fn cmp_sums(&mut self, st: &St, p: Pred, w: u32, x: Ex, y: Ex) -> Option<Val> {
        let sum = |s: &Self, e: Ex| {
            let mut e = e;
            loop {
                let n = s.ar.node(e);
                match n.op {
                    Op::Add | Op::Mul | Op::Ite => return true,
                    Op::ZExt | Op::Extract => e = n.a,
                    _ => return false,
                }
            }
        };
        if !sum(self, x) && !sum(self, y) {
            return None;
        }
        self.cmp_sums_at(st, p, w, x, y, false).or_else(|| self.cmp_sums_at(st, p, w, x, y, true))
    }
    fn cmp_sums_at(&mut self, st: &St, p: Pred, w: u32, x: Ex, y: Ex, div: bool) -> Option<Val> {
        let (mut l, mut k) = (vec![], 0i128);
        self.signed_sum(st, x, 1, &mut l, &mut k, div, 0)?;
        self.signed_sum(st, y, -1, &mut l, &mut k, div, 0)?;
        let (mut lo, mut hi) = (k, k);
        for (e, c) in l {
            if c != 0 {
                let (a, b) = self.range(st, e).ub(self.ar.w(e));
                let (a, b) = (c.checked_mul(a as i128)?, c.checked_mul(b as i128)?);
                lo = lo.checked_add(a.min(b))?;
                hi = hi.checked_add(a.max(b))?;
            }
        }
        if self.cfg.trace {
            eprintln!("SUM div {div} {lo}..{hi} {:?} {:?}", self.range(st, x), self.range(st, y));
        }
        // lo..=hi holds x - y modulo 2^w
        let b = match p {
            Pred::Eq | Pred::Ne => {
                let m = 1i128 << w;
                let eq = if lo == hi && lo % m == 0 {
                    true
                } else if lo.div_euclid(m) == hi.div_euclid(m) && lo.rem_euclid(m) != 0 {
                    false
                } else {
                    return None;
                };
                eq == (p == Pred::Eq)
            }
            _ => {
                // the true difference, if neither side's representation wraps
                let signed = matches!(p, Pred::Sgt | Pred::Sge | Pred::Slt | Pred::Sle);
                let (i, j) = (self.range(st, x), self.range(st, y));
                let (a, b) = if signed {
                    (i.sb(w), j.sb(w))
                } else {
                    let (p, q) = (i.ub(w), j.ub(w));
                    ((p.0 as i128, p.1 as i128), (q.0 as i128, q.1 as i128))
                };
                let (dl, dh) = (a.0 - b.1, a.1 - b.0);
                // both are the difference modulo 2^w: equal if they cannot be 2^w apart
                let m = 1i128 << w;
                if dh - lo >= m || hi - dl >= m {
                    return None;
                }
                let (lt, ge) = (hi < 0, lo >= 0);
                let (gt, le) = (lo > 0, hi <= 0);
                match p {
                    Pred::Ult | Pred::Slt if lt || ge => lt,
                    Pred::Uge | Pred::Sge if lt || ge => ge,
                    Pred::Ugt | Pred::Sgt if gt || le => gt,
                    Pred::Ule | Pred::Sle if gt || le => le,
                    _ => return None,
                }
            }
        };
        self.st.interval += 1;
        if self.confirm(st) {
            let r = self.plain_cmp(p, x, y);
            let e = if b { self.ar.not(r) } else { r };
            if self.ar.cv(e).is_none() {
                let mut cs = self.slice(st, e);
                cs.push(e);
                self.st.crosschecked += 1;
                if matches!(self.so.check(&self.ar, cs), Res::Sat(_)) {
                    panic!("cancelling sums and the solver disagree");
                }
            }
        }
        Some(Val::C(b as u64))
    }
    fn plain_cmp(&mut self, p: Pred, x: Ex, y: Ex) -> Ex {
        let ar = &mut self.ar;
        match p {
            Pred::Eq => ar.eq(x, y),
            Pred::Ne => ar.ne(x, y),
            Pred::Ugt => ar.ult(y, x),
            Pred::Uge => ar.ule(y, x),
            Pred::Ult => ar.ult(x, y),
            Pred::Ule => ar.ule(x, y),
            Pred::Sgt => ar.slt(y, x),
            Pred::Sge => {
                let t = ar.slt(x, y);
                ar.not(t)
            }
            Pred::Slt => ar.slt(x, y),
            Pred::Sle => {
                let t = ar.slt(y, x);
                ar.not(t)
            }
        }
    }
    fn flat(&mut self, v: &Val, t: &Ty) -> Ex {
        match t {
            Ty::Vec(_, et) => {
                let vs = match v {
                    Val::Agg(x) => x.clone(),
                    _ => panic!(),
                };
                let mut acc: Option<Ex> = None;
                for x in vs.iter() {
                    let e = self.ex(x, et.bits());
                    acc = Some(match acc {
                        None => e,
                        Some(l) => self.ar.concat(e, l),
                    });
                }
                acc.unwrap()
            }
            _ => self.ex(v, t.bits()),
        }
    }
    fn unflat(&mut self, e: Ex, t: &Ty) -> Val {
        match t {
            Ty::Vec(n, et) => {
                let b = et.bits();
                let mut v = vec![];
                for i in 0..*n {
                    let x = self.ar.extract(e, i * b + b - 1, i * b);
                    v.push(self.val(x));
                }
                Val::Agg(Rc::new(v))
            }
            _ => self.val(e),
        }
    }
    fn cast(&mut self, st: &St, c: Cast, ft: &Ty, tt: &Ty, v: &Val) -> R<Val> {
        if c == Cast::Bit {
            return Ok(match (ft, tt) {
                (Ty::Vec(..), _) | (_, Ty::Vec(..)) => {
                    let e = self.flat(v, ft);
                    self.unflat(e, tt)
                }
                _ => {
                    // ptrtoint/inttoptr of other widths
                    let (a, b) = (ft.bits(), tt.bits());
                    if a == b {
                        v.clone()
                    } else {
                        let e = self.ex(v, a);
                        let e = self.ar.zresize(e, b);
                        self.val(e)
                    }
                }
            });
        }
        if let (Ty::Vec(_, fe), Ty::Vec(_, te)) = (ft, tt) {
            let vs = match v {
                Val::Agg(x) => x.clone(),
                _ => panic!(),
            };
            let mut r = vec![];
            for x in vs.iter() {
                r.push(self.cast(st, c, fe, te, x)?);
            }
            return Ok(Val::Agg(Rc::new(r)));
        }
        let (fw, tw) = (ft.bits(), tt.bits());
        match c {
            Cast::Zext | Cast::Trunc => {
                if let Val::C(k) = v {
                    if tw <= 64 {
                        let m = if tw >= 64 { u64::MAX } else { (1u64 << tw) - 1 };
                        return Ok(Val::C(k & m));
                    }
                    return Ok(Val::W(*k as u128));
                }
                let mut e = self.ex(v, fw);
                if c == Cast::Zext {
                    e = self.narrow(st, e);
                }
                let e = self.ar.zresize(e, tw);
                Ok(self.val(e))
            }
            Cast::Sext => {
                if let Val::C(k) = v {
                    return Ok(mkint(sext(*k as u128, fw) as u128, tw));
                }
                let e = self.ex(v, fw);
                let e = self.ar.sext(e, tw);
                Ok(self.val(e))
            }
            _ => {
                let k = match v {
                    Val::C(k) => *k,
                    _ => return Err(End::Err("wide floating point".into())),
                };
                let tof = |x: f64| -> Val {
                    if tw == 64 {
                        Val::C(x.to_bits())
                    } else {
                        Val::C((x as f32).to_bits() as u64)
                    }
                };
                let fromf = || -> f64 {
                    if fw == 64 {
                        f64::from_bits(k)
                    } else {
                        f32::from_bits(k as u32) as f64
                    }
                };
                Ok(match c {
                    Cast::UiToFp => tof(k as f64),
                    Cast::SiToFp => tof(sext(k as u128, fw) as f64),
                    Cast::FpExt | Cast::FpTrunc => tof(fromf()),
                    Cast::FpToUi => mkint(fromf() as u64 as u128, tw),
                    _ => mkint(fromf() as i64 as u128, tw),
                })
            }
        }
    }
    fn lanes<F: FnMut(&mut Self, &Ty, &Val, &Val) -> R<Val>>(&mut self, t: &Ty, a: &Val, b: &Val, mut f: F) -> R<Val> {
        if let Ty::Vec(_, et) = t {
            let (x, y) = match (a, b) {
                (Val::Agg(x), Val::Agg(y)) => (x.clone(), y.clone()),
                _ => return Err(End::Err("vector operands".into())),
            };
            let mut r = vec![];
            for (p, q) in x.iter().zip(y.iter()) {
                r.push(f(self, et, p, q)?);
            }
            return Ok(Val::Agg(Rc::new(r)));
        }
        f(self, t, a, b)
    }

    // ---------------------------------------------------------------- control
    fn jump(&mut self, st: &mut St, target: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = fr.bb;
        let body = fr.body;
        let phis = &body.blocks[target as usize].phis;
        if phis.len() == 1 {
            let (d, inc) = &phis[0];
            let v = inc.iter().find(|x| x.0 == from).map(|x| &x.1).expect("phi edge");
            let v = match v {
                Opnd::R(r) => fr.regs[*r as usize].clone(),
                Opnd::K(v) => v.clone(),
            };
            fr.regs[*d as usize] = v;
        } else if !phis.is_empty() {
            let mut tmp = Vec::with_capacity(phis.len());
            for (_, inc) in phis {
                let v = inc.iter().find(|x| x.0 == from).map(|x| &x.1).expect("phi edge");
                tmp.push(match v {
                    Opnd::R(r) => fr.regs[*r as usize].clone(),
                    Opnd::K(v) => v.clone(),
                });
            }
            for ((d, _), v) in phis.iter().zip(tmp) {
                fr.regs[*d as usize] = v;
            }
        }
        fr.bb = target;
        fr.ip = 0;
        self.covered.insert((fr.func, target));
    }

    fn ret_val(&mut self, st: &mut St, dst: u32, v: Option<Val>, normal: Option<u32>) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        if dst != NONE {
            if let Some(v) = v {
                fr.regs[dst as usize] = v;
            }
        }
        match normal {
            Some(b) => self.jump(st, b),
            None => fr.ip += 1,
        }
    }

    fn steps(&mut self, st: &mut St) -> R<()> {
        let mut cnt = 0u32;
        loop {
            st.steps += 1;
            self.st.instrs += 1;
            if st.steps > self.cfg.max_steps {
                return Err(End::Viol("hang".into(), format!("more than {} instructions", self.cfg.max_steps)));
            }
            cnt += 1;
            if cnt & 0xfffff == 0 && self.over() {
                return Err(End::Err("deadline".into()));
            }
            let body: &'static Body;
            let ins: &'static Ins;
            let fr = Rc::make_mut(st.frames.last_mut().unwrap());
            body = fr.body;
            ins = &body.blocks[fr.bb as usize].ins[fr.ip as usize];
            macro_rules! g {
                ($o:expr) => {
                    match $o {
                        Opnd::R(r) => &fr.regs[*r as usize],
                        Opnd::K(v) => v,
                    }
                };
            }
            macro_rules! set {
                ($v:expr) => {{
                    let v = $v;
                    let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                    fr.regs[ins.dst as usize] = v;
                    fr.ip += 1;
                }};
            }
            match &ins.i {
                I::Bin(op, Ty::Int(w), a, b) => {
                    let (x, y) = (g!(a).clone(), g!(b).clone());
                    if self.cfg.fork_select && matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) {
                        if let Some(v) = self.fork_div(st, *op, *w, &x, &y)? {
                            set!(v);
                            continue;
                        }
                    }
                    let mut v = self.bin(st, *op, *w, &x, &y)?;
                    if self.cfg.fork_select && matches!(op, Bin::Add | Bin::Sub) {
                        v = self.tidy(st, v, *w);
                    }
                    set!(v)
                }
                I::Bin(op, t, a, b) => {
                    let (x, y) = (g!(a).clone(), g!(b).clone());
                    let op = *op;
                    let (x, y) = match op {
                        Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv | Bin::FRem => (self.flt(st, &x, t.bits())?, self.flt(st, &y, t.bits())?),
                        _ => (x, y),
                    };
                    let v = self.lanes(t, &x, &y, |s, t, p, q| s.bin(st, op, t.bits(), p, q))?;
                    set!(v)
                }
                I::Cmp(p, t, a, b) => {
                    let (x, y) = (g!(a).clone(), g!(b).clone());
                    let p = *p;
                    let v = self.lanes(t, &x, &y, |s, t, m, n| Ok(s.cmp(st, p, t.bits(), m, n)))?;
                    set!(v)
                }
                I::FCmp(p, t, a, b) => {
                    let (x, y) = (g!(a).clone(), g!(b).clone());
                    let (x, y) = (self.flt(st, &x, t.bits())?, self.flt(st, &y, t.bits())?);
                    let (x, y) = match (x, y) {
                        (Val::C(x), Val::C(y)) => {
                            if t.bits() == 64 {
                                (f64::from_bits(x), f64::from_bits(y))
                            } else {
                                (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                            }
                        }
                        _ => return Err(End::Err("wide floating point".into())),
                    };
                    let un = x.is_nan() || y.is_nan();
                    let r = match &**p {
                        "oeq" => !un && x == y,
                        "ogt" => !un && x > y,
                        "oge" => !un && x >= y,
                        "olt" => !un && x < y,
                        "ole" => !un && x <= y,
                        "one" => !un && x != y,
                        "ord" => !un,
                        "uno" => un,
                        "ueq" => un || x == y,
                        "ugt" => un || x > y,
                        "uge" => un || x >= y,
                        "ult" => un || x < y,
                        "ule" => un || x <= y,
                        "une" => un || x != y,
                        _ => false,
                    };
                    set!(Val::C(r as u64))
                }
                I::FNeg(t, a) => {
                    let x = g!(a).clone();
                    let v = match self.flt(st, &x, t.bits())? {
                        Val::C(k) => Val::C(k ^ (1u64 << (t.bits() - 1))),
                        _ => return Err(End::Err("wide floating point".into())),
                    };
                    set!(v)
                }
                I::Cast(c, ft, tt, a) => {
                    let mut x = g!(a).clone();
                    if !matches!(c, Cast::Zext | Cast::Sext | Cast::Trunc | Cast::Bit) {
                        x = self.flt(st, &x, ft.bits())?;
                    }
                    let v = self.cast(st, *c, ft, tt, &x)?;
                    set!(v)
                }
                I::Select(c, t, a, b) => {
                    let (cv, x, y) = (g!(c).clone(), g!(a).clone(), g!(b).clone());
                    match cv {
                        Val::C(k) => set!(if k != 0 { x } else { y }),
                        Val::S(e) => {
                            let scalar_int = matches!(t, Ty::Int(_));
                            if let Some(k) = st.known.get(&e) {
                                let v = if *k == 1 { x } else { y };
                                set!(v);
                                continue;
                            }
                            if scalar_int && !(self.cfg.fork_select && t.bits() > 1) {
                                let w = t.bits();
                                let (p, q) = (self.ex(&x, w), self.ex(&y, w));
                                let r = self.ar.ite(e, p, q);
                                let v = self.val(r);
                                set!(v)
                            } else {
                                let k = self.concretize(st, &Val::S(e), 1)?;
                                set!(if k != 0 { x } else { y })
                            }
                        }
                        Val::Agg(cs) => {
                            let (xs, ys) = match (&x, &y) {
                                (Val::Agg(x), Val::Agg(y)) => (x.clone(), y.clone()),
                                _ => return Err(End::Err("vector select".into())),
                            };
                            let et = match t {
                                Ty::Vec(_, et) => et.clone(),
                                _ => return Err(End::Err("vector select".into())),
                            };
                            let mut r = vec![];
                            for i in 0..cs.len() {
                                let c = self.ex(&cs[i], 1);
                                let p = self.ex(&xs[i], et.bits());
                                let q = self.ex(&ys[i], et.bits());
                                let e = self.ar.ite(c, p, q);
                                r.push(self.val(e));
                            }
                            set!(Val::Agg(Rc::new(r)))
                        }
                        _ => return Err(End::Err("select".into())),
                    }
                }
                I::Gep(base, off, idx) => {
                    let b = g!(base).clone();
                    let mut o = *off as u64;
                    let mut sy: Option<Ex> = None;
                    for (v, w, sc) in idx {
                        match g!(v) {
                            Val::C(k) => o = o.wrapping_add((sext(*k as u128, *w) as i64 as u64).wrapping_mul(*sc)),
                            Val::S(e) => {
                                let e = *e;
                                let e = match st.known.get(&e) {
                                    Some(k) => self.ar.c(*k, *w),
                                    None => e,
                                };
                                let e = if *w < 64 { self.ar.sext(e, 64) } else { e };
                                let k = self.ar.c(*sc as u128, 64);
                                let e = self.ar.mul(e, k);
                                sy = Some(match sy {
                                    None => e,
                                    Some(x) => self.ar.add(x, e),
                                });
                            }
                            _ => return Err(End::Err("gep index".into())),
                        }
                    }
                    let v = match (b, sy) {
                        (Val::C(b), None) => Val::C(b.wrapping_add(o)),
                        (b, sy) => {
                            let mut e = self.ex(&b, 64);
                            if let Some(s) = sy {
                                e = self.ar.add(e, s);
                            }
                            let k = self.ar.c(o as u128, 64);
                            e = self.ar.add(e, k);
                            self.val(e)
                        }
                    };
                    set!(v)
                }
                I::Load(t, p) => {
                    let p = g!(p).clone();
                    let v = match p {
                        Val::C(a) => self.load(st, a, t)?,
                        Val::S(e) => self.load_sym(st, e, t)?,
                        _ => return Err(End::Err("load address".into())),
                    };
                    set!(v)
                }
                I::Store(t, v, p) => {
                    let (v, p) = (g!(v).clone(), g!(p).clone());
                    let a = self.conc64(st, &p)?;
                    if t.size() > 0 {
                        self.store(st, a, t, &v)?;
                    }
                    Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
                }
                I::Alloca(o) => {
                    let v = Val::C((fr.obj << 32) + o);
                    fr.regs[ins.dst as usize] = v;
                    fr.ip += 1;
                }
                I::Br(b) => self.jump(st, *b),
                I::CondBr(c, a, b) => match g!(c) {
                    Val::C(k) => {
                        let t = if *k != 0 { *a } else { *b };
                        self.jump(st, t)
                    }
                    Val::S(e) => {
                        let e = *e;
                        match self.decide(st, e) {
                            Dec::T => self.jump(st, *a),
                            Dec::F => self.jump(st, *b),
                            Dec::Unk => return Err(End::Err("solver unknown (branch)".into())),
                            Dec::Both(m) => {
                                let v = self.eval(st, e) == 1;
                                let ne = self.ar.not(e);
                                let (mine, other) = if v { (e, ne) } else { (ne, e) };
                                let mut o = self.fork(st);
                                self.assume(&mut o, other, m);
                                self.jump(&mut o, if v { *b } else { *a });
                                self.work.push(o);
                                let m = st.model.clone();
                                self.assume(st, mine, m);
                                self.jump(st, if v { *a } else { *b });
                            }
                        }
                    }
                    _ => return Err(End::Err("branch".into())),
                },
                I::Switch(v, w, d, cs) => {
                    let v = g!(v).clone();
                    if let Some(k) = Self::conc(&v) {
                        let t = cs.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d);
                        self.jump(st, t);
                        continue;
                    }
                    let e = self.ex(&v, *w);
                    if let Some(k) = st.known.get(&e) {
                        let t = cs.iter().find(|c| c.0 == *k).map(|c| c.1).unwrap_or(*d);
                        self.jump(st, t);
                        continue;
                    }
                    // group by target
                    let mut groups: Vec<(u32, Ex)> = vec![];
                    let mut none = self.ar.tru();
                    for (k, t) in cs {
                        let kc = self.ar.c(*k, *w);
                        let eq = self.ar.eq(e, kc);
                        let ne = self.ar.not(eq);
                        none = self.ar.and(none, ne);
                        if t == d {
                            continue;
                        }
                        match groups.iter_mut().find(|g| g.0 == *t) {
                            Some(g) => g.1 = self.ar.or(g.1, eq),
                            None => groups.push((*t, eq)),
                        }
                    }
                    // default: everything that goes nowhere else
                    let mut dc = self.ar.tru();
                    for (_, c) in groups.clone() {
                        let n = self.ar.not(c);
                        dc = self.ar.and(dc, n);
                    }
                    let _ = none;
                    groups.push((*d, dc));
                    let cur = groups.iter().position(|g| self.ar.eval(g.1, &st.model.v, &mut st.model.memo.borrow_mut()) == 1).unwrap();
                    let mut many = false;
                    for (i, (t, c)) in groups.iter().enumerate() {
                        if i == cur {
                            continue;
                        }
                        match self.feasible(st, *c) {
                            Err(()) => return Err(End::Err("solver unknown (switch)".into())),
                            Ok(None) => {}
                            Ok(Some(m)) => {
                                many = true;
                                let mut o = self.fork(st);
                                self.assume(&mut o, *c, m);
                                self.jump(&mut o, *t);
                                self.work.push(o);
                            }
                        }
                    }
                    let (t, c) = groups[cur];
                    if many {
                        let m = st.model.clone();
                        self.assume(st, c, m);
                    } else {
                        self.learn(st, c, true);
                    }
                    self.jump(st, t);
                }
                I::Ret(v) => {
                    let v = v.as_ref().map(|(_, o)| g!(o).clone());
                    let (obj, dst, normal) = (fr.obj, fr.dst, fr.normal);
                    if obj != 0 {
                        st.mem.free(obj);
                    }
                    st.frames.pop();
                    if st.frames.is_empty() {
                        return Err(End::Done);
                    }
                    self.ret_val(st, dst, v, normal);
                }
                I::Unreachable => return Err(End::Viol("abort".into(), "unreachable instruction executed".into())),
                I::Extract(v, ix) => {
                    let mut v = g!(v).clone();
                    for i in ix {
                        v = match v {
                            Val::Agg(a) => a[*i as usize].clone(),
                            _ => return Err(End::Err("extractvalue".into())),
                        };
                    }
                    set!(v)
                }
                I::Insert(v, e, ix) => {
                    let mut v = g!(v).clone();
                    let e = g!(e).clone();
                    fn ins_at(v: &mut Val, ix: &[u32], e: Val) {
                        if ix.is_empty() {
                            *v = e;
                        } else if let Val::Agg(a) = v {
                            ins_at(&mut Rc::make_mut(a)[ix[0] as usize], &ix[1..], e);
                        }
                    }
                    ins_at(&mut v, ix, e);
                    set!(v)
                }
                I::Copy(v) => {
                    let v = g!(v).clone();
                    set!(v)
                }
                I::Rmw(op, t, p, v) => {
                    let (p, v) = (g!(p).clone(), g!(v).clone());
                    let a = self.conc64(st, &p)?;
                    let old = self.load(st, a, t)?;
                    let w = t.bits();
                    let new = match &**op {
                        "xchg" => v,
                        "add" => self.bin(st, Bin::Add, w, &old, &v)?,
                        "sub" => self.bin(st, Bin::Sub, w, &old, &v)?,
                        "and" => self.bin(st, Bin::And, w, &old, &v)?,
                        "or" => self.bin(st, Bin::Or, w, &old, &v)?,
                        "xor" => self.bin(st, Bin::Xor, w, &old, &v)?,
                        o => return Err(End::Err(format!("atomicrmw {o}"))),
                    };
                    self.store(st, a, t, &new)?;
                    set!(old)
                }
                I::CmpXchg(t, p, x, n) => {
                    let (p, x, n) = (g!(p).clone(), g!(x).clone(), g!(n).clone());
                    let a = self.conc64(st, &p)?;
                    let old = self.load(st, a, t)?;
                    let eq = self.cmp(st, Pred::Eq, t.bits(), &old, &x);
                    let k = self.concretize(st, &eq, 1)?;
                    if k == 1 {
                        self.store(st, a, t, &n)?;
                    }
                    set!(Val::Agg(Rc::new(vec![old, Val::C(k as u64)])))
                }
                I::Fence => fr.ip += 1,
                I::LandingPad => return Err(End::Err("landing pad reached".into())),
                I::ExtractEl(_, v, i) => {
                    let (v, i) = (g!(v).clone(), g!(i).clone());
                    let k = self.concretize(st, &i, 64)? as usize;
                    match v {
                        Val::Agg(a) => set!(a[k].clone()),
                        _ => return Err(End::Err("extractelement".into())),
                    }
                }
                I::InsertEl(_, v, e, i) => {
                    let (v, e, i) = (g!(v).clone(), g!(e).clone(), g!(i).clone());
                    let k = self.concretize(st, &i, 64)? as usize;
                    match v {
                        Val::Agg(mut a) => {
                            Rc::make_mut(&mut a)[k] = e;
                            set!(Val::Agg(a))
                        }
                        _ => return Err(End::Err("insertelement".into())),
                    }
                }
                I::Shuffle(_, a, b, mk) => {
                    let (a, b) = (g!(a).clone(), g!(b).clone());
                    match (a, b) {
                        (Val::Agg(a), Val::Agg(b)) => {
                            let r = mk.iter().map(|i| if (*i as usize) < a.len() { a[*i as usize].clone() } else { b[*i as usize - a.len()].clone() }).collect();
                            set!(Val::Agg(Rc::new(r)))
                        }
                        _ => return Err(End::Err("shufflevector".into())),
                    }
                }
                I::Call(callee, args, rt, normal) => {
                    let vals: Vec<Val> = args.iter().map(|(_, o)| g!(o).clone()).collect();
                    let target = match callee {
                        Callee::Fn(f) => Ok(*f),
                        Callee::Ext(e) => Err(*e),
                        Callee::Ind(o) => {
                            let p = g!(o).clone();
                            let a = self.conc64(st, &p)?;
                            let id = a >> 32;
                            if id >= EXT_OID {
                                Err((id - EXT_OID) as u32)
                            } else if id >= FUNC_OID {
                                Ok((id - FUNC_OID) as u32)
                            } else if a == 1 {
                                // inline asm: only compiler barriers occur
                                Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
                                continue;
                            } else {
                                return Err(End::Err(format!("call through invalid pointer {a:#x}")));
                            }
                        }
                    };
                    match target {
                        Ok(f) => {
                            let f = self.ovr.get(&f).copied().unwrap_or(f);
                            if self.diverge[f as usize] {
                                let n = self.m.funcs[f as usize].name.to_string();
                                return Err(End::Viol("panic".into(), short(&n)));
                            }
                            let body = self.body(f);
                            let obj = if body.frame > 0 { st.mem.alloc(body.frame as usize) } else { 0 };
                            let mut regs = vec![Val::C(0); body.nregs as usize];
                            for (i, v) in vals.into_iter().enumerate().take(self.m.funcs[f as usize].params) {
                                regs[i] = v;
                            }
                            self.covered.insert((f, 0));
                            if st.frames.len() > 400 {
                                return Err(End::Viol("hang".into(), "call depth".into()));
                            }
                            st.frames.push(Rc::new(Frame { func: f, body, regs, bb: 0, ip: 0, obj, dst: ins.dst, normal: *normal }));
                        }
                        Err(e) => {
                            let k = self.ext[e as usize];
                            let v = self.ext_call(st, k, e, args, vals, rt)?;
                            self.ret_val(st, ins.dst, v, *normal);
                        }
                    }
                }
            }
        }
    }

    fn ext_call(&mut self, st: &mut St, k: Ext, e: u32, args: &[(Ty, Opnd)], v: Vec<Val>, rt: &Ty) -> R<Option<Val>> {
        use Ext::*;
        let w = args.first().map(|a| a.0.bits()).unwrap_or(0);
        if let Some(Ty::Vec(..)) = args.first().map(|a| &a.0) {
            // lane-wise integer intrinsics
            let (n, et) = match &args[0].0 {
                Ty::Vec(n, et) => (*n as usize, et.clone()),
                _ => unreachable!(),
            };
            let lane_args: Vec<(Ty, Opnd)> = args
                .iter()
                .map(|(t, o)| match t {
                    Ty::Vec(_, et) => ((**et).clone(), o.clone()),
                    t => (t.clone(), o.clone()),
                })
                .collect();
            let mut out = vec![];
            for i in 0..n {
                let lv: Vec<Val> = v
                    .iter()
                    .map(|x| match x {
                        Val::Agg(a) if a.len() == n => a[i].clone(),
                        x => x.clone(),
                    })
                    .collect();
                out.push(self.ext_call(st, k, e, &lane_args, lv, &et)?.unwrap());
            }
            return Ok(Some(Val::Agg(Rc::new(out))));
        }
        let r = match k {
            Nop => None,
            Zero => Some(Val::C(0)),
            MinusOne => Some(mkint(u128::MAX, rt.bits())),
            Memcpy => {
                let n = self.conc64(st, &v[2])?;
                if n > 0 {
                    let d = self.conc64(st, &v[0])?;
                    let s = self.conc64(st, &v[1])?;
                    self.memcpy(st, d, s, n)?;
                }
                Some(v[0].clone())
            }
            Memset => {
                let n = self.conc64(st, &v[2])?;
                if n > 0 {
                    let d = self.conc64(st, &v[0])?;
                    for i in 0..n {
                        self.store_int(st, d + i, 8, &v[1])?;
                    }
                }
                Some(v[0].clone())
            }
            UMax | UMin | SMax | SMin => {
                let p = match k {
                    UMax => Pred::Ugt,
                    UMin => Pred::Ult,
                    SMax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let c = self.cmp(st, p, w, &v[0], &v[1]);
                Some(self.ite(&c, &v[0], &v[1], w))
            }
            UaddSat => {
                let s = self.bin(st, Bin::Add, w, &v[0], &v[1])?;
                let c = self.cmp(st, Pred::Ult, w, &s, &v[0]);
                let m = mkint(u128::MAX, w);
                Some(self.ite(&c, &m, &s, w))
            }
            UsubSat => {
                let s = self.bin(st, Bin::Sub, w, &v[0], &v[1])?;
                let c = self.cmp(st, Pred::Ult, w, &v[0], &v[1]);
                let m = mkint(0, w);
                Some(self.ite(&c, &m, &s, w))
            }
            SaddSat | SsubSat => {
                let (r, o) = self.overflow(st, if k == SaddSat { 0 } else { 1 }, true, w, &v[0], &v[1])?;
                let z = mkint(0, w);
                let neg = self.cmp(st, Pred::Slt, w, &v[0], &z);
                let mn = mkint(1u128 << (w - 1), w);
                let mx = mkint((1u128 << (w - 1)) - 1, w);
                let s = self.ite(&neg, &mn, &mx, w);
                Some(self.ite(&o, &s, &r, w))
            }
            Ov(op, sg) => {
                let (r, o) = self.overflow(st, op, sg, w, &v[0], &v[1])?;
                Some(Val::Agg(Rc::new(vec![r, o])))
            }
            Bswap => {
                let x = self.ex(&v[0], w);
                let mut acc: Option<Ex> = None;
                for i in 0..w / 8 {
                    let b = self.ar.extract(x, 8 * i + 7, 8 * i);
                    acc = Some(match acc {
                        None => b,
                        Some(h) => self.ar.concat(h, b),
                    });
                }
                Some(self.val(acc.unwrap()))
            }
            BitRev => {
                let x = self.ex(&v[0], w);
                let mut acc: Option<Ex> = None;
                for i in 0..w {
                    let b = self.ar.extract(x, i, i);
                    acc = Some(match acc {
                        None => b,
                        Some(h) => self.ar.concat(h, b),
                    });
                }
                Some(self.val(acc.unwrap()))
            }
            Ctpop | Ctlz | Cttz => {
                let x = self.ex(&v[0], w);
                let r = match k {
                    Ctpop => self.ar.ones_pop(x),
                    Ctlz => self.ar.ctlz(x),
                    _ => self.ar.cttz(x),
                };
                Some(self.val(r))
            }
            Fshl | Fshr => {
                let (a, b) = (self.ex(&v[0], w), self.ex(&v[1], w));
                let s = self.concretize(st, &v[2], w)? as u32 % w;
                let r = if s == 0 {
                    if k == Fshl {
                        a
                    } else {
                        b
                    }
                } else {
                    let s = if k == Fshl { s } else { w - s };
                    let h = self.ar.extract(a, w - 1 - s, 0);
                    let l = self.ar.extract(b, w - 1, w - s);
                    self.ar.concat(h, l)
                };
                Some(self.val(r))
            }
            Abs => {
                let z = mkint(0, w);
                let n = self.bin(st, Bin::Sub, w, &z, &v[0])?;
                let c = self.cmp(st, Pred::Slt, w, &v[0], &z);
                Some(self.ite(&c, &n, &v[0], w))
            }
            Scmp | Ucmp => {
                let (lt, gt) = if k == Scmp { (Pred::Slt, Pred::Sgt) } else { (Pred::Ult, Pred::Ugt) };
                let rw = rt.bits();
                let l = self.cmp(st, lt, w, &v[0], &v[1]);
                let g = self.cmp(st, gt, w, &v[0], &v[1]);
                let (m1, z, p1) = (mkint(u128::MAX, rw), mkint(0, rw), mkint(1, rw));
                let x = self.ite(&g, &p1, &z, rw);
                Some(self.ite(&l, &m1, &x, rw))
            }
            IsConst => Some(Val::C(0)),
            Expect | TlsAddr => Some(v[0].clone()),
            FAbs => match &self.flt(st, &v[0], rt.bits())? {
                Val::C(k) => Some(Val::C(k & !(1u64 << (rt.bits() - 1)))),
                _ => return Err(End::Err("wide floating point".into())),
            },
            PtrMask => Some(self.bin(st, Bin::And, 64, &v[0], &v[1])?),
            LoadRel => {
                let p = self.conc64(st, &v[0])?;
                let o = self.conc64(st, &v[1])?;
                let a = p.wrapping_add(o);
                let g = (a >> 32).wrapping_sub(GLOB_OID) as usize;
                let off = a & 0xffff_ffff;
                let t = self.m.globals.get(g).and_then(|g| g.rel_relocs.iter().find(|r| r.0 == off)).map(|r| r.1);
                match t {
                    Some(t) => Some(Val::C(t)),
                    None => return Err(End::Err("load.relative".into())),
                }
            }
            Trap => return Err(End::Viol("abort".into(), "abort".into())),
            Bcmp => {
                let n = self.conc64(st, &v[2])?;
                if n == 0 {
                    return Ok(Some(Val::C(0)));
                }
                let (a, b) = (self.conc64(st, &v[0])?, self.conc64(st, &v[1])?);
                let (x, y) = (self.bytes(st, a, n)?, self.bytes(st, b, n)?);
                let mem = &*self.m.exts[e as usize] == "memcmp";
                let mut acc = self.ar.c(0, 32);
                for i in (0..n as usize).rev() {
                    let (p, q) = (self.ex(&x[i], 8), self.ex(&y[i], 8));
                    let eq = self.ar.eq(p, q);
                    let ne = if mem {
                        let lt = self.ar.ult(p, q);
                        let (m1, p1) = (self.ar.c(u128::MAX, 32), self.ar.c(1, 32));
                        self.ar.ite(lt, m1, p1)
                    } else {
                        self.ar.c(1, 32)
                    };
                    acc = self.ar.ite(eq, acc, ne);
                }
                Some(self.val(acc))
            }
            Strlen => {
                let a = self.conc64(st, &v[0])?;
                let mut n = 0;
                loop {
                    let b = self.load_int(st, a + n, 8)?;
                    if self.concretize(st, &b, 8)? == 0 {
                        break;
                    }
                    n += 1;
                }
                Some(Val::C(n))
            }
            Malloc | Calloc => {
                let mut n = self.conc64(st, &v[0])?;
                if k == Calloc {
                    n *= self.conc64(st, &v[1])?;
                }
                if n > 1 << 24 {
                    return Err(End::Err(format!("allocation of {n} bytes")));
                }
                Some(Val::C(st.mem.alloc(n as usize) << 32))
            }
            Memalign => {
                let p = self.conc64(st, &v[0])?;
                let n = self.conc64(st, &v[2])?;
                let a = st.mem.alloc(n as usize) << 32;
                self.store_int(st, p, 64, &Val::C(a))?;
                Some(Val::C(0))
            }
            Realloc => {
                let n = self.conc64(st, &v[1])?;
                let p = self.conc64(st, &v[0])?;
                if n > 1 << 24 {
                    return Err(End::Err(format!("allocation of {n} bytes")));
                }
                let a = st.mem.alloc(n as usize) << 32;
                if p != 0 {
                    let old = match st.mem.get(p >> 32) {
                        Some(o) => o.b.len() as u64,
                        None => return Err(End::Err("realloc of an invalid pointer".into())),
                    };
                    self.memcpy(st, a, p, old.min(n))?;
                    st.mem.free(p >> 32);
                }
                Some(Val::C(a))
            }
            Free => {
                let p = self.conc64(st, &v[0])?;
                if p >> 32 != 0 {
                    if st.mem.get(p >> 32).is_none() {
                        return Err(End::Err("double free".into()));
                    }
                    st.mem.free(p >> 32);
                }
                None
            }
            Getenv => {
                let a = self.conc64(st, &v[0])?;
                let mut n = 0;
                while let Val::C(k) = self.load_int(st, a + n, 8)? {
                    if k == 0 {
                        break;
                    }
                    n += 1;
                }
                let name = self.cstring(st, a, n)?;
                let r = self.env_objs.iter().find(|x| x.0 == name).map(|x| x.1 << 32).unwrap_or(0);
                Some(Val::C(r))
            }
            FailErrno => {
                let a = self.errno_obj << 32;
                self.store_int(st, a, 32, &Val::C(2))?;
                let ptr = matches!(rt, Ty::Ptr);
                Some(if ptr { Val::C(0) } else { mkint(u128::MAX, rt.bits()) })
            }
            Errno => Some(Val::C(self.errno_obj << 32)),
            Clock => {
                let p = self.conc64(st, &v[1])?;
                self.store_int(st, p, 64, &Val::C(1_700_000_000))?;
                self.store_int(st, p + 8, 64, &Val::C(0))?;
                Some(Val::C(0))
            }
            Syscall => {
                let n = self.conc64(st, &v[0])?;
                if n == 318 {
                    // getrandom: the buffer stays zero
                    Some(v[2].clone())
                } else {
                    return Err(End::Err(format!("syscall {n}")));
                }
            }
            KeyCreate => {
                let p = self.conc64(st, &v[0])?;
                self.store_int(st, p, 32, &Val::C(1))?;
                Some(Val::C(0))
            }
            SxBytes => {
                let p = self.conc64(st, &v[0])?;
                let n = self.conc64(st, &v[1])?;
                let (np, nl) = (self.conc64(st, &v[2])?, self.conc64(st, &v[3])?);
                let name = self.cstring(st, np, nl)?;
                for i in 0..n {
                    let e = self.fresh(st, &format!("{name}[{i}]"), 8);
                    self.store_int(st, p + i, 8, &Val::S(e))?;
                }
                None
            }
            SxInt => {
                let b = self.conc64(st, &v[0])? as u32;
                let (np, nl) = (self.conc64(st, &v[1])?, self.conc64(st, &v[2])?);
                let name = self.cstring(st, np, nl)?;
                let e = self.fresh(st, &name, b);
                let e = self.ar.zresize(e, 64);
                Some(Val::S(e))
            }
            SxConc => {
                let k = self.conc64(st, &v[0])?;
                Some(Val::C(k))
            }
            SxAssume => {
                let c = self.ex(&v[0], w);
                let c = if w > 1 { self.ar.trunc(c, 1) } else { c };
                match self.feasible(st, c) {
                    Err(()) => return Err(End::Err("solver unknown (assume)".into())),
                    Ok(None) => return Err(End::Assume),
                    Ok(Some(m)) => self.assume(st, c, m),
                }
                None
            }
            SxAssert | SxKf => {
                let c = self.ex(&v[0], w);
                let c = if w > 1 { self.ar.trunc(c, 1) } else { c };
                let (np, nl) = (self.conc64(st, &v[1])?, self.conc64(st, &v[2])?);
                let id = self.cstring(st, np, nl)?;
                *self.st.asserts.entry(id.clone()).or_insert(0) += 1;
                let n = self.ar.not(c);
                match self.feasible(st, n) {
                    Err(()) => return Err(End::Err(format!("solver unknown (assert {id})"))),
                    Ok(None) => {}
                    Ok(Some(m)) => {
                        let at = self.backtrace(st);
                        let kf = k == SxKf;
                        self.report(st, if kf { "kf" } else { "assert" }, &id, &at, Some(&m), kf);
                        if !kf {
                            match self.feasible(st, c) {
                                Ok(Some(m)) => self.assume(st, c, m),
                                _ => return Err(End::Done),
                            }
                        }
                    }
                }
                None
            }
            SxCover => {
                let (np, nl) = (self.conc64(st, &v[0])?, self.conc64(st, &v[1])?);
                let id = self.cstring(st, np, nl)?;
                Rc::make_mut(&mut st.cov).push(id.clone());
                *self.st.covers.entry(id).or_insert(0) += 1;
                None
            }
            SxLog => {
                let (np, nl) = (self.conc64(st, &v[0])?, self.conc64(st, &v[1])?);
                let s = self.cstring(st, np, nl)?;
                Rc::make_mut(&mut st.out).push(s);
                None
            }
            SxNote => None,
            Unsupported => return Err(End::Err(format!("unsupported external {}", self.m.exts[e as usize]))),
        };
        Ok(r)
    }
    fn fresh(&mut self, st: &mut St, name: &str, w: u32) -> Ex {
        let mut n = name.to_string();
        let mut k = 1;
        while st.names.contains_key(&n) {
            k += 1;
            n = format!("{name}#{k}");
        }
        // the width is part of the identity so that paths cannot disagree
        let e = self.ar.var(&format!("{n}:{w}"), w);
        Rc::make_mut(&mut st.names).insert(n, e);
        e
    }
    fn ite(&mut self, c: &Val, a: &Val, b: &Val, w: u32) -> Val {
        match c {
            Val::C(k) => {
                if *k != 0 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            Val::S(e) => {
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let r = self.ar.ite(*e, x, y);
                self.val(r)
            }
            _ => panic!(),
        }
    }
    fn overflow(&mut self, st: &St, op: u8, sg: bool, w: u32, a: &Val, b: &Val) -> R<(Val, Val)> {
        let bop = [Bin::Add, Bin::Sub, Bin::Mul][op as usize];
        let mut r = self.bin(st, bop, w, a, b)?;
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.ex(&r, w);
        if self.cfg.fork_select && op < 2 {
            r = self.tidy(st, r, w);
        }
        if w <= 64 {
            let (a, b) = (self.range(st, x), self.range(st, y));
            let within = if sg {
                let (a, b) = (a.sb(w), b.sb(w));
                let c: Vec<i128> = match op {
                    0 => vec![a.0 + b.0, a.1 + b.1],
                    1 => vec![a.0 - b.1, a.1 - b.0],
                    _ => vec![a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1],
                };
                let m = (1i128 << (w - 1)) - 1;
                c.iter().all(|v| *v <= m && *v >= -m - 1)
            } else {
                let (a, b) = (a.ub(w), b.ub(w));
                match op {
                    0 => a.1 + b.1 <= mask(w),
                    1 => a.0 >= b.1,
                    _ => a.1.checked_mul(b.1).map(|v| v <= mask(w)).unwrap_or(false),
                }
            };
            if within {
                return Ok((r, Val::C(0)));
            }
        }
        let ar = &mut self.ar;
        let o = match (op, sg) {
            (0, false) => {
                if ar.nb(x).max(ar.nb(y)) < w {
                    ar.fls()
                } else {
                    ar.ult(e, x)
                }
            }
            (1, false) => ar.ult(x, y),
            (0, true) | (1, true) => {
                if ar.nb(x) < w && ar.nb(y) < w && (op == 1 || ar.nb(x).max(ar.nb(y)) < w - 1) {
                    ar.fls()
                } else {
                    let w1 = w + 1;
                    if w1 > 128 {
                        return Err(End::Err("128-bit overflow".into()));
                    }
                    let (sx, sy) = (ar.sext(x, w1), ar.sext(y, w1));
                    let t = if op == 0 { ar.add(sx, sy) } else { ar.sub(sx, sy) };
                    let se = ar.sext(e, w1);
                    ar.ne(t, se)
                }
            }
            (_, false) => {
                if ar.nb(x) + ar.nb(y) <= w {
                    ar.fls()
                } else {
                    if 2 * w > 128 {
                        return Err(End::Err("128-bit overflow".into()));
                    }
                    let (zx, zy) = (ar.zext(x, 2 * w), ar.zext(y, 2 * w));
                    let t = ar.mul(zx, zy);
                    let h = ar.extract(t, 2 * w - 1, w);
                    let z = ar.c(0, w);
                    ar.ne(h, z)
                }
            }
            (_, true) => {
                if ar.nb(x) + ar.nb(y) < w {
                    ar.fls()
                } else {
                    if 2 * w > 128 {
                        return Err(End::Err("128-bit overflow".into()));
                    }
                    // a constant factor needs no double-width product
                    let k = ar.cv(y).or(ar.cv(x));
                    let other = if ar.cv(y).is_some() { x } else { y };
                    match k.map(|k| sext(k, w)) {
                        Some(k) if k > 0 => {
                            let mx = ((1u128 << (w - 1)) - 1) as i128;
                            let hi = ar.c((mx / k) as u128, w);
                            let lo = ar.c((-(mx / k) - if mx % k == k - 1 { 1 } else { 0 }) as u128, w);
                            let g = ar.slt(hi, other);
                            let l = ar.slt(other, lo);
                            ar.or(g, l)
                        }
                        _ => {
                            let (sx, sy) = (ar.sext(x, 2 * w), ar.sext(y, 2 * w));
                            let t = ar.mul(sx, sy);
                            let se = ar.sext(e, 2 * w);
                            ar.ne(t, se)
                        }
                    }
                }
            }
        };
        Ok((r, self.val(o)))
    }
}

fn short(n: &str) -> String {
    match n.find("9panicking") {
        Some(p) => n[p + 10..].to_string(),
        None => n.to_string(),
    }
}
