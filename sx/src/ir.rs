//! Parser for LLVM textual IR (as rustc 1.99 / LLVM prints it): types, globals
//! and, lazily, function bodies.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u32, Rc<Ty>),
    Other,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                // storage size rounded to the alignment
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => n * t.bits(),
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let mut a = 1;
                while a * 8 < *w as u64 && a < 16 {
                    a *= 2;
                }
                a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn field_off(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) => (i * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field {i}")
            }
            _ => panic!("field of {self:?}"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    W(u128),
    S(u32),
    Agg(Rc<Vec<Val>>),
}

impl Val {
    pub fn zero(t: &Ty) -> Val {
        match t {
            Ty::Int(w) if *w > 64 => Val::W(0),
            Ty::Arr(n, t) => Val::Agg(Rc::new(vec![Val::zero(t); *n as usize])),
            Ty::Vec(n, t) => Val::Agg(Rc::new(vec![Val::zero(t); *n as usize])),
            Ty::Struct(f, _) => Val::Agg(Rc::new(f.iter().map(Val::zero).collect())),
            _ => Val::C(0),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Zext,
    Sext,
    Trunc,
    Bit,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ext(u32),
    Ind(Opnd),
}
#[derive(Clone, Debug)]
pub enum I {
    Bin(Bin, Ty, Opnd, Opnd),
    Cmp(Pred, Ty, Opnd, Opnd),
    FCmp(Rc<str>, Ty, Opnd, Opnd),
    FNeg(Ty, Opnd),
    Cast(Cast, Ty, Ty, Opnd),
    Select(Opnd, Ty, Opnd, Opnd),
    Gep(Opnd, i64, Vec<(Opnd, u32, u64)>),
    Load(Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Alloca(u64),
    Call(Callee, Vec<(Ty, Opnd)>, Ty, Option<u32>),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Opnd, u32, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opnd)>),
    Unreachable,
    Extract(Opnd, Vec<u32>),
    Insert(Opnd, Opnd, Vec<u32>),
    Copy(Opnd),
    Rmw(Rc<str>, Ty, Opnd, Opnd),
    CmpXchg(Ty, Opnd, Opnd, Opnd),
    Fence,
    LandingPad,
    ExtractEl(Ty, Opnd, Opnd),
    InsertEl(Ty, Opnd, Opnd, Opnd),
    Shuffle(Ty, Opnd, Opnd, Vec<u32>),
}
#[derive(Clone, Debug)]
pub struct Ins {
    pub i: I,
    pub dst: u32,
    pub dbg: u32,
}
pub const NONE: u32 = u32::MAX;

#[derive(Default, Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub ins: Vec<Ins>,
}
#[derive(Debug)]
pub struct Body {
    pub blocks: Vec<Block>,
    pub nregs: u32,
    pub frame: u64,
}
pub struct Func {
    pub name: Rc<str>,
    pub params: usize,
    pub unnamed: usize,
    pub param_names: Vec<String>,
    pub dbg: u32,
    pub start: usize, // byte offset of the body
    pub body: Option<Rc<Body>>,
}
pub struct Global {
    pub name: Rc<str>,
    pub constant: bool,
    pub bytes: Vec<u8>,
    pub ptr_relocs: Vec<(u64, u64)>,
    pub rel_relocs: Vec<(u64, u64)>,
}

pub struct Module {
    pub text: Rc<Vec<u8>>,
    pub types: HashMap<String, Ty>,
    pub funcs: Vec<Func>,
    pub fn_ids: HashMap<Rc<str>, u32>,
    pub exts: Vec<Rc<str>>,
    pub ext_ids: HashMap<Rc<str>, u32>,
    pub weak: Vec<String>,
    pub globals: Vec<Global>,
    pub glob_ids: HashMap<Rc<str>, u32>,
    pub md: Vec<(usize, usize)>,
}

pub const FUNC_OID: u64 = 0x4000_0000;
pub const EXT_OID: u64 = 0x5000_0000;
pub const GLOB_OID: u64 = 1;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tok<'a> {
    Word(&'a str),
    Label(&'a str),
    Local(&'a str),
    Global(&'a str),
    Num(&'a str),
    CStr(&'a str),
    Str(&'a str),
    Meta(&'a str),
    Attr(&'a str),
    P(u8),
    Eof,
}

pub struct Lex<'a> {
    s: &'a [u8],
    pub p: usize,
    peeked: Option<(Tok<'a>, usize)>,
}

fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a [u8], p: usize) -> Self {
        Lex { s, p, peeked: None }
    }
    fn st(&self, a: usize, b: usize) -> &'a str {
        unsafe { std::str::from_utf8_unchecked(&self.s[a..b]) }
    }
    fn name(&self, p: usize) -> (&'a str, usize) {
        if self.s.get(p) == Some(&b'"') {
            let mut q = p + 1;
            while self.s[q] != b'"' {
                q += 1;
            }
            (self.st(p + 1, q), q + 1)
        } else {
            let mut q = p;
            while q < self.s.len() && idc(self.s[q]) {
                q += 1;
            }
            (self.st(p, q), q)
        }
    }
    fn scan(&self) -> (Tok<'a>, usize) {
        let s = self.s;
        let mut p = self.p;
        loop {
            while p < s.len() && matches!(s[p], b' ' | b'\n' | b'\t' | b'\r') {
                p += 1;
            }
            if p < s.len() && s[p] == b';' {
                while p < s.len() && s[p] != b'\n' {
                    p += 1;
                }
                continue;
            }
            break;
        }
        if p >= s.len() {
            return (Tok::Eof, p);
        }
        let c = s[p];
        match c {
            b'%' => {
                let (n, q) = self.name(p + 1);
                (Tok::Local(n), q)
            }
            b'@' => {
                let (n, q) = self.name(p + 1);
                (Tok::Global(n), q)
            }
            b'!' => {
                if p + 1 < s.len() && (idc(s[p + 1]) && s[p + 1] != b'"') {
                    let (n, q) = self.name(p + 1);
                    (Tok::Meta(n), q)
                } else {
                    (Tok::Meta(""), p + 1)
                }
            }
            b'#' => {
                let (n, q) = self.name(p + 1);
                (Tok::Attr(n), q)
            }
            b'"' => {
                let (n, q) = self.name(p);
                if q < s.len() && s[q] == b':' {
                    return (Tok::Label(n), q + 1);
                }
                (Tok::Str(n), q)
            }
            b'c' if p + 1 < s.len() && s[p + 1] == b'"' => {
                let (n, q) = self.name(p + 1);
                (Tok::CStr(n), q)
            }
            _ if idc(c) => {
                let (n, q) = self.name(p);
                if q < s.len() && s[q] == b':' {
                    return (Tok::Label(n), q + 1);
                }
                let f = n.as_bytes()[0];
                if f.is_ascii_digit() || (f == b'-' && n.len() > 1 && n.as_bytes()[1].is_ascii_digit()) {
                    // floats such as 1.000000e+10
                    let mut q = q;
                    if n.ends_with('e') && s.get(q) == Some(&b'+') {
                        q += 1;
                        while q < s.len() && s[q].is_ascii_digit() {
                            q += 1;
                        }
                    }
                    return (Tok::Num(self.st(p, q)), q);
                }
                (Tok::Word(n), q)
            }
            _ => {
                if s[p..].starts_with(b"...") {
                    return (Tok::Word("..."), p + 3);
                }
                (Tok::P(c), p + 1)
            }
        }
    }
    pub fn peek(&mut self) -> Tok<'a> {
        if self.peeked.is_none() {
            self.peeked = Some(self.scan());
        }
        self.peeked.unwrap().0
    }
    pub fn next(&mut self) -> Tok<'a> {
        let t = self.peek();
        self.p = self.peeked.unwrap().1;
        self.peeked = None;
        t
    }
    pub fn eat(&mut self, t: Tok) -> bool {
        if self.peek() == t {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn p(&mut self, c: u8) -> bool {
        self.eat(Tok::P(c))
    }
    pub fn want(&mut self, c: u8) {
        let at = self.p;
        let t = self.next();
        if t != Tok::P(c) {
            panic!("expected {:?}, found {:?} at {}", c as char, t, self.ctx(at));
        }
    }
    pub fn ctx(&self, at: usize) -> String {
        let a = at.saturating_sub(120);
        let b = (at + 80).min(self.s.len());
        String::from_utf8_lossy(&self.s[a..b]).into_owned()
    }
    pub fn word(&mut self) -> &'a str {
        match self.next() {
            Tok::Word(w) => w,
            t => panic!("word expected, found {t:?} at {}", self.ctx(self.p)),
        }
    }
    pub fn eatw(&mut self, w: &str) -> bool {
        if self.peek() == Tok::Word(w) {
            self.next();
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        // just after '('
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => d -= 1,
                Tok::Eof => panic!("eof in parens"),
                _ => {}
            }
        }
    }
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    let hex = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(hex(b[i + 1]) * 16 + hex(b[i + 2]));
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

fn parse_int(s: &str) -> u128 {
    if let Some(r) = s.strip_prefix('-') {
        (r.parse::<u128>().unwrap()).wrapping_neg()
    } else {
        s.parse::<u128>().unwrap()
    }
}

pub fn mkint(v: u128, w: u32) -> Val {
    let m = crate::expr::mask(w);
    if w > 64 {
        Val::W(v & m)
    } else {
        Val::C((v & m) as u64)
    }
}

fn is_value_word(w: &str) -> bool {
    matches!(
        w,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint"
            | "bitcast" | "trunc" | "sub" | "add" | "splat" | "asm" | "xor" | "ptrtoaddr"
    )
}

/// A constant that may still mention addresses.
pub enum Cst {
    V(Val),
    Rel(u64), // i32 trunc(target - here): the target address
}

impl Module {
    pub fn load(text: Vec<u8>) -> Module {
        let text = Rc::new(text);
        let mut m = Module {
            text: text.clone(),
            types: HashMap::new(),
            funcs: vec![],
            fn_ids: HashMap::new(),
            exts: vec![],
            ext_ids: HashMap::new(),
            weak: vec![],
            globals: vec![],
            glob_ids: HashMap::new(),
            md: vec![],
        };
        let s: &[u8] = &text;
        let mut p = 0;
        let mut glob_pos = vec![];
        let mut aliases: Vec<(String, usize)> = vec![];
        while p < s.len() {
            let e = s[p..].iter().position(|c| *c == b'\n').map(|x| p + x).unwrap_or(s.len());
            let line = &s[p..e];
            if line.starts_with(b"@") {
                let mut lx = Lex::new(s, p);
                let name: Rc<str> = match lx.next() {
                    Tok::Global(n) => n.into(),
                    _ => unreachable!(),
                };
                lx.want(b'=');
                let mut constant = false;
                let mut ext = false;
                let mut alias = false;
                loop {
                    match lx.peek() {
                        Tok::Word("constant") => {
                            constant = true;
                            lx.next();
                            break;
                        }
                        Tok::Word("global") => {
                            lx.next();
                            break;
                        }
                        Tok::Word("alias") => {
                            alias = true;
                            lx.next();
                            break;
                        }
                        Tok::Word(w) => {
                            if w == "external" || w == "extern_weak" {
                                ext = true;
                            }
                            if w == "extern_weak" {
                                m.weak.push(name.to_string());
                            }
                            lx.next();
                            if lx.p(b'(') {
                                lx.skip_parens();
                            }
                        }
                        t => panic!("global {name}: {t:?}"),
                    }
                }
                if alias {
                    aliases.push((name.to_string(), lx.p));
                } else {
                    let id = m.globals.len() as u32;
                    m.glob_ids.insert(name.clone(), id);
                    m.globals.push(Global { name, constant, bytes: vec![], ptr_relocs: vec![], rel_relocs: vec![] });
                    glob_pos.push((lx.p, ext));
                }
            } else if line.starts_with(b"%") {
                let mut lx = Lex::new(s, p);
                let name = match lx.next() {
                    Tok::Local(n) => n.to_string(),
                    _ => unreachable!(),
                };
                lx.want(b'=');
                assert_eq!(lx.word(), "type");
                let t = m.ty(&mut lx);
                m.types.insert(name, t);
            } else if line.starts_with(b"define") || line.starts_with(b"declare") {
                let def = line.starts_with(b"define");
                let mut lx = Lex::new(s, p);
                lx.next();
                let mut weak = false;
                let name: Rc<str> = loop {
                    match lx.next() {
                        Tok::Global(n) => break n.into(),
                        Tok::Word("extern_weak") => weak = true,
                        Tok::Eof => panic!("eof"),
                        _ => {}
                    }
                };
                if weak {
                    m.weak.push(name.to_string());
                }
                if !def {
                    let id = m.exts.len() as u32;
                    m.exts.push(name.clone());
                    m.ext_ids.insert(name, id);
                } else {
                    lx.want(b'(');
                    let mut params = vec![];
                    let mut unnamed = 0;
                    let mut depth = 1;
                    while depth > 0 {
                        match lx.next() {
                            Tok::P(b'(') => depth += 1,
                            Tok::P(b')') => depth -= 1,
                            Tok::Local(n) if depth == 1 => {
                                // a named type also lexes as Local, but rustc emits none in params
                                if n.bytes().all(|c| c.is_ascii_digit()) {
                                    unnamed += 1;
                                }
                                params.push(n.to_string());
                            }
                            _ => {}
                        }
                    }
                    let mut dbg = 0;
                    loop {
                        match lx.next() {
                            Tok::P(b'{') => break,
                            Tok::Meta("dbg") => {
                                if let Tok::Meta(n) = lx.next() {
                                    dbg = n.parse().unwrap_or(0);
                                }
                            }
                            Tok::Eof => panic!("eof"),
                            _ => {}
                        }
                    }
                    let id = m.funcs.len() as u32;
                    m.fn_ids.insert(name.clone(), id);
                    m.funcs.push(Func { name, params: params.len(), unnamed, param_names: params, dbg, start: lx.p, body: None });
                    // skip to the closing brace line
                    let mut q = e + 1;
                    loop {
                        let ee = s[q..].iter().position(|c| *c == b'\n').map(|x| q + x).unwrap();
                        if &s[q..ee] == b"}" {
                            p = ee + 1;
                            break;
                        }
                        q = ee + 1;
                    }
                    continue;
                }
            } else if line.starts_with(b"!") && line.len() > 1 && line[1].is_ascii_digit() {
                let q = line.iter().position(|c| *c == b' ').unwrap();
                let n: usize = std::str::from_utf8(&line[1..q]).unwrap().parse().unwrap();
                if m.md.len() <= n {
                    m.md.resize(n + 1, (0, 0));
                }
                m.md[n] = (p + q + 3, e);
            }
            p = e + 1;
        }
        for (n, p) in aliases {
            // alias <ty>, ptr @target
            let mut lx = Lex::new(s, p);
            let _ = m.ty(&mut lx);
            lx.want(b',');
            let _ = m.ty(&mut lx);
            if let Tok::Global(t) = lx.next() {
                if let Some(f) = m.fn_ids.get(t).copied() {
                    m.fn_ids.insert(n.as_str().into(), f);
                } else if let Some(g) = m.glob_ids.get(t).copied() {
                    m.glob_ids.insert(n.as_str().into(), g);
                }
            }
        }
        for (i, (p, ext)) in glob_pos.into_iter().enumerate() {
            let mut lx = Lex::new(s, p);
            let t = m.ty(&mut lx);
            let mut b = vec![0u8; t.size() as usize];
            let mut pr = vec![];
            let mut rr = vec![];
            if !ext {
                m.init(&mut lx, &t, &mut b, 0, &mut pr, &mut rr);
            }
            m.globals[i].bytes = b;
            m.globals[i].ptr_relocs = pr;
            m.globals[i].rel_relocs = rr;
        }
        m
    }

    pub fn ty(&self, lx: &mut Lex) -> Ty {
        match lx.next() {
            Tok::Word(w) => match w {
                "void" => Ty::Void,
                "ptr" => Ty::Ptr,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" | "metadata" | "token" => Ty::Other,
                _ if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(w[1..].parse().unwrap()),
                _ => panic!("type {w} at {}", lx.ctx(lx.p)),
            },
            Tok::P(b'[') => {
                let n = match lx.next() {
                    Tok::Num(n) => n.parse().unwrap(),
                    t => panic!("{t:?}"),
                };
                assert_eq!(lx.word(), "x");
                let t = self.ty(lx);
                lx.want(b']');
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P(b'{') => Ty::Struct(Rc::new(self.fields(lx)), false),
            Tok::P(b'<') => {
                if lx.p(b'{') {
                    let f = self.fields(lx);
                    lx.want(b'>');
                    return Ty::Struct(Rc::new(f), true);
                }
                let n = match lx.next() {
                    Tok::Num(n) => n.parse().unwrap(),
                    t => panic!("{t:?}"),
                };
                assert_eq!(lx.word(), "x");
                let t = self.ty(lx);
                lx.want(b'>');
                Ty::Vec(n, Rc::new(t))
            }
            Tok::Local(n) => self.types.get(n).cloned().unwrap_or(Ty::Other),
            t => panic!("type {t:?} at {}", lx.ctx(lx.p)),
        }
    }
    fn fields(&self, lx: &mut Lex) -> Vec<Ty> {
        let mut f = vec![];
        if lx.p(b'}') {
            return f;
        }
        loop {
            f.push(self.ty(lx));
            if lx.p(b',') {
                continue;
            }
            lx.want(b'}');
            return f;
        }
    }
    pub fn addr_of(&self, n: &str) -> u64 {
        if let Some(g) = self.glob_ids.get(n) {
            if self.weak.iter().any(|w| w == n) {
                return 0;
            }
            return (GLOB_OID + *g as u64) << 32;
        }
        if let Some(f) = self.fn_ids.get(n) {
            return (FUNC_OID + *f as u64) << 32;
        }
        if let Some(f) = self.ext_ids.get(n) {
            if self.weak.iter().any(|w| w == n) {
                return 0;
            }
            return (EXT_OID + *f as u64) << 32;
        }
        panic!("unknown symbol @{n}")
    }
    fn init(&self, lx: &mut Lex, t: &Ty, b: &mut [u8], off: u64, pr: &mut Vec<(u64, u64)>, rr: &mut Vec<(u64, u64)>) {
        match t {
            Ty::Struct(f, packed) => {
                if self.zeroish(lx) {
                    return;
                }
                if *packed {
                    lx.want(b'<');
                }
                lx.want(b'{');
                for i in 0..f.len() {
                    if i > 0 {
                        lx.want(b',');
                    }
                    let _ = self.ty(lx);
                    let (o, ft) = t.field_off(i as u64);
                    self.init(lx, &ft, b, off + o, pr, rr);
                }
                lx.want(b'}');
                if *packed {
                    lx.want(b'>');
                }
            }
            Ty::Arr(n, et) => {
                if let Tok::CStr(c) = lx.peek() {
                    lx.next();
                    let u = unescape(c);
                    b[off as usize..off as usize + u.len()].copy_from_slice(&u);
                    return;
                }
                if self.zeroish(lx) {
                    return;
                }
                lx.want(b'[');
                for i in 0..*n {
                    if i > 0 {
                        lx.want(b',');
                    }
                    let _ = self.ty(lx);
                    self.init(lx, et, b, off + i * et.size(), pr, rr);
                }
                lx.want(b']');
            }
            _ => match self.cst(lx, t) {
                Cst::V(Val::C(v)) => {
                    let n = t.size() as usize;
                    b[off as usize..off as usize + n].copy_from_slice(&v.to_le_bytes()[..n]);
                    if *t == Ty::Ptr && v >> 32 != 0 {
                        pr.push((off, v));
                    }
                }
                Cst::V(Val::W(v)) => {
                    let n = t.size() as usize;
                    b[off as usize..off as usize + n].copy_from_slice(&v.to_le_bytes()[..n]);
                }
                Cst::Rel(a) => rr.push((off, a)),
                Cst::V(Val::Agg(vs)) => {
                    // vectors
                    if let Ty::Vec(_, et) = t {
                        let n = et.size() as usize;
                        for (i, v) in vs.iter().enumerate() {
                            if let Val::C(v) = v {
                                let o = off as usize + i * n;
                                b[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
                            }
                        }
                    }
                }
                _ => panic!("initialiser"),
            },
        }
    }
    fn zeroish(&self, lx: &mut Lex) -> bool {
        match lx.peek() {
            Tok::Word("zeroinitializer") | Tok::Word("undef") | Tok::Word("poison") => {
                lx.next();
                true
            }
            _ => false,
        }
    }
    /// A constant of type t.
    pub fn cst(&self, lx: &mut Lex, t: &Ty) -> Cst {
        let at = lx.p;
        let u64v = |c: Cst| match c {
            Cst::V(Val::C(v)) => v,
            _ => panic!("constant address"),
        };
        match lx.next() {
            Tok::Num(n) => match t {
                Ty::Int(w) => Cst::V(mkint(parse_int(n), *w)),
                Ty::F64 | Ty::F32 => {
                    let f: f64 = if let Some(h) = n.strip_prefix("0x") {
                        f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                    } else {
                        n.parse().unwrap()
                    };
                    Cst::V(Val::C(if *t == Ty::F64 { f.to_bits() } else { (f as f32).to_bits() as u64 }))
                }
                _ => panic!("number of type {t:?}"),
            },
            Tok::Word(n) if n.starts_with("f0x") => Cst::V(Val::C(u64::from_str_radix(&n[3..], 16).unwrap())),
            Tok::P(sg @ (b'+' | b'-')) if matches!(t, Ty::F32 | Ty::F64) => {
                let f = match lx.word() {
                    "inf" => f64::INFINITY,
                    "qnan" => f64::NAN,
                    w => panic!("float constant {w}"),
                };
                let f = if sg == b'-' { -f } else { f };
                Cst::V(Val::C(if *t == Ty::F64 { f.to_bits() } else { (f as f32).to_bits() as u64 }))
            }
            Tok::Word("true") => Cst::V(Val::C(1)),
            Tok::Word("false") => Cst::V(Val::C(0)),
            Tok::Word("null" | "undef" | "poison" | "zeroinitializer" | "none") => Cst::V(Val::zero(t)),
            Tok::Global(n) => Cst::V(Val::C(self.addr_of(n))),
            Tok::Word("splat") => {
                lx.want(b'(');
                let et = self.ty(lx);
                let v = match self.cst(lx, &et) {
                    Cst::V(v) => v,
                    _ => panic!(),
                };
                lx.want(b')');
                let n = match t {
                    Ty::Vec(n, _) => *n as usize,
                    _ => panic!(),
                };
                Cst::V(Val::Agg(Rc::new(vec![v; n])))
            }
            Tok::Word("getelementptr") => {
                while let Tok::Word(_) = lx.peek() {
                    lx.next();
                    if lx.p(b'(') {
                        // inrange(..) or the operand list
                        if let Tok::Num(_) = lx.peek() {
                            lx.skip_parens();
                            continue;
                        }
                        return self.cgep(lx);
                    }
                }
                lx.want(b'(');
                self.cgep(lx)
            }
            Tok::Word(w @ ("inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr")) => {
                lx.want(b'(');
                let st = self.ty(lx);
                let c = self.cst(lx, &st);
                assert_eq!(lx.word(), "to");
                let dt = self.ty(lx);
                lx.want(b')');
                match (w, c) {
                    ("trunc", Cst::Rel(a)) => Cst::Rel(a),
                    ("trunc", c) => Cst::V(mkint(u64v(c) as u128, dt.bits())),
                    (_, c) => c,
                }
            }
            Tok::Word(w @ ("sub" | "add" | "xor")) => {
                while let Tok::Word(_) = lx.peek() {
                    lx.next();
                }
                lx.want(b'(');
                let ta = self.ty(lx);
                let a = u64v(self.cst(lx, &ta));
                lx.want(b',');
                let tb = self.ty(lx);
                let b = u64v(self.cst(lx, &tb));
                lx.want(b')');
                match w {
                    "sub" if a >> 32 != 0 && b >> 32 != 0 => Cst::Rel(a),
                    "sub" => Cst::V(Val::C(a.wrapping_sub(b))),
                    "add" => Cst::V(Val::C(a.wrapping_add(b))),
                    _ => Cst::V(Val::C(a ^ b)),
                }
            }
            Tok::P(b'<') | Tok::P(b'{') | Tok::P(b'[') => {
                // aggregate constant (register operand)
                let mut packed = false;
                if let Ty::Struct(_, true) = t {
                    lx.want(b'{');
                    packed = true;
                }
                let mut vs = vec![];
                loop {
                    match lx.peek() {
                        Tok::P(b'>') | Tok::P(b'}') | Tok::P(b']') => {
                            lx.next();
                            break;
                        }
                        Tok::P(b',') => {
                            lx.next();
                        }
                        _ => {
                            let et = self.ty(lx);
                            match self.cst(lx, &et) {
                                Cst::V(v) => vs.push(v),
                                _ => panic!(),
                            }
                        }
                    }
                }
                if packed {
                    lx.want(b'>');
                }
                Cst::V(Val::Agg(Rc::new(vs)))
            }
            Tok::CStr(c) => Cst::V(Val::Agg(Rc::new(unescape(c).into_iter().map(|x| Val::C(x as u64)).collect()))),
            tk => panic!("constant {tk:?} of type {t:?} at {}", lx.ctx(at)),
        }
    }
    fn cgep(&self, lx: &mut Lex) -> Cst {
        let t = self.ty(lx);
        lx.want(b',');
        let pt = self.ty(lx);
        let base = match self.cst(lx, &pt) {
            Cst::V(Val::C(v)) => v,
            _ => panic!(),
        };
        let mut off: i64 = 0;
        let mut cur = t;
        let mut first = true;
        while lx.p(b',') {
            let it = self.ty(lx);
            let i = match self.cst(lx, &it) {
                Cst::V(Val::C(v)) => crate::expr::sext(v as u128, it.bits()) as i64,
                _ => panic!(),
            };
            if first {
                off += i * cur.size() as i64;
                first = false;
            } else {
                let (o, n) = match &cur {
                    Ty::Struct(..) => {
                        let (o, n) = cur.field_off(i as u64);
                        (o as i64, n)
                    }
                    Ty::Arr(_, e) | Ty::Vec(_, e) => (i * e.size() as i64, (**e).clone()),
                    _ => panic!(),
                };
                off += o;
                cur = n;
            }
        }
        lx.want(b')');
        Cst::V(Val::C(base.wrapping_add(off as u64)))
    }

    pub fn body(&mut self, f: u32) -> Rc<Body> {
        if let Some(b) = &self.funcs[f as usize].body {
            return b.clone();
        }
        let b = Rc::new(self.parse_body(f));
        self.funcs[f as usize].body = Some(b.clone());
        b
    }

    fn parse_body(&self, f: u32) -> Body {
        let fun = &self.funcs[f as usize];
        let text = self.text.clone();
        let mut lx = Lex::new(&text, fun.start);
        let mut regs: HashMap<String, u32> = HashMap::new();
        for p in &fun.param_names {
            let n = regs.len() as u32;
            regs.insert(p.clone(), n);
        }
        let mut bbs: HashMap<String, u32> = HashMap::new();
        let mut blocks: Vec<Block> = vec![];
        let mut frame = 0u64;
        let mut cur = 0usize;
        let getbb = |n: &str, bbs: &mut HashMap<String, u32>, blocks: &mut Vec<Block>| -> u32 {
            if let Some(b) = bbs.get(n) {
                return *b;
            }
            let i = blocks.len() as u32;
            bbs.insert(n.to_string(), i);
            blocks.push(Block::default());
            i
        };
        if !matches!(lx.peek(), Tok::Label(_)) {
            let n = format!("{}", fun.unnamed);
            cur = getbb(&n, &mut bbs, &mut blocks) as usize;
        }
        macro_rules! reg {
            ($n:expr) => {{
                let n: &str = $n;
                match regs.get(n) {
                    Some(r) => *r,
                    None => {
                        let r = regs.len() as u32;
                        regs.insert(n.to_string(), r);
                        r
                    }
                }
            }};
        }
        macro_rules! val {
            ($t:expr) => {{
                let t: &Ty = $t;
                match lx.peek() {
                    Tok::Local(n) => {
                        lx.next();
                        Opnd::R(reg!(n))
                    }
                    _ => match self.cst(&mut lx, t) {
                        Cst::V(v) => Opnd::K(v),
                        _ => panic!("relative constant operand"),
                    },
                }
            }};
        }
        macro_rules! label {
            () => {{
                assert_eq!(lx.word(), "label");
                match lx.next() {
                    Tok::Local(n) => getbb(n, &mut bbs, &mut blocks),
                    t => panic!("label {t:?}"),
                }
            }};
        }
        loop {
            let at = lx.p;
            let tk = lx.next();
            let mut dst = NONE;
            let op = match tk {
                Tok::P(b'}') => break,
                Tok::Label(n) => {
                    cur = getbb(n, &mut bbs, &mut blocks) as usize;
                    continue;
                }
                Tok::Attr("dbg_value" | "dbg_declare" | "dbg_assign" | "dbg_label" | "dbg_declare_value") => {
                    lx.want(b'(');
                    lx.skip_parens();
                    continue;
                }
                Tok::Local(n) => {
                    dst = reg!(n);
                    lx.want(b'=');
                    lx.word()
                }
                Tok::Word(w) => w,
                t => panic!("instruction {t:?} at {}", lx.ctx(at)),
            };
            let skipflags = |lx: &mut Lex| loop {
                match lx.peek() {
                    Tok::Word(
                        "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "nusw" | "samesign" | "volatile" | "atomic" | "nnan" | "ninf"
                        | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "weak" | "inalloca",
                    ) => {
                        lx.next();
                    }
                    _ => break,
                }
            };
            let bin = |s: &str| -> Option<Bin> {
                Some(match s {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "sdiv" => Bin::SDiv,
                    "urem" => Bin::URem,
                    "srem" => Bin::SRem,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    "ashr" => Bin::AShr,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    "xor" => Bin::Xor,
                    "fadd" => Bin::FAdd,
                    "fsub" => Bin::FSub,
                    "fmul" => Bin::FMul,
                    "fdiv" => Bin::FDiv,
                    "frem" => Bin::FRem,
                    _ => return None,
                })
            };
            let cast = |s: &str| -> Option<Cast> {
                Some(match s {
                    "zext" => Cast::Zext,
                    "sext" => Cast::Sext,
                    "trunc" => Cast::Trunc,
                    "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => Cast::Bit,
                    "uitofp" => Cast::UiToFp,
                    "sitofp" => Cast::SiToFp,
                    "fptoui" => Cast::FpToUi,
                    "fptosi" => Cast::FpToSi,
                    "fpext" => Cast::FpExt,
                    "fptrunc" => Cast::FpTrunc,
                    _ => return None,
                })
            };
            let ins = if let Some(b) = bin(op) {
                skipflags(&mut lx);
                let t = self.ty(&mut lx);
                let a = val!(&t);
                lx.want(b',');
                let c = val!(&t);
                I::Bin(b, t, a, c)
            } else if let Some(c) = cast(op) {
                skipflags(&mut lx);
                let t = self.ty(&mut lx);
                let a = val!(&t);
                assert_eq!(lx.word(), "to");
                let d = self.ty(&mut lx);
                I::Cast(c, t, d, a)
            } else {
                match op {
                    "icmp" => {
                        skipflags(&mut lx);
                        let p = match lx.word() {
                            "eq" => Pred::Eq,
                            "ne" => Pred::Ne,
                            "ugt" => Pred::Ugt,
                            "uge" => Pred::Uge,
                            "ult" => Pred::Ult,
                            "ule" => Pred::Ule,
                            "sgt" => Pred::Sgt,
                            "sge" => Pred::Sge,
                            "slt" => Pred::Slt,
                            "sle" => Pred::Sle,
                            w => panic!("icmp {w}"),
                        };
                        let t = self.ty(&mut lx);
                        let a = val!(&t);
                        lx.want(b',');
                        let c = val!(&t);
                        I::Cmp(p, t, a, c)
                    }
                    "fcmp" => {
                        skipflags(&mut lx);
                        let p: Rc<str> = lx.word().into();
                        let t = self.ty(&mut lx);
                        let a = val!(&t);
                        lx.want(b',');
                        let c = val!(&t);
                        I::FCmp(p, t, a, c)
                    }
                    "fneg" => {
                        skipflags(&mut lx);
                        let t = self.ty(&mut lx);
                        let a = val!(&t);
                        I::FNeg(t, a)
                    }
                    "select" => {
                        skipflags(&mut lx);
                        let ct = self.ty(&mut lx);
                        let c = val!(&ct);
                        lx.want(b',');
                        let t = self.ty(&mut lx);
                        let a = val!(&t);
                        lx.want(b',');
                        let t2 = self.ty(&mut lx);
                        let b = val!(&t2);
                        I::Select(c, t, a, b)
                    }
                    "getelementptr" => {
                        skipflags(&mut lx);
                        let mut curt = self.ty(&mut lx);
                        lx.want(b',');
                        let pt = self.ty(&mut lx);
                        if let Ty::Vec(..) = pt {
                            panic!("vector gep");
                        }
                        let base = val!(&pt);
                        let mut off = 0i64;
                        let mut idx = vec![];
                        let mut first = true;
                        while lx.peek() == Tok::P(b',') {
                            let save = lx.p;
                            lx.next();
                            if let Tok::Meta(_) = lx.peek() {
                                lx = Lex::new(&text, save);
                                break;
                            }
                            let it = self.ty(&mut lx);
                            let v = val!(&it);
                            let kv = match &v {
                                Opnd::K(Val::C(k)) => Some(crate::expr::sext(*k as u128, it.bits()) as i64),
                                _ => None,
                            };
                            let scale;
                            if first {
                                scale = curt.size();
                                first = false;
                            } else {
                                match curt.clone() {
                                    Ty::Struct(..) => {
                                        let (o, n) = curt.field_off(kv.unwrap() as u64);
                                        off += o as i64;
                                        curt = n;
                                        continue;
                                    }
                                    Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                        scale = e.size();
                                        curt = (*e).clone();
                                    }
                                    _ => panic!("gep"),
                                }
                            }
                            match kv {
                                Some(k) => off += k * scale as i64,
                                None => idx.push((v, it.bits(), scale)),
                            }
                        }
                        I::Gep(base, off, idx)
                    }
                    "load" => {
                        skipflags(&mut lx);
                        let t = self.ty(&mut lx);
                        lx.want(b',');
                        let pt = self.ty(&mut lx);
                        let p = val!(&pt);
                        I::Load(t, p)
                    }
                    "store" => {
                        skipflags(&mut lx);
                        let t = self.ty(&mut lx);
                        let v = val!(&t);
                        lx.want(b',');
                        let pt = self.ty(&mut lx);
                        let p = val!(&pt);
                        I::Store(t, v, p)
                    }
                    "alloca" => {
                        skipflags(&mut lx);
                        let t = self.ty(&mut lx);
                        let mut n = 1;
                        let mut al = 16;
                        while lx.peek() == Tok::P(b',') {
                            let save = lx.p;
                            lx.next();
                            match lx.peek() {
                                Tok::Meta(_) => {
                                    lx = Lex::new(&text, save);
                                    break;
                                }
                                Tok::Word("align") => {
                                    lx.next();
                                    if let Tok::Num(x) = lx.next() {
                                        al = x.parse().unwrap();
                                    }
                                }
                                _ => {
                                    let it = self.ty(&mut lx);
                                    match val!(&it) {
                                        Opnd::K(Val::C(k)) => n = k,
                                        _ => panic!("dynamic alloca"),
                                    }
                                }
                            }
                        }
                        let al: u64 = al.max(16);
                        frame = (frame + al - 1) / al * al;
                        let o = frame;
                        frame += t.size() * n + 16;
                        I::Alloca(o)
                    }
                    "br" => {
                        if lx.peek() == Tok::Word("label") {
                            let b = label!();
                            I::Br(b)
                        } else {
                            let t = self.ty(&mut lx);
                            let c = val!(&t);
                            lx.want(b',');
                            let a = label!();
                            lx.want(b',');
                            let b = label!();
                            I::CondBr(c, a, b)
                        }
                    }
                    "switch" => {
                        let t = self.ty(&mut lx);
                        let v = val!(&t);
                        lx.want(b',');
                        let d = label!();
                        lx.want(b'[');
                        let mut cs = vec![];
                        while !lx.p(b']') {
                            let ct = self.ty(&mut lx);
                            let k = match self.cst(&mut lx, &ct) {
                                Cst::V(Val::C(k)) => k as u128,
                                Cst::V(Val::W(k)) => k,
                                _ => panic!(),
                            };
                            lx.want(b',');
                            let b = label!();
                            cs.push((k, b));
                        }
                        I::Switch(v, t.bits(), d, cs)
                    }
                    "ret" => {
                        let t = self.ty(&mut lx);
                        if t == Ty::Void {
                            I::Ret(None)
                        } else {
                            let v = val!(&t);
                            I::Ret(Some((t, v)))
                        }
                    }
                    "unreachable" => I::Unreachable,
                    "resume" => {
                        let t = self.ty(&mut lx);
                        let _ = val!(&t);
                        I::Unreachable
                    }
                    "extractvalue" => {
                        let t = self.ty(&mut lx);
                        let v = val!(&t);
                        let ix = self.indices(&mut lx, &text);
                        I::Extract(v, ix)
                    }
                    "insertvalue" => {
                        let t = self.ty(&mut lx);
                        let v = val!(&t);
                        lx.want(b',');
                        let et = self.ty(&mut lx);
                        let e = val!(&et);
                        let ix = self.indices(&mut lx, &text);
                        I::Insert(v, e, ix)
                    }
                    "freeze" => {
                        let t = self.ty(&mut lx);
                        I::Copy(val!(&t))
                    }
                    "phi" => {
                        skipflags(&mut lx);
                        let t = self.ty(&mut lx);
                        let mut inc = vec![];
                        loop {
                            lx.want(b'[');
                            let v = val!(&t);
                            lx.want(b',');
                            let b = match lx.next() {
                                Tok::Local(n) => getbb(n, &mut bbs, &mut blocks),
                                t => panic!("{t:?}"),
                            };
                            lx.want(b']');
                            inc.push((b, v));
                            let save = lx.p;
                            if lx.peek() == Tok::P(b',') {
                                lx.next();
                                if lx.peek() == Tok::P(b'[') {
                                    continue;
                                }
                                lx = Lex::new(&text, save);
                            }
                            break;
                        }
                        self.trailer(&mut lx, &text);
                        blocks[cur].phis.push((dst, inc));
                        continue;
                    }
                    "tail" | "musttail" | "notail" | "call" | "invoke" => {
                        let mut kind = op;
                        if kind != "call" && kind != "invoke" {
                            kind = lx.word();
                        }
                        // flags, calling convention, return attributes
                        let rt;
                        loop {
                            match lx.peek() {
                                Tok::Word(w) => {
                                    let isty = matches!(w, "void" | "ptr" | "float" | "double")
                                        || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()));
                                    if isty {
                                        rt = self.ty(&mut lx);
                                        break;
                                    }
                                    lx.next();
                                    if w == "align" {
                                        lx.next();
                                    }
                                    if lx.p(b'(') {
                                        lx.skip_parens();
                                    }
                                }
                                _ => {
                                    rt = self.ty(&mut lx);
                                    break;
                                }
                            }
                        }
                        // function type for varargs: ret (i64, ...) @f
                        if lx.p(b'(') {
                            lx.skip_parens();
                        }
                        let at = lx.p;
                        let callee = match lx.next() {
                            Tok::Global(n) => {
                                if let Some(f) = self.fn_ids.get(n) {
                                    Callee::Fn(*f)
                                } else if let Some(e) = self.ext_ids.get(n) {
                                    Callee::Ext(*e)
                                } else {
                                    panic!("callee @{n}")
                                }
                            }
                            Tok::Local(n) => Callee::Ind(Opnd::R(reg!(n))),
                            Tok::Word("asm") => {
                                while let Tok::Word(_) = lx.peek() {
                                    lx.next();
                                }
                                lx.next();
                                lx.want(b',');
                                lx.next();
                                Callee::Ind(Opnd::K(Val::C(1)))
                            }
                            Tok::Word("inttoptr") | Tok::Word("null") | Tok::Word("poison") | Tok::Word("undef") => {
                                Callee::Ind(Opnd::K(Val::C(0)))
                            }
                            t => panic!("callee {t:?} at {}", lx.ctx(at)),
                        };
                        lx.want(b'(');
                        let mut args = vec![];
                        let ismeta = matches!(&callee, Callee::Ext(e) if self.exts[*e as usize].starts_with("llvm.experimental.noalias")
                            || self.exts[*e as usize].starts_with("llvm.dbg"));
                        if ismeta {
                            lx.skip_parens();
                        } else if !lx.p(b')') {
                            loop {
                                let t = self.ty(&mut lx);
                                // attributes
                                while let Tok::Word(w) = lx.peek() {
                                    if is_value_word(w) {
                                        break;
                                    }
                                    lx.next();
                                    if w == "align" {
                                        if let Tok::Num(_) = lx.peek() {
                                            lx.next();
                                        }
                                    }
                                    if lx.p(b'(') {
                                        lx.skip_parens();
                                    }
                                }
                                if t == Ty::Other {
                                    // metadata operand
                                    loop {
                                        match lx.peek() {
                                            Tok::P(b',') | Tok::P(b')') => break,
                                            Tok::P(b'(') => {
                                                lx.next();
                                                lx.skip_parens();
                                            }
                                            _ => {
                                                lx.next();
                                            }
                                        }
                                    }
                                    args.push((t, Opnd::K(Val::C(0))));
                                } else {
                                    let v = val!(&t);
                                    args.push((t, v));
                                }
                                if lx.p(b',') {
                                    continue;
                                }
                                lx.want(b')');
                                break;
                            }
                        }
                        // function attributes and operand bundles
                        loop {
                            match lx.peek() {
                                Tok::Attr(a) if !a.starts_with("dbg_") => {
                                    lx.next();
                                }
                                Tok::P(b'[') => {
                                    lx.next();
                                    let mut d = 1;
                                    while d > 0 {
                                        match lx.next() {
                                            Tok::P(b'[') => d += 1,
                                            Tok::P(b']') => d -= 1,
                                            _ => {}
                                        }
                                    }
                                }
                                _ => break,
                            }
                        }
                        let mut normal = None;
                        if kind == "invoke" {
                            assert_eq!(lx.word(), "to");
                            normal = Some(label!());
                            assert_eq!(lx.word(), "unwind");
                            let _ = label!();
                        }
                        I::Call(callee, args, rt, normal)
                    }
                    "fence" => {
                        while let Tok::Word(w) = lx.peek() {
                            if matches!(w, "acquire" | "release" | "seq_cst" | "acq_rel" | "syncscope") {
                                lx.next();
                                if lx.p(b'(') {
                                    lx.skip_parens();
                                }
                            } else {
                                break;
                            }
                        }
                        I::Fence
                    }
                    "atomicrmw" => {
                        skipflags(&mut lx);
                        let o: Rc<str> = lx.word().into();
                        let pt = self.ty(&mut lx);
                        let p = val!(&pt);
                        lx.want(b',');
                        let t = self.ty(&mut lx);
                        let v = val!(&t);
                        I::Rmw(o, t, p, v)
                    }
                    "cmpxchg" => {
                        skipflags(&mut lx);
                        let pt = self.ty(&mut lx);
                        let p = val!(&pt);
                        lx.want(b',');
                        let t = self.ty(&mut lx);
                        let a = val!(&t);
                        lx.want(b',');
                        let t2 = self.ty(&mut lx);
                        let b = val!(&t2);
                        I::CmpXchg(t, p, a, b)
                    }
                    "landingpad" => {
                        let _ = self.ty(&mut lx);
                        loop {
                            match lx.peek() {
                                Tok::Word("cleanup") => {
                                    lx.next();
                                }
                                Tok::Word("catch") | Tok::Word("filter") => {
                                    lx.next();
                                    let t = self.ty(&mut lx);
                                    let _ = self.cst(&mut lx, &t);
                                }
                                _ => break,
                            }
                        }
                        I::LandingPad
                    }
                    "extractelement" => {
                        let t = self.ty(&mut lx);
                        let v = val!(&t);
                        lx.want(b',');
                        let it = self.ty(&mut lx);
                        let i = val!(&it);
                        I::ExtractEl(t, v, i)
                    }
                    "insertelement" => {
                        let t = self.ty(&mut lx);
                        let v = val!(&t);
                        lx.want(b',');
                        let et = self.ty(&mut lx);
                        let e = val!(&et);
                        lx.want(b',');
                        let it = self.ty(&mut lx);
                        let i = val!(&it);
                        I::InsertEl(t, v, e, i)
                    }
                    "shufflevector" => {
                        let t = self.ty(&mut lx);
                        let a = val!(&t);
                        lx.want(b',');
                        let t2 = self.ty(&mut lx);
                        let b = val!(&t2);
                        lx.want(b',');
                        let mt = self.ty(&mut lx);
                        let mk = match self.cst(&mut lx, &mt) {
                            Cst::V(Val::Agg(v)) => v.iter().map(|x| if let Val::C(k) = x { *k as u32 } else { 0 }).collect(),
                            _ => panic!(),
                        };
                        I::Shuffle(t, a, b, mk)
                    }
                    w => panic!("instruction {w} at {}", lx.ctx(at)),
                }
            };
            let dbg = self.trailer(&mut lx, &text);
            blocks[cur].ins.push(Ins { i: ins, dst, dbg });
        }
        Body { blocks, nregs: regs.len() as u32, frame }
    }
    fn indices(&self, lx: &mut Lex, text: &[u8]) -> Vec<u32> {
        let mut ix = vec![];
        while lx.peek() == Tok::P(b',') {
            let save = lx.p;
            lx.next();
            match lx.peek() {
                Tok::Num(n) => {
                    ix.push(n.parse().unwrap());
                    lx.next();
                }
                _ => {
                    let t: &[u8] = unsafe { std::mem::transmute(text) };
                    *lx = Lex::new(t, save);
                    break;
                }
            }
        }
        ix
    }
    /// `, align 8, !dbg !12, !noalias !3` and memory orderings
    fn trailer(&self, lx: &mut Lex, _text: &[u8]) -> u32 {
        let mut dbg = 0;
        loop {
            match lx.peek() {
                Tok::Word("monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst" | "unordered") => {
                    lx.next();
                }
                Tok::Word("syncscope") => {
                    lx.next();
                    lx.want(b'(');
                    lx.skip_parens();
                }
                Tok::P(b',') => {
                    lx.next();
                    match lx.next() {
                        Tok::Word("align") => {
                            lx.next();
                        }
                        Tok::Meta(k) => {
                            // value
                            match lx.next() {
                                Tok::Meta("") => {
                                    if lx.p(b'{') {
                                        let mut d = 1;
                                        while d > 0 {
                                            match lx.next() {
                                                Tok::P(b'{') => d += 1,
                                                Tok::P(b'}') => d -= 1,
                                                _ => {}
                                            }
                                        }
                                    }
                                }
                                Tok::Meta(n) => {
                                    if k == "dbg" {
                                        dbg = n.parse().unwrap_or(0);
                                    } else if n.starts_with("DI") && lx.p(b'(') {
                                        lx.skip_parens();
                                    }
                                }
                                t => panic!("metadata {t:?}"),
                            }
                        }
                        t => panic!("trailer {t:?} at {}", lx.ctx(lx.p)),
                    }
                }
                _ => return dbg,
            }
        }
    }

    fn md_text(&self, n: u32) -> &str {
        match self.md.get(n as usize) {
            Some((a, b)) => std::str::from_utf8(&self.text[*a..*b]).unwrap_or(""),
            None => "",
        }
    }
    fn md_ref(t: &str, key: &str) -> Option<u32> {
        let k = format!("{key}: !");
        let p = t.find(&k)?;
        let r = &t[p + k.len()..];
        let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
        r[..e].parse().ok()
    }
    fn md_num(t: &str, key: &str) -> u32 {
        let k = format!("{key}: ");
        match t.find(&k) {
            Some(p) => {
                let r = &t[p + k.len()..];
                let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
                r[..e].parse().unwrap_or(0)
            }
            None => 0,
        }
    }
    fn md_str(t: &str, key: &str) -> String {
        let k = format!("{key}: \"");
        match t.find(&k) {
            Some(p) => {
                let r = &t[p + k.len()..];
                r[..r.find('"').unwrap_or(0)].to_string()
            }
            None => String::new(),
        }
    }
    /// The inline stack of a debug location, innermost first: (function, file, line).
    pub fn loc(&self, dbg: u32) -> Vec<(String, String, u32)> {
        let mut out = vec![];
        let mut d = Some(dbg);
        while let Some(n) = d {
            if n == 0 {
                break;
            }
            let t = self.md_text(n);
            if !t.contains("DILocation(") {
                break;
            }
            let line = Self::md_num(t, "line");
            let inl = Self::md_ref(t, "inlinedAt");
            let mut sc = Self::md_ref(t, "scope");
            let mut func = String::new();
            let mut file = String::new();
            while let Some(s) = sc {
                let st = self.md_text(s);
                if file.is_empty() {
                    if let Some(f) = Self::md_ref(st, "file") {
                        let ft = self.md_text(f);
                        file = Self::md_str(ft, "filename");
                        let dir = Self::md_str(ft, "directory");
                        if !file.starts_with('/') && !dir.is_empty() {
                            file = format!("{dir}/{file}");
                        }
                    }
                }
                if st.contains("DISubprogram(") {
                    func = Self::md_str(st, "linkageName");
                    if func.is_empty() {
                        func = Self::md_str(st, "name");
                    }
                    break;
                }
                sc = Self::md_ref(st, "scope");
            }
            out.push((func, file, line));
            d = inl;
        }
        out
    }
}
