//! Parser for textual LLVM IR (function bodies are decoded lazily).
use crate::term::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(T),
    A(Rc<Vec<Val>>),
}
impl Val {
    pub fn c(&self) -> Option<u128> {
        if let Val::C(x) = self {
            Some(*x)
        } else {
            None
        }
    }
}

#[derive(Debug, PartialEq, Clone)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Fp(u32),
    Struct(Vec<Rc<Ty>>, bool),
    Array(Rc<Ty>, u64),
    Vector(Rc<Ty>, u32),
    Label,
    Meta,
    Func,
}
pub type TyR = Rc<Ty>;

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64 + 7) / 8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr => 8,
            Ty::Fp(w) => *w as u64 / 8,
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|x| x.align()).max().unwrap_or(1)
                }
            }
            Ty::Array(t, _) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two(),
            _ => 1,
        }
    }
    /// alloc size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let s = (*w as u64 + 7) / 8;
                (s + self.align() - 1) / self.align() * self.align()
            }
            Ty::Ptr => 8,
            Ty::Fp(w) => *w as u64 / 8,
            Ty::Struct(f, p) => {
                let mut o = 0;
                for x in f {
                    if !p {
                        let a = x.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += x.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            Ty::Array(t, n) => t.size() * n,
            Ty::Vector(t, n) => (t.bits() as u64 * *n as u64 + 7) / 8,
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (j, x) in f.iter().enumerate() {
                    if !p {
                        let a = x.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += x.size();
                }
                panic!("field_off")
            }
            Ty::Array(t, _) => t.size() * i as u64,
            Ty::Vector(t, _) => t.size() * i as u64,
            _ => panic!("field_off {:?}", self),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Fp(w) => *w,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Fp(_))
    }
    pub fn nelem(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Array(_, n) => *n as usize,
            Ty::Vector(_, n) => *n as usize,
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> TyR {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Array(t, _) => t.clone(),
            Ty::Vector(t, _) => t.clone(),
            _ => panic!(),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    Max,
    Min,
    UMax,
    UMin,
}
#[derive(Clone, Debug)]
pub enum Callee {
    F(u32),
    Ind(Opd),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: Op, w: u32, lanes: u32, d: u32, a: Opd, b: Opd },
    Cmp { p: Pred, w: u32, lanes: u32, d: u32, a: Opd, b: Opd },
    Cast { k: CastK, fw: u32, tw: u32, lanes: u32, d: u32, a: Opd },
    BitcastV { from: TyR, to: TyR, d: u32, a: Opd },
    Mov { d: u32, a: Opd },
    Load { ty: TyR, d: u32, p: Opd },
    Store { ty: TyR, v: Opd, p: Opd },
    Alloca { d: u32, size: u64, n: Option<Opd> },
    Gep { d: u32, base: Opd, off: u64, idx: Vec<(Opd, u32, u64)> },
    Select { d: u32, c: Opd, a: Opd, b: Opd, w: u32, lanes: u32 },
    Call { d: Option<u32>, callee: Callee, args: Vec<Opd>, argw: Vec<u32>, ret: TyR, normal: Option<u32> },
    ExtractV { d: u32, a: Opd, idx: Vec<u32> },
    InsertV { d: u32, a: Opd, v: Opd, idx: Vec<u32> },
    ExtractE { d: u32, a: Opd, i: Opd },
    InsertE { d: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, a: Opd, b: Opd, mask: Vec<i32>, n: u32 },
    Rmw { d: u32, op: RmwOp, w: u32, p: Opd, v: Opd },
    CmpXchg { d: u32, w: u32, p: Opd, e: Opd, v: Opd },
    Nop,
    /// an atomic access follows: another thread may run first
    Point,
    Br(u32),
    CBr { c: Opd, t: u32, f: u32 },
    Switch { v: Opd, w: u32, cases: Rc<Vec<(u128, u32)>>, def: u32 },
    Ret(Option<Opd>),
    Unreachable,
    Unsup(String),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, HashMap<u32, Opd>)>,
    pub ins: Vec<Ins>,
}
#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub fid: u32,
    pub nregs: u32,
    pub nparams: u32,
    pub blocks: Vec<Block>,
}

pub struct FDecl {
    pub name: Rc<str>,
    pub body: Option<(usize, usize)>,
    pub parsed: Option<Rc<Func>>,
    pub weak: bool,
}
pub struct GDecl {
    pub name: Rc<str>,
    pub ty: TyR,
    pub init: Option<(usize, usize)>,
    pub is_const: bool,
    pub weak: bool,
    pub size: u64,
}

pub const STACK_BASE: u64 = 1 << 24;
pub const HEAP_BASE: u64 = 1 << 26;

pub struct Program {
    pub text: Rc<Vec<u8>>,
    pub funcs: Vec<FDecl>,
    pub fnames: HashMap<Rc<str>, u32>,
    pub globals: Vec<GDecl>,
    pub gnames: HashMap<Rc<str>, u32>,
    pub aliases: HashMap<Rc<str>, Rc<str>>,
    pub named: HashMap<String, TyR>,
    named_txt: HashMap<String, (usize, usize)>,
    pub gbase: u64,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Tok {
    Local(String),
    Global(String),
    Int(i128),
    Float(String),
    CStr(Vec<u8>),
    Str(String),
    Id(String),
    P(u8),
    Meta(String),
    Attr,
    Eof,
}

pub struct Lex<'a> {
    s: &'a [u8],
    pub i: usize,
    end: usize,
    peeked: Option<Tok>,
    ppos: usize,
}
fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
impl<'a> Lex<'a> {
    pub fn new(s: &'a [u8], i: usize, end: usize) -> Lex<'a> {
        Lex { s, i, end, peeked: None, ppos: i }
    }
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.i += 1;
        let mut v = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                let h = |c: u8| (c as char).to_digit(16);
                if self.s[self.i + 1] == b'\\' {
                    v.push(b'\\');
                    self.i += 2;
                    continue;
                }
                if let (Some(a), Some(b)) = (h(self.s[self.i + 1]), h(self.s[self.i + 2])) {
                    v.push((a * 16 + b) as u8);
                    self.i += 3;
                    continue;
                }
            }
            v.push(self.s[self.i]);
            self.i += 1;
        }
        self.i += 1;
        v
    }
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            return String::from_utf8_lossy(&self.quoted()).into_owned();
        }
        let st = self.i;
        while self.i < self.end && idc(self.s[self.i]) {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    pub fn peek(&mut self) -> &Tok {
        if self.peeked.is_none() {
            self.ppos = self.i;
            let t = self.lex();
            self.peeked = Some(t);
        }
        self.peeked.as_ref().unwrap()
    }
    pub fn pos(&self) -> usize {
        if self.peeked.is_some() {
            self.ppos
        } else {
            self.i
        }
    }
    pub fn next(&mut self) -> Tok {
        if let Some(t) = self.peeked.take() {
            return t;
        }
        self.lex()
    }
    fn lex(&mut self) -> Tok {
        loop {
            if self.i >= self.end {
                return Tok::Eof;
            }
            match self.s[self.i] {
                b' ' | b'\t' | b'\n' | b'\r' => self.i += 1,
                b';' => {
                    while self.i < self.end && self.s[self.i] != b'\n' {
                        self.i += 1;
                    }
                }
                _ => break,
            }
        }
        let c = self.s[self.i];
        match c {
            b'%' => {
                self.i += 1;
                Tok::Local(self.name())
            }
            b'@' => {
                self.i += 1;
                Tok::Global(self.name())
            }
            b'#' => {
                self.i += 1;
                self.name();
                Tok::Attr
            }
            b'!' => {
                self.i += 1;
                if self.i < self.end && self.s[self.i] == b'"' {
                    self.quoted();
                    return Tok::Meta("str".into());
                }
                Tok::Meta(self.name())
            }
            b'"' => Tok::Str(String::from_utf8_lossy(&self.quoted()).into_owned()),
            b'c' if self.i + 1 < self.end && self.s[self.i + 1] == b'"' => {
                self.i += 1;
                Tok::CStr(self.quoted())
            }
            b'0'..=b'9' | b'-' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.end && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'.' || (self.s[self.i] == b'+')) {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                match t.parse::<i128>() {
                    Ok(v) => Tok::Int(v),
                    Err(_) => match t.parse::<u128>() {
                        Ok(v) => Tok::Int(v as i128),
                        Err(_) => Tok::Float(t.to_string()),
                    },
                }
            }
            b'.' if self.s[self.i..].starts_with(b"...") => {
                self.i += 3;
                Tok::Id("...".into())
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' => {
                let st = self.i;
                while self.i < self.end && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_' || self.s[self.i] == b'.') {
                    self.i += 1;
                }
                Tok::Id(String::from_utf8_lossy(&self.s[st..self.i]).into_owned())
            }
            c => {
                self.i += 1;
                Tok::P(c)
            }
        }
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if *self.peek() == Tok::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn eat_id(&mut self, s: &str) -> bool {
        if let Tok::Id(x) = self.peek() {
            if x == s {
                self.next();
                return true;
            }
        }
        false
    }
    pub fn expect(&mut self, c: u8) {
        let t = self.next();
        if t != Tok::P(c) {
            let e = (self.i + 80).min(self.s.len());
            panic!("expected {:?} got {:?} near {:?}", c as char, t, String::from_utf8_lossy(&self.s[self.i.saturating_sub(120)..e]));
        }
    }
    fn int(&mut self) -> i128 {
        match self.next() {
            Tok::Int(v) => v,
            t => panic!("expected int got {:?}", t),
        }
    }
    fn skip_parens(&mut self) {
        if self.eat(b'(') {
            let mut d = 1;
            while d > 0 {
                match self.next() {
                    Tok::P(b'(') => d += 1,
                    Tok::P(b')') => d -= 1,
                    Tok::Eof => panic!("eof in parens"),
                    _ => {}
                }
            }
        }
    }
}

fn line_end(s: &[u8], i: usize) -> usize {
    match s[i..].iter().position(|&c| c == b'\n') {
        Some(p) => i + p,
        None => s.len(),
    }
}

impl Program {
    pub fn load(text: Vec<u8>) -> Program {
        let text = Rc::new(text);
        let mut p = Program {
            text: text.clone(),
            funcs: vec![FDecl { name: "<null>".into(), body: None, parsed: None, weak: false }],
            fnames: HashMap::new(),
            globals: vec![],
            gnames: HashMap::new(),
            aliases: HashMap::new(),
            named: HashMap::new(),
            named_txt: HashMap::new(),
            gbase: 0,
        };
        let s = &text[..];
        let mut i = 0;
        let mut glines = vec![];
        while i < s.len() {
            let e = line_end(s, i);
            if s[i..].starts_with(b"define ") {
                let nm = {
                    let mut l = Lex::new(s, i, e);
                    loop {
                        match l.next() {
                            Tok::Global(n) => break n,
                            Tok::Eof => panic!("define"),
                            _ => {}
                        }
                    }
                };
                // body until line "}"
                let st = i;
                let mut j = e + 1;
                loop {
                    let e2 = line_end(s, j);
                    if &s[j..e2] == b"}" {
                        j = e2;
                        break;
                    }
                    j = e2 + 1;
                }
                let n: Rc<str> = nm.into();
                let id = p.funcs.len() as u32;
                p.funcs.push(FDecl { name: n.clone(), body: Some((st, j)), parsed: None, weak: false });
                p.fnames.insert(n, id);
                i = j + 1;
                continue;
            } else if s[i..].starts_with(b"declare ") {
                let mut l = Lex::new(s, i, e);
                let mut weak = false;
                let nm = loop {
                    match l.next() {
                        Tok::Global(n) => break n,
                        Tok::Id(x) if x == "extern_weak" => weak = true,
                        Tok::Eof => panic!("declare"),
                        _ => {}
                    }
                };
                let n: Rc<str> = nm.into();
                let id = p.funcs.len() as u32;
                p.funcs.push(FDecl { name: n.clone(), body: None, parsed: None, weak });
                p.fnames.insert(n, id);
            } else if s[i..].starts_with(b"@") {
                glines.push((i, e));
            } else if s[i..].starts_with(b"%") {
                let mut l = Lex::new(s, i, e);
                if let Tok::Local(n) = l.next() {
                    l.expect(b'=');
                    p.named_txt.insert(n, (l.pos(), e));
                }
            }
            i = e + 1;
        }
        p.gbase = p.funcs.len() as u64;
        for (i, e) in glines {
            let mut l = Lex::new(s, i, e);
            let name: Rc<str> = match l.next() {
                Tok::Global(n) => n.into(),
                t => panic!("{:?}", t),
            };
            l.expect(b'=');
            let mut is_const = false;
            let mut weak = false;
            let mut external = false;
            let mut alias = false;
            loop {
                match l.next() {
                    Tok::Id(x) => match x.as_str() {
                        "constant" => {
                            is_const = true;
                            break;
                        }
                        "global" => break,
                        "alias" => {
                            alias = true;
                            break;
                        }
                        "extern_weak" => weak = true,
                        "external" => external = true,
                        "thread_local" | "addrspace" => l.skip_parens(),
                        _ => {}
                    },
                    t => panic!("global {:?}", t),
                }
            }
            if alias {
                let _ = p.ty(&mut l);
                l.expect(b',');
                let _ = p.ty(&mut l);
                if let Tok::Global(t) = l.next() {
                    p.aliases.insert(name, t.into());
                }
                continue;
            }
            let ty = p.ty(&mut l);
            let init = if external || weak { None } else { Some((l.pos(), e)) };
            let size = ty.size();
            let id = p.globals.len() as u32;
            p.globals.push(GDecl { name: name.clone(), ty, init, is_const, weak, size });
            p.gnames.insert(name, id);
        }
        p
    }

    pub fn global_addr(&self, n: &str) -> u64 {
        let mut n = n;
        while let Some(a) = self.aliases.get(n) {
            n = a;
        }
        if let Some(&f) = self.fnames.get(n) {
            if self.funcs[f as usize].weak && !matches!(n, "getrandom" | "__cxa_thread_atexit_impl") {
                return 0;
            }
            return (f as u64) << 32;
        }
        if let Some(&g) = self.gnames.get(n) {
            if self.globals[g as usize].weak {
                return 0;
            }
            return (self.gbase + g as u64) << 32;
        }
        panic!("unknown global @{}", n)
    }

    pub fn ty(&mut self, l: &mut Lex) -> TyR {
        let t = match l.next() {
            Tok::Id(s) => match s.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if l.eat_id("addrspace") {
                        l.skip_parens();
                    }
                    Ty::Ptr
                }
                "half" => Ty::Fp(16),
                "float" => Ty::Fp(32),
                "double" => Ty::Fp(64),
                "x86_fp80" => Ty::Fp(128),
                "fp128" => Ty::Fp(128),
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                "token" => Ty::Meta,
                s if s.starts_with('i') && s[1..].parse::<u32>().is_ok() => Ty::Int(s[1..].parse().unwrap()),
                s => panic!("type {:?} near {:?}", s, String::from_utf8_lossy(&l.s[l.i.saturating_sub(100)..(l.i + 60).min(l.s.len())])),
            },
            Tok::P(b'{') => {
                let f = self.ty_list(l, b'}');
                Ty::Struct(f, false)
            }
            Tok::P(b'<') => {
                if l.eat(b'{') {
                    let f = self.ty_list(l, b'}');
                    l.expect(b'>');
                    Ty::Struct(f, true)
                } else {
                    let n = l.int();
                    assert!(l.eat_id("x"));
                    let t = self.ty(l);
                    l.expect(b'>');
                    Ty::Vector(t, n as u32)
                }
            }
            Tok::P(b'[') => {
                let n = l.int();
                assert!(l.eat_id("x"));
                let t = self.ty(l);
                l.expect(b']');
                Ty::Array(t, n as u64)
            }
            Tok::Local(n) => {
                if let Some(t) = self.named.get(&n) {
                    return t.clone();
                }
                let (a, b) = *self.named_txt.get(&n).unwrap_or_else(|| panic!("named type {}", n));
                let text = self.text.clone();
                let mut l2 = Lex::new(&text, a, b);
                assert!(l2.eat_id("type"));
                let t = if l2.eat_id("opaque") { Rc::new(Ty::Void) } else { self.ty(&mut l2) };
                self.named.insert(n, t.clone());
                return t;
            }
            t => panic!("type {:?} near {:?}", t, String::from_utf8_lossy(&l.s[l.i.saturating_sub(100)..(l.i + 60).min(l.s.len())])),
        };
        Rc::new(t)
    }
    fn ty_list(&mut self, l: &mut Lex, close: u8) -> Vec<TyR> {
        let mut f = vec![];
        if l.eat(close) {
            return f;
        }
        loop {
            f.push(self.ty(l));
            if l.eat(close) {
                return f;
            }
            l.expect(b',');
        }
    }

    pub fn zero(ty: &Ty) -> Val {
        match ty {
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => Val::A(Rc::new((0..ty.nelem()).map(|i| Self::zero(&ty.elem(i))).collect())),
            _ => Val::C(0),
        }
    }

    /// constant of a known type
    pub fn cval(&mut self, l: &mut Lex, ty: &TyR) -> Val {
        match l.next() {
            Tok::Int(v) => Val::C((v as u128) & ones(ty.bits())),
            Tok::Float(s) => {
                if let Some(h) = s.strip_prefix("0x") {
                    let bits = u64::from_str_radix(h, 16).unwrap_or(0);
                    if **ty == Ty::Fp(32) {
                        return Val::C((f64::from_bits(bits) as f32).to_bits() as u128);
                    }
                    return Val::C(bits as u128);
                }
                let f: f64 = s.parse().unwrap_or(0.0);
                if **ty == Ty::Fp(32) {
                    Val::C((f as f32).to_bits() as u128)
                } else {
                    Val::C(f.to_bits() as u128)
                }
            }
            Tok::Global(n) => Val::C(self.global_addr(&n) as u128),
            Tok::CStr(v) => Val::A(Rc::new(v.into_iter().map(|c| Val::C(c as u128)).collect())),
            Tok::P(b'{') => self.agg(l, b'}'),
            Tok::P(b'[') => self.agg(l, b']'),
            Tok::P(b'<') => {
                if l.eat(b'{') {
                    let v = self.agg(l, b'}');
                    l.expect(b'>');
                    v
                } else {
                    self.agg(l, b'>')
                }
            }
            Tok::Id(s) => match s.as_str() {
                "true" => Val::C(1),
                "false" => Val::C(0),
                "null" | "none" => Val::C(0),
                "undef" | "poison" | "zeroinitializer" => Self::zero(ty),
                "splat" => {
                    l.expect(b'(');
                    let t = self.ty(l);
                    let v = self.cval(l, &t);
                    l.expect(b')');
                    Val::A(Rc::new(vec![v; ty.nelem()]))
                }
                "getelementptr" => {
                    while let Tok::Id(_) = l.peek() {
                        // flags
                        let Tok::Id(x) = l.next() else { unreachable!() };
                        if x == "inrange" {
                            l.skip_parens();
                        }
                    }
                    l.expect(b'(');
                    let t = self.ty(l);
                    l.expect(b',');
                    let pt = self.ty(l);
                    let base = self.cval(l, &pt).c().unwrap() as u64;
                    let mut idx = vec![];
                    while l.eat(b',') {
                        let it = self.ty(l);
                        let v = self.cval(l, &it).c().unwrap();
                        idx.push(sext(v, it.bits()) as i64);
                    }
                    l.expect(b')');
                    let mut off = 0i64;
                    let mut cur = t;
                    for (k, &ix) in idx.iter().enumerate() {
                        if k == 0 {
                            off += ix * cur.size() as i64;
                        } else {
                            off += cur.field_off(ix as usize) as i64;
                            cur = cur.elem(if let Ty::Struct(..) = *cur { ix as usize } else { 0 });
                        }
                    }
                    Val::C(base.wrapping_add(off as u64) as u128)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" => {
                    l.expect(b'(');
                    let t = self.ty(l);
                    let v = self.cval(l, &t);
                    assert!(l.eat_id("to"));
                    let t2 = self.ty(l);
                    l.expect(b')');
                    Val::C(v.c().unwrap() & ones(t2.bits()))
                }
                "add" | "sub" | "xor" => {
                    while let Tok::Id(_) = l.peek() {
                        l.next();
                    }
                    l.expect(b'(');
                    let t = self.ty(l);
                    let a = self.cval(l, &t).c().unwrap();
                    l.expect(b',');
                    let t2 = self.ty(l);
                    let b = self.cval(l, &t2).c().unwrap();
                    l.expect(b')');
                    let op = match s.as_str() {
                        "add" => Op::Add,
                        "sub" => Op::Sub,
                        _ => Op::Xor,
                    };
                    Val::C(fold(op, t.bits(), a, b))
                }
                s => panic!("const {:?}", s),
            },
            t => panic!("const {:?} near {:?}", t, String::from_utf8_lossy(&l.s[l.i.saturating_sub(200)..(l.i + 60).min(l.s.len())])),
        }
    }
    fn agg(&mut self, l: &mut Lex, close: u8) -> Val {
        let mut v = vec![];
        if l.eat(close) {
            return Val::A(Rc::new(v));
        }
        loop {
            let t = self.ty(l);
            v.push(self.cval(l, &t));
            if l.eat(close) {
                return Val::A(Rc::new(v));
            }
            l.expect(b',');
        }
    }
    pub fn global_bytes(&mut self, g: u32) -> Vec<u8> {
        let d = &self.globals[g as usize];
        let (ty, init, size) = (d.ty.clone(), d.init, d.size);
        let mut out = vec![0u8; size as usize];
        if let Some((a, b)) = init {
            let text = self.text.clone();
            let mut l = Lex::new(&text, a, b);
            let v = self.cval(&mut l, &ty);
            put(&ty, &v, &mut out, 0);
        }
        out
    }

    pub fn func(&mut self, fid: u32) -> Option<Rc<Func>> {
        let d = &self.funcs[fid as usize];
        if let Some(f) = &d.parsed {
            return Some(f.clone());
        }
        let (a, b) = d.body?;
        let f = Rc::new(self.parse_func(fid, a, b));
        self.funcs[fid as usize].parsed = Some(f.clone());
        Some(f)
    }

    fn skip_attrs(&mut self, l: &mut Lex) {
        // parameter / return attributes
        loop {
            match l.peek() {
                Tok::Attr | Tok::Str(_) => {
                    l.next();
                }
                Tok::Id(s) => {
                    if is_val_kw(s) || is_ty_kw(s) {
                        return;
                    }
                    let al = s == "align" || s == "alignstack" || s == "dereferenceable" || s == "dereferenceable_or_null";
                    l.next();
                    if *l.peek() == Tok::P(b'(') {
                        l.skip_parens();
                    } else if al {
                        if let Tok::Int(_) = l.peek() {
                            l.next();
                        }
                    }
                }
                _ => return,
            }
        }
    }

    fn parse_func(&mut self, fid: u32, st: usize, en: usize) -> Func {
        let text = self.text.clone();
        let name = self.funcs[fid as usize].name.clone();
        let mut fp = FP { regs: HashMap::new(), nregs: 0, labels: HashMap::new(), nlabels: 0 };
        let mut l = Lex::new(&text, st, en);
        // header
        loop {
            match l.next() {
                Tok::Global(_) => break,
                Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => {}
                Tok::Eof => panic!(),
                _ => {}
            }
        }
        l.expect(b'(');
        let mut nparams = 0;
        if !l.eat(b')') {
            loop {
                if l.eat_id("...") {
                    l.expect(b')');
                    break;
                }
                let _ = self.ty(&mut l);
                self.skip_attrs(&mut l);
                match l.peek().clone() {
                    Tok::Local(n) => {
                        l.next();
                        fp.reg(&n);
                    }
                    _ => {
                        let n = format!("{}", nparams);
                        fp.reg(&n);
                    }
                }
                nparams += 1;
                if l.eat(b')') {
                    break;
                }
                l.expect(b',');
            }
        }
        // skip to '{' at end of header line
        let hdr_end = line_end(&text, l.i.max(st));
        let mut i = hdr_end + 1;
        let end = en; // position of "}"? (line end)
        let mut blocks: Vec<(u32, Block)> = vec![];
        let mut first = true;
        while i < end {
            let e = line_end(&text, i);
            let line = &text[i..e];
            if line == b"}" {
                break;
            }
            if line.is_empty() || line[0] == b';' {
                i = e + 1;
                continue;
            }
            if line[0] != b' ' && line[0] != b'\t' {
                // label
                let mut l = Lex::new(&text, i, e);
                let nm = l.name();
                let id = fp.label(&nm);
                blocks.push((id, Block { phis: vec![], ins: vec![] }));
                first = false;
                i = e + 1;
                continue;
            }
            if first {
                let nm = format!("{}", nparams);
                let id = fp.label(&nm);
                fp.labels.insert("%entry%".into(), id);
                blocks.push((id, Block { phis: vec![], ins: vec![] }));
                first = false;
            }
            // debug records
            let tr = trim(line);
            if tr.starts_with(b"#dbg_") {
                i = e + 1;
                continue;
            }
            // gather continuation lines
            let mut e2 = e;
            let has = |w: &[u8]| line.windows(w.len()).any(|x| x == w);
            if tr.starts_with(b"switch ") {
                // until a line whose trim starts with ']'
                if !tr.ends_with(b"]") && !has(b"], !") {
                    loop {
                        let s2 = e2 + 1;
                        e2 = line_end(&text, s2);
                        if trim(&text[s2..e2]).starts_with(b"]") {
                            break;
                        }
                    }
                }
            } else if tr.starts_with(b"invoke ") || has(b"= invoke ") {
                e2 = line_end(&text, e + 1);
            } else if has(b"= landingpad ") {
                loop {
                    let s2 = e2 + 1;
                    let e3 = line_end(&text, s2);
                    let t = trim(&text[s2..e3]);
                    if t.starts_with(b"catch") || t.starts_with(b"cleanup") || t.starts_with(b"filter") {
                        e2 = e3;
                    } else {
                        break;
                    }
                }
            }
            let mut l = Lex::new(&text, i, e2);
            let blk = blocks.last_mut().unwrap();
            self.parse_ins(&mut l, &mut fp, &mut blk.1, i, e2);
            i = e2 + 1;
        }
        blocks.sort_by_key(|b| b.0);
        // entry label must be index 0: labels allocated on first sight, entry is first
        for (k, b) in blocks.iter().enumerate() {
            assert!(b.0 as usize == k, "label numbering in {}", name);
        }
        Func { name, fid, nregs: fp.nregs, nparams, blocks: blocks.into_iter().map(|b| b.1).collect() }
    }

    fn opd(&mut self, l: &mut Lex, fp: &mut FP, ty: &TyR) -> Opd {
        if let Tok::Local(n) = l.peek() {
            let n = n.clone();
            l.next();
            return Opd::R(fp.reg(&n));
        }
        Opd::K(self.cval(l, ty))
    }
    fn tyopd(&mut self, l: &mut Lex, fp: &mut FP) -> (TyR, Opd) {
        let t = self.ty(l);
        let o = self.opd(l, fp, &t);
        (t, o)
    }
    fn label(&mut self, l: &mut Lex, fp: &mut FP) -> u32 {
        assert!(l.eat_id("label"));
        match l.next() {
            Tok::Local(n) => fp.label(&n),
            t => panic!("label {:?}", t),
        }
    }

    fn parse_ins(&mut self, l: &mut Lex, fp: &mut FP, blk: &mut Block, s0: usize, s1: usize) {
        let mut d = None;
        if let Tok::Local(n) = l.peek() {
            let n = n.clone();
            l.next();
            l.expect(b'=');
            d = Some(fp.reg(&n));
        }
        let mut op = match l.next() {
            Tok::Id(s) => s,
            t => panic!("instr {:?}: {}", t, String::from_utf8_lossy(&self.text[s0..s1])),
        };
        if op == "tail" || op == "musttail" || op == "notail" {
            op = match l.next() {
                Tok::Id(s) => s,
                t => panic!("{:?}", t),
            };
        }
        let flags = |l: &mut Lex| {
            while let Tok::Id(s) = l.peek() {
                match s.as_str() {
                    "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "volatile" | "atomic" | "weak" | "inalloca" => {
                        l.next();
                    }
                    "inrange" => {
                        l.next();
                        l.skip_parens();
                    }
                    _ => break,
                }
            }
        };
        let lanes_w = |t: &TyR| -> (u32, u32) {
            match &**t {
                Ty::Vector(e, n) => (*n, e.bits()),
                t => (0, t.bits()),
            }
        };
        if op == "atomicrmw" || op == "cmpxchg" || ((op == "load" || op == "store") && matches!(l.peek(), Tok::Id(s) if s == "atomic")) {
            blk.ins.push(Ins::Point);
        }
        let ins = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                flags(l);
                let (t, a) = self.tyopd(l, fp);
                l.expect(b',');
                let b = self.opd(l, fp, &t);
                let o = match op.as_str() {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "udiv" => Op::UDiv,
                    "sdiv" => Op::SDiv,
                    "urem" => Op::URem,
                    "srem" => Op::SRem,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    "ashr" => Op::AShr,
                    "and" => Op::And,
                    "or" => Op::Or,
                    _ => Op::Xor,
                };
                let (lanes, w) = lanes_w(&t);
                Ins::Bin { op: o, w, lanes, d: d.unwrap(), a, b }
            }
            "icmp" => {
                flags(l);
                let Tok::Id(p) = l.next() else { panic!() };
                let p = match p.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    p => panic!("pred {}", p),
                };
                let (t, a) = self.tyopd(l, fp);
                l.expect(b',');
                let b = self.opd(l, fp, &t);
                let (lanes, w) = lanes_w(&t);
                Ins::Cmp { p, w, lanes, d: d.unwrap(), a, b }
            }
            "trunc" | "zext" | "sext" => {
                flags(l);
                let (t, a) = self.tyopd(l, fp);
                assert!(l.eat_id("to"));
                let t2 = self.ty(l);
                let (lanes, fw) = lanes_w(&t);
                let (_, tw) = lanes_w(&t2);
                let k = match op.as_str() {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::ZExt,
                    _ => CastK::SExt,
                };
                Ins::Cast { k, fw, tw, lanes, d: d.unwrap(), a }
            }
            "ptrtoint" | "inttoptr" | "ptrtoaddr" | "bitcast" | "addrspacecast" => {
                let (t, a) = self.tyopd(l, fp);
                assert!(l.eat_id("to"));
                let t2 = self.ty(l);
                if t.is_scalar() && t2.is_scalar() {
                    let (fw, tw) = (t.bits(), t2.bits());
                    if fw == tw {
                        Ins::Mov { d: d.unwrap(), a }
                    } else if fw > tw {
                        Ins::Cast { k: CastK::Trunc, fw, tw, lanes: 0, d: d.unwrap(), a }
                    } else {
                        Ins::Cast { k: CastK::ZExt, fw, tw, lanes: 0, d: d.unwrap(), a }
                    }
                } else {
                    Ins::BitcastV { from: t, to: t2, d: d.unwrap(), a }
                }
            }
            "freeze" => {
                let (_, a) = self.tyopd(l, fp);
                Ins::Mov { d: d.unwrap(), a }
            }
            "load" => {
                flags(l);
                let t = self.ty(l);
                l.expect(b',');
                let (_, p) = self.tyopd(l, fp);
                Ins::Load { ty: t, d: d.unwrap(), p }
            }
            "store" => {
                flags(l);
                let (t, v) = self.tyopd(l, fp);
                l.expect(b',');
                let (_, p) = self.tyopd(l, fp);
                Ins::Store { ty: t, v, p }
            }
            "alloca" => {
                flags(l);
                let t = self.ty(l);
                let mut n = None;
                if l.eat(b',') {
                    if let Tok::Id(x) = l.peek() {
                        if x.starts_with('i') {
                            n = Some(self.tyopd(l, fp).1);
                        }
                    }
                }
                Ins::Alloca { d: d.unwrap(), size: t.size(), n }
            }
            "getelementptr" => {
                flags(l);
                let t = self.ty(l);
                l.expect(b',');
                let (bt, base) = self.tyopd(l, fp);
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = t;
                let mut k = 0;
                let mut bad = matches!(*bt, Ty::Vector(..));
                while l.eat(b',') {
                    if let Tok::Meta(_) = l.peek() {
                        break;
                    }
                    let (it, o) = self.tyopd(l, fp);
                    if matches!(*it, Ty::Vector(..)) {
                        bad = true;
                        break;
                    }
                    let c = match &o {
                        Opd::K(Val::C(v)) => Some(sext(*v, it.bits()) as i64),
                        _ => None,
                    };
                    if k == 0 {
                        match c {
                            Some(v) => off = off.wrapping_add((v.wrapping_mul(cur.size() as i64)) as u64),
                            None => idx.push((o, it.bits(), cur.size())),
                        }
                    } else {
                        let es;
                        match (&*cur, c) {
                            (Ty::Struct(..), Some(v)) => {
                                off = off.wrapping_add(cur.field_off(v as usize));
                                es = cur.elem(v as usize);
                            }
                            (_, c) => {
                                es = cur.elem(0);
                                match c {
                                    Some(v) => off = off.wrapping_add((v.wrapping_mul(es.size() as i64)) as u64),
                                    None => idx.push((o, it.bits(), es.size())),
                                }
                            }
                        }
                        cur = es;
                    }
                    k += 1;
                }
                if bad {
                    Ins::Unsup("vector gep".into())
                } else {
                    Ins::Gep { d: d.unwrap(), base, off, idx }
                }
            }
            "select" => {
                flags(l);
                let (ct, c) = self.tyopd(l, fp);
                l.expect(b',');
                let (t, a) = self.tyopd(l, fp);
                l.expect(b',');
                let (_, b) = self.tyopd(l, fp);
                let w = match &*t {
                    Ty::Vector(e, _) => e.bits(),
                    t if t.is_scalar() => t.bits(),
                    _ => 0,
                };
                let lanes = if let Ty::Vector(_, n) = &*ct { *n } else { 0 };
                let w = if lanes == 0 && !t.is_scalar() { 0 } else { w };
                Ins::Select { d: d.unwrap(), c, a, b, w, lanes }
            }
            "phi" => {
                flags(l);
                let t = self.ty(l);
                let mut m = HashMap::new();
                loop {
                    l.expect(b'[');
                    let v = self.opd(l, fp, &t);
                    l.expect(b',');
                    let Tok::Local(n) = l.next() else { panic!() };
                    l.expect(b']');
                    m.insert(fp.label(&n), v);
                    if !l.eat(b',') {
                        break;
                    }
                    if let Tok::Meta(_) = l.peek() {
                        break;
                    }
                }
                blk.phis.push((d.unwrap(), m));
                return;
            }
            "br" => {
                if let Tok::Id(x) = l.peek() {
                    if x == "label" {
                        let b = self.label(l, fp);
                        blk.ins.push(Ins::Br(b));
                        return;
                    }
                }
                let (_, c) = self.tyopd(l, fp);
                l.expect(b',');
                let t = self.label(l, fp);
                l.expect(b',');
                let f = self.label(l, fp);
                Ins::CBr { c, t, f }
            }
            "switch" => {
                let (t, v) = self.tyopd(l, fp);
                l.expect(b',');
                let def = self.label(l, fp);
                l.expect(b'[');
                let mut cases = vec![];
                while !l.eat(b']') {
                    let ct = self.ty(l);
                    let c = self.cval(l, &ct).c().unwrap();
                    l.expect(b',');
                    let b = self.label(l, fp);
                    cases.push((c, b));
                }
                Ins::Switch { v, w: t.bits(), cases: Rc::new(cases), def }
            }
            "ret" => {
                let t = self.ty(l);
                if *t == Ty::Void {
                    Ins::Ret(None)
                } else {
                    let v = self.opd(l, fp, &t);
                    Ins::Ret(Some(v))
                }
            }
            "unreachable" => Ins::Unreachable,
            "fence" => Ins::Nop,
            "landingpad" | "resume" | "cleanupret" => Ins::Unsup(op.clone()),
            "extractvalue" => {
                let (_, a) = self.tyopd(l, fp);
                let mut idx = vec![];
                while l.eat(b',') {
                    if let Tok::Int(v) = l.peek() {
                        idx.push(*v as u32);
                        l.next();
                    } else {
                        break;
                    }
                }
                Ins::ExtractV { d: d.unwrap(), a, idx }
            }
            "insertvalue" => {
                let (_, a) = self.tyopd(l, fp);
                l.expect(b',');
                let (_, v) = self.tyopd(l, fp);
                let mut idx = vec![];
                while l.eat(b',') {
                    if let Tok::Int(v) = l.peek() {
                        idx.push(*v as u32);
                        l.next();
                    } else {
                        break;
                    }
                }
                Ins::InsertV { d: d.unwrap(), a, v, idx }
            }
            "extractelement" => {
                let (_, a) = self.tyopd(l, fp);
                l.expect(b',');
                let (_, i) = self.tyopd(l, fp);
                Ins::ExtractE { d: d.unwrap(), a, i }
            }
            "insertelement" => {
                let (_, a) = self.tyopd(l, fp);
                l.expect(b',');
                let (_, v) = self.tyopd(l, fp);
                l.expect(b',');
                let (_, i) = self.tyopd(l, fp);
                Ins::InsertE { d: d.unwrap(), a, v, i }
            }
            "shufflevector" => {
                let (t, a) = self.tyopd(l, fp);
                l.expect(b',');
                let (_, b) = self.tyopd(l, fp);
                l.expect(b',');
                let (_, m) = self.tyopd(l, fp);
                let mut mask = vec![];
                if let Opd::K(Val::A(v)) = m {
                    for x in v.iter() {
                        mask.push(x.c().unwrap() as i32);
                    }
                }
                Ins::Shuffle { d: d.unwrap(), a, b, mask, n: t.nelem() as u32 }
            }
            "atomicrmw" => {
                flags(l);
                let Tok::Id(o) = l.next() else { panic!() };
                let (_, p) = self.tyopd(l, fp);
                l.expect(b',');
                let (t, v) = self.tyopd(l, fp);
                let op = match o.as_str() {
                    "xchg" => RmwOp::Xchg,
                    "add" => RmwOp::Add,
                    "sub" => RmwOp::Sub,
                    "and" => RmwOp::And,
                    "or" => RmwOp::Or,
                    "xor" => RmwOp::Xor,
                    "nand" => RmwOp::Nand,
                    "max" => RmwOp::Max,
                    "min" => RmwOp::Min,
                    "umax" => RmwOp::UMax,
                    "umin" => RmwOp::UMin,
                    o => panic!("rmw {}", o),
                };
                Ins::Rmw { d: d.unwrap(), op, w: t.bits(), p, v }
            }
            "cmpxchg" => {
                flags(l);
                let (_, p) = self.tyopd(l, fp);
                l.expect(b',');
                let (t, e) = self.tyopd(l, fp);
                l.expect(b',');
                let (_, v) = self.tyopd(l, fp);
                Ins::CmpXchg { d: d.unwrap(), w: t.bits(), p, e, v }
            }
            "call" | "invoke" => {
                flags(l);
                // calling convention and return attributes
                loop {
                    match l.peek() {
                        Tok::Id(s) if is_ty_kw(s) => break,
                        Tok::Id(_) | Tok::Attr | Tok::Str(_) => {
                            let al = matches!(l.peek(), Tok::Id(s) if s == "align");
                            l.next();
                            if *l.peek() == Tok::P(b'(') {
                                l.skip_parens();
                            } else if al {
                                l.next();
                            }
                        }
                        _ => break,
                    }
                }
                let ret = self.ty(l);
                if *l.peek() == Tok::P(b'(') {
                    l.skip_parens(); // vararg function type
                }
                let callee = match l.next() {
                    Tok::Global(n) => {
                        if n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.lifetime") || n.starts_with("llvm.dbg") || n == "llvm.assume" || n.starts_with("llvm.x86.sse2.pause") {
                            return;
                        }
                        let a = self.global_addr(&n);
                        Callee::F((a >> 32) as u32)
                    }
                    Tok::Local(n) => Callee::Ind(Opd::R(fp.reg(&n))),
                    Tok::Id(s) => {
                        blk.ins.push(Ins::Unsup(format!("call {}: {}", s, String::from_utf8_lossy(&self.text[s0..s1]))));
                        return;
                    }
                    t => panic!("callee {:?}", t),
                };
                l.expect(b'(');
                let (mut args, mut argw) = (vec![], vec![]);
                if !l.eat(b')') {
                    loop {
                        let t = self.ty(l);
                        if *t == Ty::Meta {
                            loop {
                                match l.peek() {
                                    Tok::P(b',') | Tok::P(b')') => break,
                                    _ => {
                                        l.next();
                                    }
                                }
                            }
                            args.push(Opd::K(Val::C(0)));
                            argw.push(0);
                        } else {
                            self.skip_attrs(l);
                            let o = self.opd(l, fp, &t);
                            args.push(o);
                            argw.push(if t.is_scalar() { t.bits() } else { 0 });
                        }
                        if l.eat(b')') {
                            break;
                        }
                        l.expect(b',');
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    loop {
                        match l.next() {
                            Tok::Id(s) if s == "to" => break,
                            Tok::Eof => panic!("invoke"),
                            _ => {}
                        }
                    }
                    normal = Some(self.label(l, fp));
                    assert!(l.eat_id("unwind"));
                    let _ = self.label(l, fp);
                }
                Ins::Call { d, callee, args, argw, ret, normal }
            }
            _ => Ins::Unsup(String::from_utf8_lossy(&self.text[s0..s1]).into_owned()),
        };
        blk.ins.push(ins);
    }
}

fn trim(mut s: &[u8]) -> &[u8] {
    while !s.is_empty() && (s[0] == b' ' || s[0] == b'\t') {
        s = &s[1..];
    }
    s
}
fn is_val_kw(s: &str) -> bool {
    matches!(s, "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "add" | "sub" | "xor" | "splat")
}
fn is_ty_kw(s: &str) -> bool {
    matches!(s, "void" | "ptr" | "half" | "float" | "double" | "label" | "metadata" | "x86_fp80" | "fp128" | "token") || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
}

struct FP {
    regs: HashMap<String, u32>,
    nregs: u32,
    labels: HashMap<String, u32>,
    nlabels: u32,
}
impl FP {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn label(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.labels.get(n) {
            return r;
        }
        let r = self.nlabels;
        self.nlabels += 1;
        self.labels.insert(n.to_string(), r);
        r
    }
}

/// write a constant into bytes
pub fn put(ty: &Ty, v: &Val, out: &mut [u8], off: usize) {
    match (ty, v) {
        (_, Val::C(x)) if ty.is_scalar() => {
            let n = (ty.bits() as usize + 7) / 8;
            out[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
        }
        (Ty::Array(t, _), Val::A(vs)) if **t == Ty::Int(8) => {
            for (i, x) in vs.iter().enumerate() {
                out[off + i] = x.c().unwrap() as u8;
            }
        }
        (_, Val::A(vs)) => {
            for (i, x) in vs.iter().enumerate() {
                put(&ty.elem(i), x, out, off + ty.field_off(i) as usize);
            }
        }
        _ => panic!("put {:?} {:?}", ty, v),
    }
}
