//! Symbolic executor: explores every feasible path of one entry function.
use crate::intr::{self, HFn};
use crate::ir::*;
use crate::mem::*;
use crate::smt::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Debug, Clone)]
pub enum Stop {
    End,
    Infeasible,
    Violation(String, String),
    Err(String),
}
pub type R<X> = Result<X, Stop>;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<Val>,
    pub bb: u32,
    pub ip: u32,
    pub sp: u32,
    pub ret_d: Option<u32>,
    pub ret_bb: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum Input {
    Sym(usize, usize),
    Pick(usize, u64),
}

#[derive(Clone)]
pub struct OutRec {
    pub tag: u64,
    pub data: Vec<(u8, T)>,
}

#[derive(Clone)]
pub struct State {
    pub top: Frame,
    pub rest: Vec<Rc<Frame>>,
    pub stack: Region,
    pub heap: Region,
    pub glob: Region,
    pub sp: u32,
    pub next_heap: u32,
    pub cons: Rc<Vec<T>>,
    pub dom: Rc<Vec<Mask>>,
    pub multi: Mask,
    pub model: Rc<Vec<u8>>,
    pub inputs: Rc<Vec<Input>>,
    pub outs: Rc<Vec<OutRec>>,
    pub icount: u64,
    pub picks: usize,
    pub errno: u64,
    pub fds: Rc<Vec<intr::VFile>>,
    pub depth: u32,
    pub expect_panic: bool,
    pub race: Option<Race>,
}

/// Another thread's operation, run as a whole in front of the `at`-th atomic access of this one.
#[derive(Clone)]
pub struct Race {
    pub at: u64,
    pub max: u64,
    pub seen: u64,
    pub f: u32,
    pub arg: Val,
    /// call depth at which it was started
    pub running: Option<usize>,
}
impl State {
    /// The other thread's operation is under way: if it has to wait for this thread, this schedule does not exist.
    pub fn interrupting(&self) -> bool {
        matches!(&self.race, Some(Race { running: Some(d), .. }) if self.rest.len() > *d)
    }
}

pub struct Violation {
    pub id: String,
    pub detail: String,
    pub inputs: Vec<(String, Vec<u8>)>,
    pub stack: Vec<String>,
}
pub struct Sample {
    pub inputs: Vec<(String, Vec<u8>)>,
    pub outs: Vec<(u64, Vec<u8>)>,
    pub end: String,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub instrs: u64,
    pub asserts_solver: u64,
    pub asserts_const: u64,
    pub fast_sat: u64,
    pub fast_unsat: u64,
    pub cache_hits: u64,
    pub max_depth: u32,
    pub max_vars: usize,
    pub max_path_instrs: u64,
}

pub struct Cfg {
    pub fast: bool,
    pub max_path_instrs: u64,
    pub max_secs: f64,
    pub max_paths: u64,
    pub params: Vec<u64>,
    pub fixed: Vec<Option<u64>>,
    pub samples: usize,
    pub max_violations: usize,
    pub seed: u64,
    pub verbose: bool,
}

pub struct Engine {
    pub p: Program,
    pub tm: Terms,
    pub smt: Smt,
    pub hs: Vec<Option<HFn>>,
    pub gbase: u64,
    pub gend: u64,
    pub gbaseobj: Vec<Option<Rc<Obj>>>,
    pub work: Vec<State>,
    pub cfg: Cfg,
    pub st: Stats,
    pub cur_model: Rc<Vec<u8>>,
    pub qcache: FxMap<Vec<T>, Option<Rc<Vec<(usize, u8)>>>>,
    pub covers: BTreeMap<String, u64>,
    pub asserts: BTreeMap<String, u64>,
    pub fexec: Vec<u64>,
    pub fsym: BTreeSet<u32>,
    pub violations: Vec<Violation>,
    pub samples: Vec<Sample>,
    pub forksites: HashMap<(u32, u32, u32), u64>,
    pub t0: Instant,
    pub errors: Vec<String>,
    pub prof: HashMap<u32, u64>,
}

enum Flow {
    Next,
    Jump,
    Frame,
}

pub enum HR {
    Ret(Val),
    Void,
    /// execute the function's own body after all
    Pass,
}

impl Engine {
    pub fn new(p: Program, cfg: Cfg) -> Engine {
        let gbase = p.gbase;
        let ng = p.globals.len();
        let nf = p.funcs.len();
        let mut hs: Vec<Option<HFn>> = vec![None; nf];
        for (i, f) in p.funcs.iter().enumerate() {
            hs[i] = intr::lookup(&f.name, f.body.is_some());
        }
        let tmo = 60000;
        Engine {
            p,
            tm: Terms::new(),
            smt: Smt::new(tmo),
            hs,
            gbase,
            gend: gbase + ng as u64,
            gbaseobj: vec![None; ng],
            work: vec![],
            cfg,
            st: Stats::default(),
            cur_model: Rc::new(vec![]),
            qcache: Default::default(),
            covers: Default::default(),
            asserts: Default::default(),
            fexec: vec![0; nf],
            fsym: Default::default(),
            violations: vec![],
            samples: vec![],
            forksites: Default::default(),
            t0: Instant::now(),
            errors: vec![],
            prof: Default::default(),
        }
    }

    pub fn fname(&self, fid: u32) -> String {
        crate::demangle(&self.p.funcs[fid as usize].name)
    }

    // ------------------------------------------------------------ solver layer
    pub fn eval(&mut self, st: &State, t: T) -> u128 {
        if !Rc::ptr_eq(&self.cur_model, &st.model) {
            self.cur_model = st.model.clone();
            self.tm.new_model();
        }
        self.tm.eval(t, &st.model)
    }
    fn slice(&self, st: &State, c: T) -> Vec<T> {
        let mut m = *self.tm.mask(c);
        let mut used = vec![false; st.cons.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, &k) in st.cons.iter().enumerate() {
                if !used[i] && mask_any(&mask_and(self.tm.mask(k), &m)) {
                    used[i] = true;
                    let n = mask_or(&m, self.tm.mask(k));
                    if n != m {
                        ch = true;
                        m = n;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        for (i, &k) in st.cons.iter().enumerate() {
            if used[i] {
                out.push(k);
            }
        }
        out
    }
    /// Is `c` satisfiable together with the path condition? (the current model is known to violate c)
    pub fn feasible(&mut self, st: &State, c: T, force_solver: bool) -> R<Option<Rc<Vec<u8>>>> {
        if let Some(k) = self.tm.cst(c) {
            return Ok(if k == 1 { Some(st.model.clone()) } else { None });
        }
        let m = *self.tm.mask(c);
        if self.cfg.fast && !force_solver && mask_count(&m) == 1 {
            let v = mask_first(&m).unwrap();
            if let Some(set) = self.tm.set_of(c) {
                let d = mask_and(&st.dom[v], &set);
                match mask_first(&d) {
                    None => {
                        self.st.fast_unsat += 1;
                        return Ok(None);
                    }
                    Some(x) => {
                        if !mask_has(&st.multi, v) {
                            self.st.fast_sat += 1;
                            // prefer a printable value, for readable models
                            let mut x = x;
                            for y in (b'a'..=b'z').chain(b'0'..=b'9').chain(33..=126) {
                                if mask_has(&d, y as usize) {
                                    x = y as usize;
                                    break;
                                }
                            }
                            let mut md = (*st.model).clone();
                            md[v] = x as u8;
                            return Ok(Some(Rc::new(md)));
                        }
                    }
                }
            }
        }
        let mut cs = self.slice(st, c);
        cs.push(c);
        let mut key = cs.clone();
        key.sort();
        key.dedup();
        if let Some(r) = self.qcache.get(&key) {
            self.st.cache_hits += 1;
            return Ok(match r {
                None => None,
                Some(d) => {
                    let mut md = (*st.model).clone();
                    for &(i, v) in d.iter() {
                        md[i] = v;
                    }
                    Some(Rc::new(md))
                }
            });
        }
        match self.smt.check(&mut self.tm, &cs) {
            Res::Sat(d) => {
                let mut md = (*st.model).clone();
                for &(i, v) in d.iter() {
                    md[i] = v;
                }
                self.qcache.insert(key, Some(Rc::new(d)));
                Ok(Some(Rc::new(md)))
            }
            Res::Unsat => {
                self.qcache.insert(key, None);
                Ok(None)
            }
            Res::Unknown => Err(Stop::Err("solver answered unknown (timeout)".into())),
        }
    }
    pub fn add_cons(&mut self, st: &mut State, c: T) {
        let n = *self.tm.n(c);
        if n.op == Op::Const {
            return;
        }
        if n.op == Op::And && n.w == 1 {
            self.add_cons(st, n.a);
            self.add_cons(st, n.b);
            return;
        }
        if st.cons.contains(&c) {
            return;
        }
        Rc::make_mut(&mut st.cons).push(c);
        let m = *self.tm.mask(c);
        if mask_count(&m) == 1 {
            if let Some(set) = self.tm.set_of(c) {
                let v = mask_first(&m).unwrap();
                let d = mask_and(&st.dom[v], &set);
                Rc::make_mut(&mut st.dom)[v] = d;
                return;
            }
        }
        st.multi = mask_or(&st.multi, &m);
    }
    /// returns the side the current state takes, and the other side if it is feasible
    pub fn fork(&mut self, st: &mut State, c: T) -> R<(bool, Option<State>)> {
        let cur = self.eval(st, c) == 1;
        let nc = self.tm.not(c);
        let (mine, other) = if cur { (c, nc) } else { (nc, c) };
        let alt = self.feasible(st, other, false)?;
        match alt {
            None => Ok((cur, None)),
            Some(md) => {
                self.st.forks += 1;
                let site = (st.top.f.fid, st.top.bb, st.top.ip);
                *self.forksites.entry(site).or_insert(0) += 1;
                let mut a = st.clone();
                a.depth += 1;
                a.model = md;
                self.add_cons(&mut a, other);
                self.add_cons(st, mine);
                st.depth += 1;
                Ok((cur, Some(a)))
            }
        }
    }
    /// fix a term to one concrete value; other values are explored by states that re-execute this instruction
    pub fn concretize(&mut self, st: &mut State, v: &Val) -> R<u128> {
        match v {
            Val::C(x) => Ok(*x),
            Val::S(t) => {
                let x = self.eval(st, *t);
                let w = self.tm.w(*t);
                let k = self.tm.k(x, w);
                let c = self.tm.eq(*t, k);
                if let Some(1) = self.tm.cst(c) {
                    return Ok(x);
                }
                let (side, alt) = self.fork(st, c)?;
                debug_assert!(side);
                if let Some(a) = alt {
                    self.work.push(a);
                }
                Ok(x)
            }
            Val::A(_) => Err(Stop::Err("concretize aggregate".into())),
        }
    }
    pub fn assume(&mut self, st: &mut State, c: T) -> R<()> {
        if self.eval(st, c) == 1 {
            self.add_cons(st, c);
            return Ok(());
        }
        match self.feasible(st, c, false)? {
            None => Err(Stop::Infeasible),
            Some(md) => {
                st.model = md;
                self.add_cons(st, c);
                Ok(())
            }
        }
    }
    pub fn fresh(&mut self, st: &mut State) -> (usize, T) {
        let i = st.model.len();
        Rc::make_mut(&mut st.model).push(0);
        Rc::make_mut(&mut st.dom).push([!0; 4]);
        if i + 1 > self.st.max_vars {
            self.st.max_vars = i + 1;
        }
        (i, self.tm.var(i))
    }
    pub fn assert(&mut self, st: &mut State, c: &Val, id: &str) -> R<()> {
        *self.asserts.entry(id.to_string()).or_insert(0) += 1;
        match c {
            Val::C(1) => {
                self.st.asserts_const += 1;
                Ok(())
            }
            Val::C(_) => Err(Stop::Violation(id.into(), String::new())),
            Val::S(t) => {
                self.st.asserts_solver += 1;
                let n = self.tm.not(*t);
                if self.eval(st, n) == 1 {
                    return Err(Stop::Violation(id.into(), String::new()));
                }
                match self.feasible(st, n, true)? {
                    None => {
                        self.add_cons(st, *t);
                        Ok(())
                    }
                    Some(md) => {
                        st.model = md;
                        Err(Stop::Violation(id.into(), String::new()))
                    }
                }
            }
            _ => Err(Stop::Err("assert aggregate".into())),
        }
    }

    // ------------------------------------------------------------ values
    pub fn term(&mut self, v: &Val, w: u32) -> T {
        match v {
            Val::C(x) => self.tm.k(*x, w),
            Val::S(t) => {
                debug_assert!(self.tm.w(*t) == w, "term width {} vs {}: {}", self.tm.w(*t), w, self.tm.show(*t));
                *t
            }
            Val::A(_) => panic!("term of aggregate"),
        }
    }
    pub fn val(&self, t: T) -> Val {
        match self.tm.cst(t) {
            Some(k) => Val::C(k),
            None => Val::S(t),
        }
    }
    pub fn bin(&mut self, op: Op, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if *y == 0 && matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
                return Err(Stop::Err("division by zero".into()));
            }
            return Ok(Val::C(fold(op, w, *x, *y)));
        }
        let (x, y) = (self.term(a, w), self.term(b, w));
        let t = self.tm.bin(op, x, y);
        Ok(self.val(t))
    }
    pub fn cmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext(x, w), sext(y, w));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
            };
            return Val::C(r as u128);
        }
        let (x, y) = (self.term(a, w), self.term(b, w));
        let t = match p {
            Pred::Eq => self.tm.bin(Op::Eq, x, y),
            Pred::Ne => {
                let t = self.tm.bin(Op::Eq, x, y);
                self.tm.not(t)
            }
            Pred::Ult => self.tm.bin(Op::Ult, x, y),
            Pred::Ugt => self.tm.bin(Op::Ult, y, x),
            Pred::Ule => {
                let t = self.tm.bin(Op::Ult, y, x);
                self.tm.not(t)
            }
            Pred::Uge => {
                let t = self.tm.bin(Op::Ult, x, y);
                self.tm.not(t)
            }
            Pred::Slt => self.tm.bin(Op::Slt, x, y),
            Pred::Sgt => self.tm.bin(Op::Slt, y, x),
            Pred::Sle => {
                let t = self.tm.bin(Op::Slt, y, x);
                self.tm.not(t)
            }
            Pred::Sge => {
                let t = self.tm.bin(Op::Slt, x, y);
                self.tm.not(t)
            }
        };
        self.val(t)
    }
    pub fn cast(&mut self, k: CastK, fw: u32, tw: u32, a: &Val) -> Val {
        match a {
            Val::C(x) => Val::C(match k {
                CastK::Trunc => x & ones(tw),
                CastK::ZExt => *x,
                CastK::SExt => (sext(*x, fw) as u128) & ones(tw),
            }),
            Val::S(t) => {
                let r = match k {
                    CastK::Trunc => self.tm.extract(*t, 0, tw),
                    CastK::ZExt => self.tm.zext(*t, tw),
                    CastK::SExt => self.tm.sext(*t, tw),
                };
                self.val(r)
            }
            Val::A(_) => panic!("cast aggregate"),
        }
    }

    // ------------------------------------------------------------ memory
    fn base_global(&mut self, g: usize) -> Rc<Obj> {
        if self.gbaseobj[g].is_none() {
            let b = self.p.global_bytes(g as u32);
            let ro = self.p.globals[g].is_const;
            self.gbaseobj[g] = Some(Rc::new(Obj { bytes: b, sym: None, ro }));
        }
        self.gbaseobj[g].as_ref().unwrap().clone()
    }
    pub fn obj(&mut self, st: &State, id: u64) -> R<Rc<Obj>> {
        let r = if id >= HEAP_BASE {
            st.heap.get((id - HEAP_BASE) as usize).cloned()
        } else if id >= STACK_BASE {
            st.stack.get((id - STACK_BASE) as usize).cloned()
        } else if id >= self.gbase && id < self.gend {
            let g = (id - self.gbase) as usize;
            match st.glob.get(g) {
                Some(o) => Some(o.clone()),
                None => Some(self.base_global(g)),
            }
        } else {
            None
        };
        r.ok_or_else(|| Stop::Err(format!("memory error: access to object {:#x} (null, freed or not data)", id)))
    }
    pub fn obj_mut<'a>(&mut self, st: &'a mut State, id: u64) -> R<&'a mut Obj> {
        let r = if id >= HEAP_BASE {
            st.heap.get_mut((id - HEAP_BASE) as usize)
        } else if id >= STACK_BASE {
            st.stack.get_mut((id - STACK_BASE) as usize)
        } else if id >= self.gbase && id < self.gend {
            let g = (id - self.gbase) as usize;
            if st.glob.get(g).is_none() {
                let o = self.base_global(g);
                st.glob.set(g, Some(o));
            }
            st.glob.get_mut(g)
        } else {
            None
        };
        match r {
            Some(o) if !o.ro => Ok(o),
            Some(_) => Err(Stop::Err(format!("memory error: write to constant object {:#x}", id))),
            None => Err(Stop::Err(format!("memory error: write to object {:#x} (null, freed or not data)", id))),
        }
    }
    pub fn alloc(&mut self, st: &mut State, size: u64) -> R<u64> {
        if size > (1 << 28) {
            return Err(Stop::Err(format!("allocation of {} bytes", size)));
        }
        let id = st.next_heap;
        st.next_heap += 1;
        st.heap.set(id as usize, Some(Rc::new(Obj::new(size as usize))));
        Ok((HEAP_BASE + id as u64) << 32)
    }
    fn oob(addr: u64, n: usize, size: usize) -> Stop {
        Stop::Err(format!("memory error: out of bounds access at {:#x} len {} (object size {})", addr, n, size))
    }
    pub fn load_bytes_sym(&mut self, st: &State, addr: u64, n: usize) -> R<Vec<(u8, T)>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let o = self.obj(st, addr >> 32)?;
        let off = (addr & 0xffff_ffff) as usize;
        if off + n > o.bytes.len() {
            return Err(Self::oob(addr, n, o.bytes.len()));
        }
        Ok((0..n).map(|i| (o.bytes[off + i], o.sym_at(off + i))).collect())
    }
    pub fn load_bytes(&mut self, st: &State, addr: u64, n: usize) -> R<Vec<u8>> {
        let v = self.load_bytes_sym(st, addr, n)?;
        let mut out = vec![];
        for (b, t) in v {
            if t != 0 {
                return Err(Stop::Err("symbolic bytes where concrete bytes were needed".into()));
            }
            out.push(b);
        }
        Ok(out)
    }
    pub fn store_bytes(&mut self, st: &mut State, addr: u64, b: &[u8]) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        let o = self.obj_mut(st, addr >> 32)?;
        let off = (addr & 0xffff_ffff) as usize;
        if off + b.len() > o.bytes.len() {
            return Err(Self::oob(addr, b.len(), o.bytes.len()));
        }
        o.bytes[off..off + b.len()].copy_from_slice(b);
        o.clear_sym(off, b.len());
        Ok(())
    }
    pub fn load_int(&mut self, st: &State, addr: u64, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as usize;
        let id = addr >> 32;
        let off = (addr & 0xffff_ffff) as usize;
        // fast path without Rc clone
        let o: &Rc<Obj>;
        let tmp;
        if id >= HEAP_BASE {
            o = match st.heap.get((id - HEAP_BASE) as usize) {
                Some(o) => o,
                None => return Err(Stop::Err(format!("memory error: load from freed/unknown heap object {:#x}", addr))),
            };
        } else if id >= STACK_BASE {
            o = match st.stack.get((id - STACK_BASE) as usize) {
                Some(o) => o,
                None => return Err(Stop::Err(format!("memory error: load from dead stack object {:#x}", addr))),
            };
        } else {
            tmp = self.obj(st, id)?;
            o = &tmp;
        }
        if off + n > o.bytes.len() {
            return Err(Self::oob(addr, n, o.bytes.len()));
        }
        if o.sym.is_none() || o.concrete(off, n) {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.bytes[off..off + n]);
            return Ok(Val::C(u128::from_le_bytes(b) & ones(w)));
        }
        let mut t: T = 0;
        for i in (0..n).rev() {
            let s = o.sym_at(off + i);
            let b = if s != 0 { s } else { self.tm.k(o.bytes[off + i] as u128, 8) };
            t = if t == 0 { b } else { self.tm.concat(t, b) };
        }
        if w < n as u32 * 8 {
            t = self.tm.extract(t, 0, w);
        }
        Ok(self.val(t))
    }
    pub fn store_int(&mut self, st: &mut State, addr: u64, w: u32, v: &Val) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        let off = (addr & 0xffff_ffff) as usize;
        match v {
            Val::C(x) => {
                let o = self.obj_mut(st, addr >> 32)?;
                if off + n > o.bytes.len() {
                    return Err(Self::oob(addr, n, o.bytes.len()));
                }
                o.bytes[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                o.clear_sym(off, n);
            }
            Val::S(t) => {
                let mut t = *t;
                if w < n as u32 * 8 {
                    t = self.tm.zext(t, n as u32 * 8);
                }
                let mut bs = [0 as T; 16];
                for i in 0..n {
                    bs[i] = if n == 1 { t } else { self.tm.extract(t, 8 * i as u32, 8) };
                }
                let ks: Vec<Option<u128>> = (0..n).map(|i| self.tm.cst(bs[i])).collect();
                let o = self.obj_mut(st, addr >> 32)?;
                if off + n > o.bytes.len() {
                    return Err(Self::oob(addr, n, o.bytes.len()));
                }
                for i in 0..n {
                    match ks[i] {
                        Some(k) => {
                            o.bytes[off + i] = k as u8;
                            o.clear_sym(off + i, 1);
                        }
                        None => o.set_sym(off + i, bs[i]),
                    }
                }
            }
            Val::A(_) => return Err(Stop::Err("store aggregate as scalar".into())),
        }
        Ok(())
    }
    pub fn load(&mut self, st: &State, addr: u64, ty: &Ty) -> R<Val> {
        if ty.is_scalar() {
            return self.load_int(st, addr, ty.bits());
        }
        if let Ty::Vector(e, n) = ty {
            if e.bits() < 8 {
                let v = self.load_int(st, addr, e.bits() * n)?;
                return self.split(&v, e.bits(), *n);
            }
        }
        let n = ty.nelem();
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            v.push(self.load(st, addr + ty.field_off(i), &ty.elem(i))?);
        }
        Ok(Val::A(Rc::new(v)))
    }
    pub fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> R<()> {
        if ty.is_scalar() {
            return self.store_int(st, addr, ty.bits(), v);
        }
        let Val::A(vs) = v else { return Err(Stop::Err("store scalar as aggregate".into())) };
        if let Ty::Vector(e, n) = ty {
            if e.bits() < 8 {
                let x = self.join(vs, e.bits())?;
                return self.store_int(st, addr, e.bits() * n, &x);
            }
        }
        for i in 0..vs.len() {
            self.store(st, addr + ty.field_off(i), &ty.elem(i), &vs[i])?;
        }
        Ok(())
    }
    fn split(&mut self, v: &Val, w: u32, n: u32) -> R<Val> {
        let mut out = vec![];
        for i in 0..n {
            out.push(match v {
                Val::C(x) => Val::C((x >> (i * w)) & ones(w)),
                Val::S(t) => {
                    let e = self.tm.extract(*t, i * w, w);
                    self.val(e)
                }
                _ => return Err(Stop::Err("split".into())),
            });
        }
        Ok(Val::A(Rc::new(out)))
    }
    fn join(&mut self, vs: &[Val], w: u32) -> R<Val> {
        if vs.iter().all(|x| x.c().is_some()) {
            let mut r = 0u128;
            for (i, x) in vs.iter().enumerate() {
                r |= x.c().unwrap() << (i as u32 * w);
            }
            return Ok(Val::C(r));
        }
        let mut t: T = 0;
        for x in vs.iter().rev() {
            let b = self.term(x, w);
            t = if t == 0 { b } else { self.tm.concat(t, b) };
        }
        Ok(self.val(t))
    }
    pub fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let so = self.obj(st, src >> 32)?;
        let soff = (src & 0xffff_ffff) as usize;
        if soff + n > so.bytes.len() {
            return Err(Self::oob(src, n, so.bytes.len()));
        }
        let doff = (dst & 0xffff_ffff) as usize;
        if src >> 32 == dst >> 32 {
            drop(so);
            let o = self.obj_mut(st, dst >> 32)?;
            if doff + n > o.bytes.len() {
                return Err(Self::oob(dst, n, o.bytes.len()));
            }
            o.bytes.copy_within(soff..soff + n, doff);
            if let Some(s) = &mut o.sym {
                s.copy_within(soff..soff + n, doff);
            }
            return Ok(());
        }
        let o = self.obj_mut(st, dst >> 32)?;
        if doff + n > o.bytes.len() {
            return Err(Self::oob(dst, n, o.bytes.len()));
        }
        o.bytes[doff..doff + n].copy_from_slice(&so.bytes[soff..soff + n]);
        if so.sym.is_some() && !so.concrete(soff, n) {
            let total = o.bytes.len();
            let ds = o.sym.get_or_insert_with(|| vec![0; total]);
            ds[doff..doff + n].copy_from_slice(&so.sym.as_ref().unwrap()[soff..soff + n]);
        } else {
            o.clear_sym(doff, n);
        }
        Ok(())
    }
    /// load through a symbolic address whose value depends on one byte: an ite over the byte's ranges
    fn load_sym_addr(&mut self, st: &mut State, t: T, ty: &Ty) -> R<Option<Val>> {
        if !ty.is_scalar() {
            return Ok(None);
        }
        let m = *self.tm.mask(t);
        if mask_count(&m) != 1 {
            return Ok(None);
        }
        let v = mask_first(&m).unwrap();
        let Some(tab) = self.tm.table(t) else { return Ok(None) };
        let dom = st.dom[v];
        let w = ty.bits();
        let mut vals: Vec<Option<u128>> = vec![None; 256];
        let n = ((w + 7) / 8) as usize;
        let mut obj: Option<(u64, Rc<Obj>)> = None;
        for i in 0..256 {
            if !mask_has(&dom, i) {
                continue;
            }
            let a = tab[i];
            if obj.as_ref().map(|o| o.0) != Some(a >> 32) {
                if obj.is_some() {
                    return Ok(None);
                }
                match self.obj(st, a >> 32) {
                    Ok(o) => obj = Some((a >> 32, o)),
                    Err(_) => return Ok(None),
                }
            }
            let o = &obj.as_ref().unwrap().1;
            let off = (a & 0xffff_ffff) as usize;
            if off + n > o.bytes.len() || !o.concrete(off, n) {
                return Ok(None);
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.bytes[off..off + n]);
            vals[i] = Some(u128::from_le_bytes(b) & ones(w));
        }
        // runs (don't-care entries join their neighbour)
        let mut runs: Vec<(usize, u128)> = vec![];
        for i in 0..256 {
            if let Some(x) = vals[i] {
                match runs.last() {
                    Some(&(_, y)) if y == x => {}
                    _ => runs.push((i, x)),
                }
            }
        }
        if runs.is_empty() {
            return Ok(None);
        }
        let var = self.tm.var(v);
        let r = self.tree(var, &runs, w);
        Ok(Some(self.val(r)))
    }
    fn tree(&mut self, var: T, runs: &[(usize, u128)], w: u32) -> T {
        if runs.len() == 1 {
            return self.tm.k(runs[0].1, w);
        }
        let mid = runs.len() / 2;
        let a = self.tree(var, &runs[..mid], w);
        let b = self.tree(var, &runs[mid..], w);
        let k = self.tm.k(runs[mid].0 as u128, 8);
        let c = self.tm.bin(Op::Ult, var, k);
        self.tm.ite(c, a, b)
    }

    // ------------------------------------------------------------ control
    #[inline]
    fn opd(st: &State, o: &Opd) -> Val {
        match o {
            Opd::R(r) => st.top.regs[*r as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }
    #[inline]
    fn set(st: &mut State, d: u32, v: Val) {
        st.top.regs[d as usize] = v;
    }
    fn addr(&mut self, st: &mut State, o: &Opd) -> R<u64> {
        match o {
            Opd::R(r) => match &st.top.regs[*r as usize] {
                Val::C(x) => Ok(*x as u64),
                v => {
                    let v = v.clone();
                    Ok(self.concretize(st, &v)? as u64)
                }
            },
            Opd::K(Val::C(x)) => Ok(*x as u64),
            Opd::K(_) => Err(Stop::Err("bad address operand".into())),
        }
    }
    fn jump(&mut self, st: &mut State, target: u32) -> R<()> {
        let f = st.top.f.clone();
        let from = st.top.bb;
        let b = &f.blocks[target as usize];
        if b.phis.len() == 1 {
            let (d, m) = &b.phis[0];
            let v = Self::opd(st, m.get(&from).ok_or_else(|| Stop::Err("phi edge".into()))?);
            Self::set(st, *d, v);
        } else if !b.phis.is_empty() {
            let mut vs = Vec::with_capacity(b.phis.len());
            for (_, m) in &b.phis {
                vs.push(Self::opd(st, m.get(&from).ok_or_else(|| Stop::Err("phi edge".into()))?));
            }
            for ((d, _), v) in b.phis.iter().zip(vs) {
                Self::set(st, *d, v);
            }
        }
        st.top.bb = target;
        st.top.ip = 0;
        Ok(())
    }
    pub fn push_frame(&mut self, st: &mut State, fid: u32, args: Vec<Val>, ret_d: Option<u32>, ret_bb: Option<u32>) -> R<()> {
        let f = match self.p.func(fid) {
            Some(f) => f,
            None => return Err(Stop::Err(format!("call to undefined function {}", self.p.funcs[fid as usize].name))),
        };
        self.fexec[fid as usize] += 1;
        let mut regs = args;
        regs.resize(f.nregs as usize, Val::C(0));
        let nf = Frame { f, regs, bb: 0, ip: 0, sp: st.sp, ret_d, ret_bb };
        let old = std::mem::replace(&mut st.top, nf);
        st.rest.push(Rc::new(old));
        if st.rest.len() > 4000 {
            return Err(Stop::Violation("stack-overflow".into(), "call depth over 4000".into()));
        }
        Ok(())
    }
    /// returns false when the last frame returned
    fn ret(&mut self, st: &mut State, v: Option<Val>) -> R<bool> {
        for i in st.top.sp..st.sp {
            st.stack.set(i as usize, None);
        }
        st.sp = st.top.sp;
        let Some(prev) = st.rest.pop() else { return Ok(false) };
        let prev = Rc::try_unwrap(prev).unwrap_or_else(|r| (*r).clone());
        let old = std::mem::replace(&mut st.top, prev);
        if let (Some(d), Some(v)) = (old.ret_d, v) {
            Self::set(st, d, v);
        }
        match old.ret_bb {
            Some(b) => self.jump(st, b)?,
            None => st.top.ip += 1,
        }
        Ok(true)
    }

    pub fn start(&mut self, entry: &str) -> R<()> {
        let fid = *self.p.fnames.get(entry).ok_or_else(|| Stop::Err(format!("no entry {}", entry)))?;
        let f = self.p.func(fid).ok_or_else(|| Stop::Err("entry has no body".into()))?;
        self.fexec[fid as usize] += 1;
        let st = State {
            top: Frame { regs: vec![Val::C(0); f.nregs as usize], f, bb: 0, ip: 0, sp: 0, ret_d: None, ret_bb: None },
            rest: vec![],
            stack: Default::default(),
            heap: Default::default(),
            glob: Default::default(),
            sp: 0,
            next_heap: 0,
            cons: Rc::new(vec![]),
            dom: Rc::new(vec![]),
            multi: [0; 4],
            model: Rc::new(vec![]),
            inputs: Rc::new(vec![]),
            outs: Rc::new(vec![]),
            icount: 0,
            picks: 0,
            errno: 0,
            fds: Rc::new(vec![]),
            depth: 0,
            expect_panic: false,
            race: None,
        };
        self.work.push(st);
        Ok(())
    }

    pub fn run(&mut self) {
        let mut k = 0u64;
        while let Some(mut st) = self.work.pop() {
            k += 1;
            let _ = k;
            let stop = match self.run_path(&mut st) {
                Ok(()) => Stop::End,
                Err(s) => s,
            };
            if st.depth > self.st.max_depth {
                self.st.max_depth = st.depth;
            }
            if st.icount > self.st.max_path_instrs {
                self.st.max_path_instrs = st.icount;
            }
            match stop {
                Stop::End => {
                    self.st.paths += 1;
                    self.sample(&st);
                }
                Stop::Infeasible => self.st.infeasible += 1,
                Stop::Violation(id, detail) => {
                    self.st.paths += 1;
                    let v = Violation { id, detail, inputs: self.inputs(&st), stack: self.backtrace(&st) };
                    self.violations.push(v);
                    if self.violations.len() >= self.cfg.max_violations {
                        return;
                    }
                }
                Stop::Err(e) => {
                    let bt = self.backtrace(&st);
                    let inp = self.inputs(&st);
                    self.errors.push(format!("{} | inputs {:?} | at {}", e, inp, bt.join(" < ")));
                    return;
                }
            }
            if self.t0.elapsed().as_secs_f64() > self.cfg.max_secs || self.st.paths > self.cfg.max_paths {
                if !self.work.is_empty() {
                    self.errors.push(format!("exploration budget exhausted after {} paths, {} states pending", self.st.paths, self.work.len()));
                    return;
                }
            }
        }
    }
    fn sample(&mut self, st: &State) {
        let n = self.st.paths;
        // keep early ones and then a deterministic pseudo-random selection
        let keep = self.samples.len() < self.cfg.samples / 2;
        let h = (n.wrapping_add(self.cfg.seed)).wrapping_mul(0x9E3779B97F4A7C15) >> 40;
        let slot = if keep {
            None
        } else if self.cfg.samples > 0 && self.samples.len() < self.cfg.samples {
            None
        } else if self.cfg.samples > 0 && h % (n.max(1)) < self.cfg.samples as u64 {
            Some((h as usize) % self.cfg.samples)
        } else {
            return;
        };
        if self.cfg.samples == 0 {
            return;
        }
        let inputs = self.inputs(st);
        let mut outs = vec![];
        for o in st.outs.iter() {
            let mut b = vec![];
            for &(x, t) in &o.data {
                b.push(if t == 0 { x } else { self.eval(st, t) as u8 });
            }
            outs.push((o.tag, b));
        }
        let s = Sample { inputs, outs, end: "end".into() };
        match slot {
            None => self.samples.push(s),
            Some(i) => self.samples[i] = s,
        }
    }
    pub fn inputs(&mut self, st: &State) -> Vec<(String, Vec<u8>)> {
        st.inputs
            .iter()
            .map(|i| match i {
                Input::Sym(s, n) => ("sym".to_string(), st.model[*s..*s + *n].to_vec()),
                Input::Pick(v, k) => (format!("pick/{}", k), vec![if *v == usize::MAX { 0 } else { st.model[*v] }]),
            })
            .collect()
    }
    pub fn backtrace(&self, st: &State) -> Vec<String> {
        let mut v = vec![format!("{} bb{} ip{}", self.fname(st.top.f.fid), st.top.bb, st.top.ip)];
        for f in st.rest.iter().rev() {
            v.push(self.fname(f.f.fid));
        }
        v
    }

    fn run_path(&mut self, st: &mut State) -> R<()> {
        let start = st.icount;
        let mut tick = 0u32;
        loop {
            let f = st.top.f.clone();
            let i0 = st.icount;
            loop {
                let ins = &f.blocks[st.top.bb as usize].ins[st.top.ip as usize];
                st.icount += 1;
                tick += 1;
                if tick >= 1 << 16 {
                    tick = 0;
                    if st.icount > self.cfg.max_path_instrs {
                        self.st.instrs += st.icount - start;
                        if st.interrupting() {
                            return Err(Stop::Infeasible);
                        }
                        return Err(Stop::Violation("no-termination".into(), format!("path exceeded {} instructions", self.cfg.max_path_instrs)));
                    }
                    if self.t0.elapsed().as_secs_f64() > self.cfg.max_secs * 1.2 + 5.0 {
                        return Err(Stop::Err("exploration time budget exhausted inside a path".into()));
                    }
                }
                match self.exec(st, ins) {
                    Ok(Flow::Next) => st.top.ip += 1,
                    Ok(Flow::Jump) => {}
                    Ok(Flow::Frame) => break,
                    Err(Stop::End) => {
                        self.st.instrs += st.icount - start;
                        return Ok(());
                    }
                    Err(e) => {
                        self.st.instrs += st.icount - start;
                        return Err(e);
                    }
                }
            }
            if self.cfg.verbose {
                *self.prof.entry(f.fid).or_insert(0) += st.icount - i0;
            }
        }
    }

    fn exec(&mut self, st: &mut State, ins: &Ins) -> R<Flow> {
        match ins {
            Ins::Bin { op, w, lanes, d, a, b } => {
                let (x, y) = (Self::opd(st, a), Self::opd(st, b));
                let r = if *lanes == 0 {
                    if let (Op::UDiv | Op::URem | Op::SDiv | Op::SRem, Val::S(_)) = (op, &y) {
                        let k = self.concretize(st, &y)?;
                        self.bin(*op, *w, &x, &Val::C(k))?
                    } else {
                        self.bin(*op, *w, &x, &y)?
                    }
                } else {
                    self.lanes2(&x, &y, |e, p, q| e.bin(*op, *w, p, q))?
                };
                Self::set(st, *d, r);
            }
            Ins::Cmp { p, w, lanes, d, a, b } => {
                let (x, y) = (Self::opd(st, a), Self::opd(st, b));
                let r = if *lanes == 0 { self.cmp(*p, *w, &x, &y) } else { self.lanes2(&x, &y, |e, u, v| Ok(e.cmp(*p, *w, u, v)))? };
                Self::set(st, *d, r);
            }
            Ins::Cast { k, fw, tw, lanes, d, a } => {
                let x = Self::opd(st, a);
                let r = if *lanes == 0 {
                    self.cast(*k, *fw, *tw, &x)
                } else {
                    let Val::A(v) = &x else { return Err(Stop::Err("cast lanes".into())) };
                    Val::A(Rc::new(v.iter().map(|e| self.cast(*k, *fw, *tw, e)).collect()))
                };
                Self::set(st, *d, r);
            }
            Ins::BitcastV { from, to, d, a } => {
                let x = Self::opd(st, a);
                let flat = match (&**from, &x) {
                    (Ty::Vector(e, _), Val::A(v)) => self.join(v, e.bits())?,
                    _ => x,
                };
                let r = match &**to {
                    Ty::Vector(e, n) => self.split(&flat, e.bits(), *n)?,
                    _ => flat,
                };
                Self::set(st, *d, r);
            }
            Ins::Mov { d, a } => {
                let x = Self::opd(st, a);
                Self::set(st, *d, x);
            }
            Ins::Load { ty, d, p } => {
                let a = Self::opd(st, p);
                let r = match &a {
                    Val::C(x) => self.load(st, *x as u64, ty)?,
                    Val::S(t) => match self.load_sym_addr(st, *t, ty)? {
                        Some(v) => v,
                        None => {
                            let x = self.concretize(st, &a)?;
                            self.load(st, x as u64, ty)?
                        }
                    },
                    _ => return Err(Stop::Err("load address".into())),
                };
                Self::set(st, *d, r);
            }
            Ins::Store { ty, v, p } => {
                let a = self.addr(st, p)?;
                match v {
                    Opd::R(r) => {
                        let x = st.top.regs[*r as usize].clone();
                        self.store(st, a, ty, &x)?
                    }
                    Opd::K(x) => self.store(st, a, ty, x)?,
                }
            }
            Ins::Alloca { d, size, n } => {
                let mut sz = *size;
                if let Some(n) = n {
                    let v = Self::opd(st, n);
                    sz *= self.concretize(st, &v)? as u64;
                }
                let id = st.sp;
                st.sp += 1;
                st.stack.set(id as usize, Some(Rc::new(Obj::new(sz as usize))));
                Self::set(st, *d, Val::C((((STACK_BASE + id as u64) << 32)) as u128));
            }
            Ins::Gep { d, base, off, idx } => {
                let b = Self::opd(st, base);
                let mut acc = match &b {
                    Val::C(x) => Val::C(((*x as u64).wrapping_add(*off)) as u128),
                    v => {
                        if *off == 0 {
                            v.clone()
                        } else {
                            self.bin(Op::Add, 64, v, &Val::C(*off as u128))?
                        }
                    }
                };
                for (o, w, scale) in idx {
                    let i = Self::opd(st, o);
                    match (&i, &acc) {
                        (Val::C(x), Val::C(a)) => {
                            let ix = sext(*x, *w) as i64 as u64;
                            acc = Val::C(((*a as u64).wrapping_add(ix.wrapping_mul(*scale))) as u128);
                        }
                        _ => {
                            let i64v = if *w < 64 { self.cast(CastK::SExt, *w, 64, &i) } else { i.clone() };
                            let m = self.bin(Op::Mul, 64, &i64v, &Val::C(*scale as u128))?;
                            acc = self.bin(Op::Add, 64, &acc, &m)?;
                        }
                    }
                }
                Self::set(st, *d, acc);
            }
            Ins::Select { d, c, a, b, w, lanes } => {
                let cv = Self::opd(st, c);
                let r = if *lanes > 0 {
                    let (Val::A(cs), Val::A(x), Val::A(y)) = (&cv, &Self::opd(st, a), &Self::opd(st, b)) else { return Err(Stop::Err("select lanes".into())) };
                    let mut out = vec![];
                    for i in 0..cs.len() {
                        out.push(self.sel(&cs[i], &x[i], &y[i], *w));
                    }
                    Val::A(Rc::new(out))
                } else {
                    match &cv {
                        Val::C(1) => Self::opd(st, a),
                        Val::C(_) => Self::opd(st, b),
                        Val::S(_) if *w > 0 => {
                            let (x, y) = (Self::opd(st, a), Self::opd(st, b));
                            self.sel(&cv, &x, &y, *w)
                        }
                        _ => {
                            let k = self.concretize(st, &cv)?;
                            Self::opd(st, if k == 1 { a } else { b })
                        }
                    }
                };
                Self::set(st, *d, r);
            }
            Ins::Call { d, callee, args, argw, ret, normal } => {
                let fid = match callee {
                    Callee::F(f) => *f,
                    Callee::Ind(o) => {
                        let a = self.addr(st, o)?;
                        if a & 0xffff_ffff != 0 || a >> 32 >= self.gbase || a >> 32 == 0 {
                            return Err(Stop::Err(format!("memory error: call through bad pointer {:#x}", a)));
                        }
                        (a >> 32) as u32
                    }
                };
                let av: Vec<Val> = args.iter().map(|o| Self::opd(st, o)).collect();
                if let Some(h) = self.hs[fid as usize] {
                    let r = h(self, st, &av, argw, ret)?;
                    let pass = matches!(r, HR::Pass);
                    if !pass {
                        self.fexec[fid as usize] += 1;
                    }
                    if let (HR::Ret(v), Some(d)) = (r, d) {
                        Self::set(st, *d, v);
                    }
                    if !pass {
                        match normal {
                            Some(b) => {
                                self.jump(st, *b)?;
                                return Ok(Flow::Jump);
                            }
                            None => return Ok(Flow::Next),
                        }
                    }
                }
                self.push_frame(st, fid, av, *d, *normal)?;
                return Ok(Flow::Frame);
            }
            Ins::ExtractV { d, a, idx } => {
                let mut x = Self::opd(st, a);
                for i in idx {
                    let Val::A(v) = &x else { return Err(Stop::Err("extractvalue".into())) };
                    x = v[*i as usize].clone();
                }
                Self::set(st, *d, x);
            }
            Ins::InsertV { d, a, v, idx } => {
                let x = Self::opd(st, a);
                let y = Self::opd(st, v);
                fn ins(x: &Val, y: Val, idx: &[u32]) -> Val {
                    if idx.is_empty() {
                        return y;
                    }
                    let Val::A(v) = x else { panic!("insertvalue") };
                    let mut v = (**v).clone();
                    v[idx[0] as usize] = ins(&v[idx[0] as usize], y, &idx[1..]);
                    Val::A(Rc::new(v))
                }
                let r = ins(&x, y, idx);
                Self::set(st, *d, r);
            }
            Ins::ExtractE { d, a, i } => {
                let iv = Self::opd(st, i);
                let k = self.concretize(st, &iv)? as usize;
                let Val::A(v) = Self::opd(st, a) else { return Err(Stop::Err("extractelement".into())) };
                let r = v[k].clone();
                Self::set(st, *d, r);
            }
            Ins::InsertE { d, a, v, i } => {
                let iv = Self::opd(st, i);
                let k = self.concretize(st, &iv)? as usize;
                let Val::A(x) = Self::opd(st, a) else { return Err(Stop::Err("insertelement".into())) };
                let mut x = (*x).clone();
                x[k] = Self::opd(st, v);
                Self::set(st, *d, Val::A(Rc::new(x)));
            }
            Ins::Shuffle { d, a, b, mask, n } => {
                let (Val::A(x), Val::A(y)) = (Self::opd(st, a), Self::opd(st, b)) else { return Err(Stop::Err("shuffle".into())) };
                let mut out = vec![];
                for &m in mask {
                    out.push(if m < 0 {
                        Val::C(0)
                    } else if (m as u32) < *n {
                        x[m as usize].clone()
                    } else {
                        y[(m as u32 - n) as usize].clone()
                    });
                }
                Self::set(st, *d, Val::A(Rc::new(out)));
            }
            Ins::Rmw { d, op, w, p, v } => {
                let a = self.addr(st, p)?;
                let old = self.load_int(st, a, *w)?;
                let x = Self::opd(st, v);
                let new = match op {
                    RmwOp::Xchg => x,
                    RmwOp::Add => self.bin(Op::Add, *w, &old, &x)?,
                    RmwOp::Sub => self.bin(Op::Sub, *w, &old, &x)?,
                    RmwOp::And => self.bin(Op::And, *w, &old, &x)?,
                    RmwOp::Or => self.bin(Op::Or, *w, &old, &x)?,
                    RmwOp::Xor => self.bin(Op::Xor, *w, &old, &x)?,
                    RmwOp::Nand => {
                        let t = self.bin(Op::And, *w, &old, &x)?;
                        self.bin(Op::Xor, *w, &t, &Val::C(ones(*w)))?
                    }
                    RmwOp::UMax | RmwOp::UMin | RmwOp::Max | RmwOp::Min => {
                        let (p, l) = match op {
                            RmwOp::UMax => (Pred::Ugt, ()),
                            RmwOp::UMin => (Pred::Ult, ()),
                            RmwOp::Max => (Pred::Sgt, ()),
                            _ => (Pred::Slt, ()),
                        };
                        let _ = l;
                        let c = self.cmp(p, *w, &old, &x);
                        self.sel(&c, &old, &x, *w)
                    }
                };
                self.store_int(st, a, *w, &new)?;
                Self::set(st, *d, old);
            }
            Ins::CmpXchg { d, w, p, e, v } => {
                let a = self.addr(st, p)?;
                let old = self.load_int(st, a, *w)?;
                let ev = Self::opd(st, e);
                let c = self.cmp(Pred::Eq, *w, &old, &ev);
                let k = self.concretize(st, &c)?;
                if k == 1 {
                    let x = Self::opd(st, v);
                    self.store_int(st, a, *w, &x)?;
                }
                Self::set(st, *d, Val::A(Rc::new(vec![old, Val::C(k)])));
            }
            Ins::Nop => {}
            Ins::Point => {
                if let Some(r) = &mut st.race {
                    if r.running.is_none() {
                        if r.seen == r.at {
                            if r.at == r.max {
                                return Err(Stop::Err(format!("more than {} atomic accesses", r.max)));
                            }
                            r.running = Some(st.rest.len());
                            let (f, arg) = (r.f, r.arg.clone());
                            self.push_frame(st, f, vec![arg], None, None)?;
                            return Ok(Flow::Frame);
                        }
                        r.seen += 1;
                    }
                }
            }
            Ins::Br(t) => {
                self.jump(st, *t)?;
                return Ok(Flow::Jump);
            }
            Ins::CBr { c, t, f } => {
                let cv = Self::opd(st, c);
                let side = match &cv {
                    Val::C(x) => *x == 1,
                    Val::S(x) => {
                        self.fsym.insert(st.top.f.fid);
                        let (side, alt) = self.fork(st, *x)?;
                        if let Some(mut a) = alt {
                            self.jump(&mut a, if side { *f } else { *t })?;
                            self.work.push(a);
                        }
                        side
                    }
                    _ => return Err(Stop::Err("br".into())),
                };
                self.jump(st, if side { *t } else { *f })?;
                return Ok(Flow::Jump);
            }
            Ins::Switch { v, w, cases, def } => {
                let x = Self::opd(st, v);
                match &x {
                    Val::C(k) => {
                        let mut tgt = *def;
                        for (c, b) in cases.iter() {
                            if c == k {
                                tgt = *b;
                                break;
                            }
                        }
                        self.jump(st, tgt)?;
                    }
                    Val::S(t) => {
                        self.fsym.insert(st.top.f.fid);
                        // one condition per distinct target
                        let cur = self.eval(st, *t);
                        let mut tgt = *def;
                        for (c, b) in cases.iter() {
                            if *c == cur {
                                tgt = *b;
                                break;
                            }
                        }
                        let mut conds: Vec<(u32, T)> = vec![];
                        let mut any = self.tm.k(0, 1);
                        for (c, b) in cases.iter() {
                            let k = self.tm.k(*c, *w);
                            let e = self.tm.eq(*t, k);
                            any = self.tm.or(any, e);
                            match conds.iter_mut().find(|x| x.0 == *b) {
                                Some(p) => p.1 = self.tm.or(p.1, e),
                                None => conds.push((*b, e)),
                            }
                        }
                        let n = self.tm.not(any);
                        match conds.iter_mut().find(|x| x.0 == *def) {
                            Some(p) => p.1 = self.tm.or(p.1, n),
                            None => conds.push((*def, n)),
                        }
                        let mut mine = 0;
                        for (b, c) in conds {
                            if b == tgt {
                                mine = c;
                                continue;
                            }
                            if let Some(md) = self.feasible(st, c, false)? {
                                self.st.forks += 1;
                                let mut a = st.clone();
                                a.depth += 1;
                                a.model = md;
                                self.add_cons(&mut a, c);
                                self.jump(&mut a, b)?;
                                self.work.push(a);
                            }
                        }
                        self.add_cons(st, mine);
                        self.jump(st, tgt)?;
                    }
                    _ => return Err(Stop::Err("switch".into())),
                }
                return Ok(Flow::Jump);
            }
            Ins::Ret(v) => {
                let x = v.as_ref().map(|o| Self::opd(st, o));
                if self.ret(st, x)? {
                    return Ok(Flow::Frame);
                }
                return Err(Stop::End);
            }
            Ins::Unreachable => return Err(Stop::Err("reached unreachable".into())),
            Ins::Unsup(s) => return Err(Stop::Err(format!("unsupported instruction: {}", s))),
        }
        Ok(Flow::Next)
    }
    pub fn sel(&mut self, c: &Val, a: &Val, b: &Val, w: u32) -> Val {
        match c {
            Val::C(1) => a.clone(),
            Val::C(_) => b.clone(),
            Val::S(t) => {
                let (x, y) = (self.term(a, w), self.term(b, w));
                let r = self.tm.ite(*t, x, y);
                self.val(r)
            }
            _ => panic!("sel"),
        }
    }
    fn lanes2<F: FnMut(&mut Engine, &Val, &Val) -> R<Val>>(&mut self, a: &Val, b: &Val, mut f: F) -> R<Val> {
        let (Val::A(x), Val::A(y)) = (a, b) else { return Err(Stop::Err("lanes".into())) };
        let mut out = Vec::with_capacity(x.len());
        for i in 0..x.len() {
            out.push(f(self, &x[i], &y[i])?);
        }
        Ok(Val::A(Rc::new(out)))
    }
}
