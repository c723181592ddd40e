//! z3 through its C API (libz3). One solver, push/assert/check/pop per query.
use crate::term::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_get_error_msg(c: P, e: c_uint) -> *const c_char;
}

extern "C" fn on_err(c: P, e: c_uint) {
    unsafe {
        eprintln!("z3 error: {:?}", CStr::from_ptr(Z3_get_error_msg(c, e)));
    }
    std::process::exit(3);
}

pub enum Res {
    Sat(Vec<(usize, u8)>),
    Unsat,
    Unknown,
}

pub struct Smt {
    c: P,
    s: P,
    ast: Vec<P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub secs: f64,
    pub max_secs: f64,
    since_reset: u32,
    timeout_ms: u32,
}

impl Smt {
    pub fn version() -> String {
        unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
    }
    pub fn new(timeout_ms: u32) -> Smt {
        unsafe {
            let cfg = Z3_mk_config();
            let (a, b) = (CString::new("model").unwrap(), CString::new("true").unwrap());
            Z3_set_param_value(cfg, a.as_ptr(), b.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let mut r = Smt {
                c,
                s: std::ptr::null_mut(),
                ast: vec![],
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                secs: 0.0,
                max_secs: 0.0,
                since_reset: 0,
                timeout_ms,
            };
            r.mk_solver();
            r
        }
    }
    fn mk_solver(&mut self) {
        unsafe {
            let c = self.c;
            let l = CString::new("QF_BV").unwrap();
            let _ = Z3_mk_simple_solver as usize;
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), self.timeout_ms);
            let t = CString::new("random_seed").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), 1);
            Z3_solver_set_params(c, s, p);
            self.s = s;
            // forces the incremental core
            Z3_solver_push(c, s);
            self.since_reset = 0;
        }
    }
    unsafe fn bv1(&self, b: P) -> P {
        let s = Z3_mk_bv_sort(self.c, 1);
        Z3_mk_ite(self.c, b, Z3_mk_unsigned_int64(self.c, 1, s), Z3_mk_unsigned_int64(self.c, 0, s))
    }
    /// translate; width-1 terms become Bool
    fn tr(&mut self, tm: &Terms, t: T) -> P {
        if self.ast.len() <= t as usize {
            self.ast.resize(tm.nodes.len().max(t as usize + 1), std::ptr::null_mut());
        }
        let p = self.ast[t as usize];
        if !p.is_null() {
            return p;
        }
        let n = *tm.n(t);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.w == 1 {
                        if n.k == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else if n.k <= u64::MAX as u128 {
                        Z3_mk_unsigned_int64(c, n.k as u64, Z3_mk_bv_sort(c, n.w))
                    } else {
                        let s = CString::new(n.k.to_string()).unwrap();
                        Z3_mk_numeral(c, s.as_ptr(), Z3_mk_bv_sort(c, n.w))
                    }
                }
                Op::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), Z3_mk_bv_sort(c, 8)),
                Op::ZExt | Op::SExt => {
                    let w = tm.w(n.a);
                    let mut a = self.tr(tm, n.a);
                    if w == 1 {
                        a = self.bv1(a);
                    }
                    if n.op == Op::ZExt {
                        Z3_mk_zero_ext(c, n.w - w, a)
                    } else {
                        Z3_mk_sign_ext(c, n.w - w, a)
                    }
                }
                Op::Extract => {
                    let a = self.tr(tm, n.a);
                    let e = Z3_mk_extract(c, n.k as u32 + n.w - 1, n.k as u32, a);
                    if n.w == 1 {
                        Z3_mk_eq(c, e, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)))
                    } else {
                        e
                    }
                }
                Op::Concat => {
                    let (wa, wb) = (tm.w(n.a), tm.w(n.b));
                    let mut a = self.tr(tm, n.a);
                    let mut b = self.tr(tm, n.b);
                    if wa == 1 {
                        a = self.bv1(a);
                    }
                    if wb == 1 {
                        b = self.bv1(b);
                    }
                    Z3_mk_concat(c, a, b)
                }
                Op::Ite => {
                    let x = self.tr(tm, n.a);
                    let a = self.tr(tm, n.b);
                    let b = self.tr(tm, n.c);
                    Z3_mk_ite(c, x, a, b)
                }
                op => {
                    let w = tm.w(n.a);
                    let a = self.tr(tm, n.a);
                    let b = self.tr(tm, n.b);
                    if w == 1 {
                        match op {
                            Op::And => Z3_mk_and(c, 2, [a, b].as_ptr()),
                            Op::Or => Z3_mk_or(c, 2, [a, b].as_ptr()),
                            Op::Xor => {
                                if tm.cst(n.b) == Some(1) {
                                    Z3_mk_not(c, a)
                                } else {
                                    Z3_mk_xor(c, a, b)
                                }
                            }
                            Op::Eq => Z3_mk_eq(c, a, b),
                            Op::Add | Op::Sub => Z3_mk_xor(c, a, b),
                            Op::Mul => Z3_mk_and(c, 2, [a, b].as_ptr()),
                            _ => {
                                let (x, y) = (self.bv1(a), self.bv1(b));
                                let e = self.bvop(op, x, y);
                                Z3_mk_eq(c, e, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)))
                            }
                        }
                    } else {
                        self.bvop(op, a, b)
                    }
                }
            }
        };
        self.ast[t as usize] = r;
        r
    }
    unsafe fn bvop(&self, op: Op, a: P, b: P) -> P {
        let c = self.c;
        match op {
            Op::Add => Z3_mk_bvadd(c, a, b),
            Op::Sub => Z3_mk_bvsub(c, a, b),
            Op::Mul => Z3_mk_bvmul(c, a, b),
            Op::UDiv => Z3_mk_bvudiv(c, a, b),
            Op::SDiv => Z3_mk_bvsdiv(c, a, b),
            Op::URem => Z3_mk_bvurem(c, a, b),
            Op::SRem => Z3_mk_bvsrem(c, a, b),
            Op::Shl => Z3_mk_bvshl(c, a, b),
            Op::LShr => Z3_mk_bvlshr(c, a, b),
            Op::AShr => Z3_mk_bvashr(c, a, b),
            Op::And => Z3_mk_bvand(c, a, b),
            Op::Or => Z3_mk_bvor(c, a, b),
            Op::Xor => Z3_mk_bvxor(c, a, b),
            Op::Eq => Z3_mk_eq(c, a, b),
            Op::Ult => Z3_mk_bvult(c, a, b),
            Op::Slt => Z3_mk_bvslt(c, a, b),
            _ => unreachable!(),
        }
    }
    pub fn check(&mut self, tm: &mut Terms, cs: &[T]) -> Res {
        let t0 = Instant::now();
        self.queries += 1;
        self.since_reset += 1;
        let mut m = [0u64; 4];
        for &t in cs {
            m = mask_or(&m, tm.mask(t));
        }
        let c = self.c;
        let r = unsafe {
            Z3_solver_push(c, self.s);
            for &t in cs {
                let a = self.tr(tm, t);
                Z3_solver_assert(c, self.s, a);
            }
            let r = match Z3_solver_check(c, self.s) {
                1 => {
                    let md = Z3_solver_get_model(c, self.s);
                    Z3_model_inc_ref(c, md);
                    let mut out = vec![];
                    for i in 0..256 {
                        if mask_has(&m, i) {
                            let v = tm.var(i);
                            let a = self.tr(tm, v);
                            let mut e: P = std::ptr::null_mut();
                            let mut u = 0u64;
                            if Z3_model_eval(c, md, a, true, &mut e) && Z3_get_numeral_uint64(c, e, &mut u) {
                                out.push((i, u as u8));
                            } else {
                                panic!("z3 model");
                            }
                        }
                    }
                    Z3_model_dec_ref(c, md);
                    self.sat += 1;
                    Res::Sat(out)
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            };
            Z3_solver_pop(c, self.s, 1);
            r
        };
        let dt = t0.elapsed().as_secs_f64();
        self.secs += dt;
        if dt > self.max_secs {
            self.max_secs = dt;
        }
        r
    }
}
