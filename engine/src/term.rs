//! Hash-consed bit-vector terms over symbolic input bytes, with a rewriting simplifier.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type T = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Fx {
    #[inline]
    fn add(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
}
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.add(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.add(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.add(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.add(i)
    }
    fn write_usize(&mut self, i: usize) {
        self.add(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.add(i as u64);
        self.add((i >> 64) as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Slt,
    ZExt,
    SExt,
    Extract,
    Concat,
    Ite,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: T,
    pub b: T,
    pub c: T,
    pub k: u128,
}

pub type Mask = [u64; 4];

pub fn mask_or(a: &Mask, b: &Mask) -> Mask {
    [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}
pub fn mask_and(a: &Mask, b: &Mask) -> Mask {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn mask_andnot(a: &Mask, b: &Mask) -> Mask {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
pub fn mask_any(a: &Mask) -> bool {
    (a[0] | a[1] | a[2] | a[3]) != 0
}
pub fn mask_count(a: &Mask) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
pub fn mask_has(a: &Mask, i: usize) -> bool {
    a[i >> 6] >> (i & 63) & 1 == 1
}
pub fn mask_set(a: &mut Mask, i: usize) {
    a[i >> 6] |= 1 << (i & 63)
}
pub fn mask_first(a: &Mask) -> Option<usize> {
    for i in 0..4 {
        if a[i] != 0 {
            return Some(i * 64 + a[i].trailing_zeros() as usize);
        }
    }
    None
}

#[inline]
pub fn ones(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    // w: operand width
    let m = ones(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((sext(a, w) >> s) as u128) & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        _ => unreachable!(),
    }
}

pub struct Terms {
    pub nodes: Vec<Node>,
    map: FxMap<Node, T>,
    pub masks: Vec<Mask>,
    gen: u32,
    cache: Vec<(u32, u128)>,
    tabs: FxMap<T, Option<Rc<Vec<u64>>>>,
}

impl Terms {
    pub fn new() -> Terms {
        let mut t = Terms {
            nodes: vec![],
            map: Default::default(),
            masks: vec![],
            gen: 1,
            cache: vec![],
            tabs: Default::default(),
        };
        // id 0 reserved: "no term"
        t.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        t.masks.push([0; 4]);
        t.cache.push((0, 0));
        t
    }
    #[inline]
    pub fn n(&self, t: T) -> &Node {
        &self.nodes[t as usize]
    }
    #[inline]
    pub fn w(&self, t: T) -> u32 {
        self.nodes[t as usize].w
    }
    #[inline]
    pub fn cst(&self, t: T) -> Option<u128> {
        let n = &self.nodes[t as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn mask(&self, t: T) -> &Mask {
        &self.masks[t as usize]
    }
    fn intern(&mut self, n: Node) -> T {
        if let Some(&t) = self.map.get(&n) {
            return t;
        }
        let id = self.nodes.len() as T;
        let mut m = [0u64; 4];
        if n.op == Op::Var {
            mask_set(&mut m, n.k as usize);
        } else if n.op != Op::Const {
            for x in [n.a, n.b, n.c] {
                if x != 0 {
                    m = mask_or(&m, &self.masks[x as usize]);
                }
            }
        }
        self.nodes.push(n);
        self.masks.push(m);
        self.cache.push((0, 0));
        self.map.insert(n, id);
        id
    }
    pub fn k(&mut self, v: u128, w: u32) -> T {
        self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & ones(w) })
    }
    pub fn var(&mut self, i: usize) -> T {
        assert!(i < 256, "too many symbolic bytes");
        self.intern(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: i as u128 })
    }
    fn raw(&mut self, op: Op, w: u32, a: T, b: T) -> T {
        self.intern(Node { op, w, a, b, c: 0, k: 0 })
    }
    pub fn is_not(&self, t: T) -> Option<T> {
        let n = self.n(t);
        if n.op == Op::Xor && n.w == 1 && self.cst(n.b) == Some(1) {
            Some(n.a)
        } else {
            None
        }
    }
    pub fn not(&mut self, t: T) -> T {
        let w = self.w(t);
        let m = self.k(ones(w), w);
        self.bin(Op::Xor, t, m)
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        self.bin(Op::Or, a, b)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        self.bin(Op::Eq, a, b)
    }
    /// Ite whose arms are both constants
    fn ite_kk(&self, t: T) -> Option<(T, u128, u128)> {
        let n = self.n(t);
        if n.op == Op::Ite {
            if let (Some(x), Some(y)) = (self.cst(n.b), self.cst(n.c)) {
                return Some((n.a, x, y));
            }
        }
        None
    }
    fn segments(&self, t: T, out: &mut Vec<(T, u32, u32)>) {
        // (term, 0, width): from low to high; term 0 means zero bits
        let n = *self.n(t);
        match n.op {
            Op::Concat => {
                self.segments(n.b, out);
                self.segments(n.a, out);
            }
            Op::ZExt => {
                self.segments(n.a, out);
                let aw = self.w(n.a);
                out.push((0, 0, n.w - aw));
            }
            _ => out.push((t, 0, n.w)),
        }
    }
    fn piecewise(&mut self, op: Op, a: T, b: T) -> Option<T> {
        let (na, nb) = (self.n(a).op, self.n(b).op);
        let st = |o: Op| o == Op::Concat || o == Op::ZExt;
        if !(st(na) || st(nb)) {
            return None;
        }
        if na == Op::Const || (nb != Op::Const && !(st(na) && st(nb))) {
            return None;
        }
        let w = self.w(a);
        let (mut sa, mut sb) = (vec![], vec![]);
        self.segments(a, &mut sa);
        self.segments(b, &mut sb);
        let mut cuts = vec![0u32];
        for s in [&sa, &sb] {
            let mut p = 0;
            for x in s.iter() {
                p += x.2;
                cuts.push(p);
            }
        }
        cuts.sort();
        cuts.dedup();
        debug_assert!(*cuts.last().unwrap() == w);
        let mut pieces = vec![];
        for i in 0..cuts.len() - 1 {
            let (lo, n) = (cuts[i], cuts[i + 1] - cuts[i]);
            let x = self.extract(a, lo, n);
            let y = self.extract(b, lo, n);
            if self.cst(x).is_none() && self.cst(y).is_none() && x != y {
                return None;
            }
            pieces.push((x, y));
        }
        let mut r: Option<T> = None;
        for (x, y) in pieces {
            let p = self.bin(op, x, y);
            r = Some(match r {
                None => p,
                Some(l) => self.concat(p, l),
            });
        }
        r
    }
    pub fn bin(&mut self, op: Op, mut a: T, mut b: T) -> T {
        let w = self.w(a);
        debug_assert!(w == self.w(b), "width mismatch {:?} {:?} {:?}", op, self.n(a), self.n(b));
        let rw = match op {
            Op::Eq | Op::Ult | Op::Slt => 1,
            _ => w,
        };
        let (ca, cb) = (self.cst(a), self.cst(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = fold(op, w, x, y);
            return self.k(v, rw);
        }
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let (ca, cb) = (self.cst(a), self.cst(b));
        // push constants into constant-armed ite
        if let (Some((c, x, y)), Some(k)) = (self.ite_kk(a), cb) {
            let (p, q) = (fold(op, w, x, k), fold(op, w, y, k));
            let (p, q) = (self.k(p, rw), self.k(q, rw));
            return self.ite(c, p, q);
        }
        if let (Some(k), Some((c, x, y))) = (ca, self.ite_kk(b)) {
            let (p, q) = (fold(op, w, k, x), fold(op, w, k, y));
            let (p, q) = (self.k(p, rw), self.k(q, rw));
            return self.ite(c, p, q);
        }
        if w > 1 {
            if let (Some((c1, x1, y1)), Some((c2, x2, y2))) = (self.ite_kk(a), self.ite_kk(b)) {
                if c1 == c2 {
                    let (p, q) = (fold(op, w, x1, x2), fold(op, w, y1, y2));
                    let (p, q) = (self.k(p, rw), self.k(q, rw));
                    return self.ite(c1, p, q);
                }
                if (x1, y1, x2, y2) == (1, 0, 1, 0) && matches!(op, Op::And | Op::Or | Op::Xor | Op::Eq) {
                    let c = self.bin(op, c1, c2);
                    if op == Op::Eq {
                        return c;
                    }
                    let (p, q) = (self.k(1, w), self.k(0, w));
                    return self.ite(c, p, q);
                }
            }
        }
        let na = *self.n(a);
        let nb = *self.n(b);
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let (Op::Add, Some(k2)) = (na.op, cb) {
                    if let Some(k1) = self.cst(na.b) {
                        let k = self.k(k1.wrapping_add(k2), w);
                        return self.bin(Op::Add, na.a, k);
                    }
                }
                if let Some(r) = self.piecewise_add(a, b) {
                    return r;
                }
            }
            Op::Sub => {
                if a == b {
                    return self.k(0, w);
                }
                if let Some(k) = cb {
                    let k = self.k(0u128.wrapping_sub(k), w);
                    return self.bin(Op::Add, a, k);
                }
                // (x + k) - x, x - (x + k), (x+k1)-(x+k2)
                let (ba, ka) = self.addk(a);
                let (bb, kb) = self.addk(b);
                if ba == bb {
                    return self.k(ka.wrapping_sub(kb), w);
                }
            }
            Op::Mul => {
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.k(k.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::UDiv | Op::URem => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        if op == Op::UDiv {
                            let s = self.k(k.trailing_zeros() as u128, w);
                            return self.bin(Op::LShr, a, s);
                        }
                        let m = self.k(k - 1, w);
                        return self.bin(Op::And, a, m);
                    }
                    if na.op == Op::ZExt && k != 0 {
                        let yw = self.w(na.a);
                        if k > ones(yw) {
                            return if op == Op::UDiv { self.k(0, w) } else { a };
                        }
                        let k2 = self.k(k, yw);
                        let r = self.bin(op, na.a, k2);
                        return self.zext(r, w);
                    }
                }
            }
            Op::Shl => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.k(0, w);
                    }
                    let h = self.extract(a, 0, w - k as u32);
                    let z = self.k(0, k as u32);
                    return self.concat(h, z);
                }
            }
            Op::LShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.k(0, w);
                    }
                    let h = self.extract(a, k as u32, w - k as u32);
                    return self.zext(h, w);
                }
            }
            Op::AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    let s = if k >= w as u128 { w - 1 } else { k as u32 };
                    let h = self.extract(a, s, w - s);
                    return self.sext(h, w);
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == ones(w) {
                        return a;
                    }
                    // contiguous mask
                    let lo = k.trailing_zeros();
                    let n = (k >> lo).trailing_ones();
                    if (k >> lo) == ones(n) {
                        let e = self.extract(a, lo, n);
                        let e = if lo > 0 {
                            let z = self.k(0, lo);
                            self.concat(e, z)
                        } else {
                            e
                        };
                        return self.zext(e, w);
                    }
                    if na.op == Op::And {
                        if let Some(k1) = self.cst(na.b) {
                            let k = self.k(k & k1, w);
                            return self.bin(Op::And, na.a, k);
                        }
                    }
                    if na.op == Op::ZExt {
                        let yw = self.w(na.a);
                        let k2 = self.k(k, yw);
                        let r = self.bin(Op::And, na.a, k2);
                        return self.zext(r, w);
                    }
                }
                if w == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                        return self.k(0, 1);
                    }
                }
                if let Some(r) = self.piecewise(op, a, b) {
                    return r;
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k == ones(w) {
                        return b;
                    }
                }
                if w == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                        return self.k(1, 1);
                    }
                }
                if let Some(r) = self.piecewise(op, a, b) {
                    return r;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.k(0, w);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if na.op == Op::Xor {
                        if let Some(k1) = self.cst(na.b) {
                            let k = self.k(k ^ k1, w);
                            return self.bin(Op::Xor, na.a, k);
                        }
                    }
                }
                if let Some(r) = self.piecewise(op, a, b) {
                    return r;
                }
            }
            Op::Eq => {
                if a == b {
                    return self.k(1, 1);
                }
                if w == 1 {
                    if let Some(k) = cb {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    let x = self.bin(Op::Xor, a, b);
                    return self.not(x);
                }
                if let Some(k) = cb {
                    match na.op {
                        Op::ZExt => {
                            let yw = self.w(na.a);
                            if k > ones(yw) {
                                return self.k(0, 1);
                            }
                            let k2 = self.k(k, yw);
                            return self.bin(Op::Eq, na.a, k2);
                        }
                        Op::SExt => {
                            let yw = self.w(na.a);
                            let t = k & ones(yw);
                            if (sext(t, yw) as u128) & ones(w) != k {
                                return self.k(0, 1);
                            }
                            let k2 = self.k(t, yw);
                            return self.bin(Op::Eq, na.a, k2);
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let hw = w - lw;
                            let kl = self.k(k, lw);
                            let kh = self.k(k >> lw, hw);
                            let x = self.bin(Op::Eq, na.a, kh);
                            let y = self.bin(Op::Eq, na.b, kl);
                            return self.and(x, y);
                        }
                        Op::Add => {
                            if let Some(k1) = self.cst(na.b) {
                                let k2 = self.k(k.wrapping_sub(k1), w);
                                return self.bin(Op::Eq, na.a, k2);
                            }
                        }
                        Op::Xor => {
                            if let Some(k1) = self.cst(na.b) {
                                let k2 = self.k(k ^ k1, w);
                                return self.bin(Op::Eq, na.a, k2);
                            }
                        }
                        Op::Ite => {
                            let (ka, kb) = (self.cst(na.b), self.cst(na.c));
                            if ka.is_some() || kb.is_some() {
                                let x = self.bin(Op::Eq, na.b, b);
                                let y = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, x, y);
                            }
                        }
                        _ => {}
                    }
                } else {
                    if na.op == Op::ZExt && nb.op == Op::ZExt {
                        let (wa, wb) = (self.w(na.a), self.w(nb.a));
                        let m = wa.max(wb);
                        let x = self.zext(na.a, m);
                        let y = self.zext(nb.a, m);
                        return self.bin(Op::Eq, x, y);
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.a) == self.w(nb.a) {
                        let x = self.bin(Op::Eq, na.a, nb.a);
                        let y = self.bin(Op::Eq, na.b, nb.b);
                        return self.and(x, y);
                    }
                }
            }
            Op::Ult => {
                if a == b {
                    return self.k(0, 1);
                }
                if w == 1 {
                    let x = self.not(a);
                    return self.and(x, b);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return self.k(0, 1);
                    }
                    if k == 1 {
                        let z = self.k(0, w);
                        return self.eq(a, z);
                    }
                    if na.op == Op::ZExt {
                        let yw = self.w(na.a);
                        if k > ones(yw) {
                            return self.k(1, 1);
                        }
                        let k2 = self.k(k, yw);
                        return self.bin(Op::Ult, na.a, k2);
                    }
                    if na.op == Op::Ite && (self.cst(na.b).is_some() || self.cst(na.c).is_some()) {
                        let x = self.bin(Op::Ult, na.b, b);
                        let y = self.bin(Op::Ult, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                if let Some(k) = ca {
                    if k == ones(w) {
                        return self.k(0, 1);
                    }
                    if k == 0 {
                        let e = self.eq(b, a);
                        return self.not(e);
                    }
                    if nb.op == Op::ZExt {
                        let yw = self.w(nb.a);
                        if k >= ones(yw) {
                            return self.k(0, 1);
                        }
                        let k2 = self.k(k, yw);
                        return self.bin(Op::Ult, k2, nb.a);
                    }
                    if nb.op == Op::Ite && (self.cst(nb.b).is_some() || self.cst(nb.c).is_some()) {
                        let x = self.bin(Op::Ult, a, nb.b);
                        let y = self.bin(Op::Ult, a, nb.c);
                        return self.ite(nb.a, x, y);
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt {
                    let (wa, wb) = (self.w(na.a), self.w(nb.a));
                    let m = wa.max(wb);
                    let x = self.zext(na.a, m);
                    let y = self.zext(nb.a, m);
                    return self.bin(Op::Ult, x, y);
                }
            }
            Op::Slt => {
                if a == b {
                    return self.k(0, 1);
                }
                if w == 1 {
                    // signed: 1 is -1
                    let y = self.not(b);
                    return self.and(a, y);
                }
                if cb == Some(0) {
                    return self.extract(a, w - 1, 1);
                }
                let za = na.op == Op::ZExt;
                let zb = nb.op == Op::ZExt;
                if za && zb {
                    return self.bin(Op::Ult, a, b);
                }
                if let (true, Some(k)) = (za, cb) {
                    if sext(k, w) < 0 {
                        return self.k(0, 1);
                    }
                    return self.bin(Op::Ult, a, b);
                }
                if let (Some(k), true) = (ca, zb) {
                    if sext(k, w) < 0 {
                        return self.k(1, 1);
                    }
                    return self.bin(Op::Ult, a, b);
                }
                if let (Op::SExt, Some(k)) = (na.op, cb) {
                    let yw = self.w(na.a);
                    let kk = sext(k, w);
                    if (sext(k & ones(yw), yw)) == kk {
                        let k2 = self.k(k, yw);
                        return self.bin(Op::Slt, na.a, k2);
                    }
                    return self.k((kk > 0) as u128, 1);
                }
                if let (Some(k), Op::SExt) = (ca, nb.op) {
                    let yw = self.w(nb.a);
                    let kk = sext(k, w);
                    if (sext(k & ones(yw), yw)) == kk {
                        let k2 = self.k(k, yw);
                        return self.bin(Op::Slt, k2, nb.a);
                    }
                    return self.k((kk < 0) as u128, 1);
                }
                if let Some(_) = cb {
                    if na.op == Op::Ite && (self.cst(na.b).is_some() || self.cst(na.c).is_some()) {
                        let x = self.bin(Op::Slt, na.b, b);
                        let y = self.bin(Op::Slt, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
            }
            Op::SDiv | Op::SRem => {
                if na.op == Op::ZExt {
                    if let Some(k) = cb {
                        if sext(k, w) > 0 {
                            return self.bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b);
                        }
                    }
                }
            }
            _ => {}
        }
        self.raw(op, rw, a, b)
    }
    fn addk(&self, t: T) -> (T, u128) {
        let n = self.n(t);
        if n.op == Op::Add {
            if let Some(k) = self.cst(n.b) {
                return (n.a, k);
            }
        }
        (t, 0)
    }
    /// x + y where bits are disjoint: same as or
    fn piecewise_add(&mut self, a: T, b: T) -> Option<T> {
        let (na, nb) = (*self.n(a), *self.n(b));
        let w = na.w;
        // Concat(h, 0_k) + ZExt(y), wy <= k   (either order)
        for (x, y, ny) in [(na, b, nb), (nb, a, na)] {
            if x.op == Op::Concat && ny.op != Op::Const {
                if self.cst(x.b) == Some(0) {
                    let lw = self.w(x.b);
                    if ny.op == Op::ZExt && self.w(ny.a) <= lw {
                        let l = self.extract(y, 0, lw);
                        return Some(self.concat(x.a, l));
                    }
                }
            }
            // Concat(h, 0_k) + const < 2^k
            if x.op == Op::Concat && self.cst(x.b) == Some(0) {
                if let Some(k) = self.cst(y) {
                    let lw = self.w(x.b);
                    if k <= ones(lw) {
                        let l = self.k(k, lw);
                        return Some(self.concat(x.a, l));
                    }
                }
            }
        }
        let _ = w;
        None
    }
    pub fn extract(&mut self, x: T, lo: u32, n: u32) -> T {
        let nx = *self.n(x);
        let w = nx.w;
        debug_assert!(lo + n <= w && n > 0, "extract {} {} of {}", lo, n, w);
        if lo == 0 && n == w {
            return x;
        }
        match nx.op {
            Op::Const => return self.k(nx.k >> lo, n),
            Op::Extract => return self.extract(nx.a, nx.k as u32 + lo, n),
            Op::Concat => {
                let lw = self.w(nx.b);
                if lo + n <= lw {
                    return self.extract(nx.b, lo, n);
                }
                if lo >= lw {
                    return self.extract(nx.a, lo - lw, n);
                }
                let l = self.extract(nx.b, lo, lw - lo);
                let h = self.extract(nx.a, 0, lo + n - lw);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let yw = self.w(nx.a);
                if lo >= yw {
                    return self.k(0, n);
                }
                if lo + n <= yw {
                    return self.extract(nx.a, lo, n);
                }
                let e = self.extract(nx.a, lo, yw - lo);
                return self.zext(e, n);
            }
            Op::SExt => {
                let yw = self.w(nx.a);
                if lo + n <= yw {
                    return self.extract(nx.a, lo, n);
                }
                if lo < yw {
                    let e = self.extract(nx.a, lo, yw - lo);
                    return self.sext(e, n);
                }
                let e = self.extract(nx.a, yw - 1, 1);
                return self.sext(e, n);
            }
            Op::Ite => {
                if self.cst(nx.b).is_some() || self.cst(nx.c).is_some() {
                    let a = self.extract(nx.b, lo, n);
                    let b = self.extract(nx.c, lo, n);
                    return self.ite(nx.a, a, b);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let a = self.extract(nx.a, lo, n);
                let b = self.extract(nx.b, lo, n);
                return self.bin(nx.op, a, b);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let a = self.extract(nx.a, 0, n);
                let b = self.extract(nx.b, 0, n);
                return self.bin(nx.op, a, b);
            }
            _ => {}
        }
        self.intern(Node { op: Op::Extract, w: n, a: x, b: 0, c: 0, k: lo as u128 })
    }
    pub fn concat(&mut self, h: T, l: T) -> T {
        let (nh, nl) = (*self.n(h), *self.n(l));
        let w = nh.w + nl.w;
        assert!(w <= 128);
        if let (Some(a), Some(b)) = (self.cst(h), self.cst(l)) {
            return self.k(a << nl.w | b, w);
        }
        if self.cst(h) == Some(0) {
            return self.zext(l, w);
        }
        if nh.op == Op::ZExt {
            let c = self.concat(nh.a, l);
            return self.zext(c, w);
        }
        if nh.op == Op::Concat {
            let r = self.concat(nh.b, l);
            return self.concat(nh.a, r);
        }
        // adjacent extracts
        let ext = |n: &Node, t: T| if n.op == Op::Extract { (n.a, n.k as u32) } else { (t, 0) };
        let (hx, hlo) = ext(&nh, h);
        {
            let (lx, llo) = ext(&nl, l);
            if hx == lx && nh.op == Op::Extract && hlo == llo + nl.w {
                return self.extract(hx, llo, w);
            }
        }
        if nl.op == Op::Concat {
            let n2 = *self.n(nl.a);
            let (lx, llo) = ext(&n2, nl.a);
            if nh.op == Op::Extract && hx == lx && hlo == llo + n2.w {
                let m = self.extract(hx, llo, n2.w + nh.w);
                return self.concat(m, nl.b);
            }
            // const next to const
            if let (Some(a), Some(b)) = (self.cst(h), self.cst(nl.a)) {
                let k = self.k(a << n2.w | b, n2.w + nh.w);
                return self.concat(k, nl.b);
            }
        }
        // SExt pieces: Concat(Extract of SExt..) not needed
        // ites
        match (self.ite_kk(h), self.ite_kk(l)) {
            (Some((c1, a1, b1)), Some((c2, a2, b2))) if c1 == c2 => {
                let p = self.k(a1 << nl.w | a2, w);
                let q = self.k(b1 << nl.w | b2, w);
                return self.ite(c1, p, q);
            }
            (Some((c, a, b)), None) => {
                if let Some(k) = self.cst(l) {
                    let p = self.k(a << nl.w | k, w);
                    let q = self.k(b << nl.w | k, w);
                    return self.ite(c, p, q);
                }
            }
            (None, Some((c, a, b))) => {
                if let Some(k) = self.cst(h) {
                    let p = self.k(k << nl.w | a, w);
                    let q = self.k(k << nl.w | b, w);
                    return self.ite(c, p, q);
                }
            }
            _ => {}
        }
        // Ite with one const arm: merge when conditions are equal
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let p = self.concat(nh.b, nl.b);
            let q = self.concat(nh.c, nl.c);
            return self.ite(nh.a, p, q);
        }
        self.intern(Node { op: Op::Concat, w, a: h, b: l, c: 0, k: 0 })
    }
    pub fn zext(&mut self, x: T, w: u32) -> T {
        let nx = *self.n(x);
        debug_assert!(w >= nx.w);
        if w == nx.w {
            return x;
        }
        match nx.op {
            Op::Const => return self.k(nx.k, w),
            Op::ZExt => return self.zext(nx.a, w),
            _ => {}
        }
        if nx.w == 1 {
            let (p, q) = (self.k(1, w), self.k(0, w));
            return self.ite(x, p, q);
        }
        if let Some((c, a, b)) = self.ite_kk(x) {
            let (p, q) = (self.k(a, w), self.k(b, w));
            return self.ite(c, p, q);
        }
        self.intern(Node { op: Op::ZExt, w, a: x, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, x: T, w: u32) -> T {
        let nx = *self.n(x);
        if w == nx.w {
            return x;
        }
        match nx.op {
            Op::Const => return self.k(sext(nx.k, nx.w) as u128, w),
            Op::ZExt => return self.zext(nx.a, w),
            Op::SExt => return self.sext(nx.a, w),
            _ => {}
        }
        if nx.w == 1 {
            let (p, q) = (self.k(!0, w), self.k(0, w));
            return self.ite(x, p, q);
        }
        if let Some((c, a, b)) = self.ite_kk(x) {
            let (p, q) = (self.k(sext(a, nx.w) as u128, w), self.k(sext(b, nx.w) as u128, w));
            return self.ite(c, p, q);
        }
        self.intern(Node { op: Op::SExt, w, a: x, b: 0, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        debug_assert!(self.w(c) == 1 && self.w(a) == self.w(b));
        if let Some(k) = self.cst(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Some(d) = self.is_not(c) {
            return self.ite(d, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cst(a), self.cst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        self.intern(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }

    // ---- evaluation under a model
    pub fn new_model(&mut self) {
        self.gen += 1;
    }
    pub fn eval(&mut self, t: T, m: &[u8]) -> u128 {
        let (g, v) = self.cache[t as usize];
        if g == self.gen {
            return v;
        }
        let n = self.nodes[t as usize];
        let v = match n.op {
            Op::Const => n.k,
            Op::Var => *m.get(n.k as usize).unwrap_or(&0) as u128,
            Op::ZExt => self.eval(n.a, m),
            Op::SExt => {
                let w = self.w(n.a);
                (sext(self.eval(n.a, m), w) as u128) & ones(n.w)
            }
            Op::Extract => (self.eval(n.a, m) >> n.k as u32) & ones(n.w),
            Op::Concat => {
                let lw = self.w(n.b);
                self.eval(n.a, m) << lw | self.eval(n.b, m)
            }
            Op::Ite => {
                if self.eval(n.a, m) == 1 {
                    self.eval(n.b, m)
                } else {
                    self.eval(n.c, m)
                }
            }
            op => {
                let w = self.w(n.a);
                let x = self.eval(n.a, m);
                let y = self.eval(n.b, m);
                fold(op, w, x, y)
            }
        };
        self.cache[t as usize] = (self.gen, v);
        v
    }

    // ---- 256-entry value tables of terms that depend on exactly one byte
    pub fn table(&mut self, t: T) -> Option<Rc<Vec<u64>>> {
        if let Some(r) = self.tabs.get(&t) {
            return r.clone();
        }
        let n = self.nodes[t as usize];
        let r = self.table0(n);
        self.tabs.insert(t, r.clone());
        r
    }
    fn table0(&mut self, n: Node) -> Option<Rc<Vec<u64>>> {
        if n.w > 64 {
            return None;
        }
        Some(Rc::new(match n.op {
            Op::Const => vec![n.k as u64; 256],
            Op::Var => (0..256u64).collect(),
            Op::ZExt => return self.table(n.a),
            Op::SExt => {
                let w = self.w(n.a);
                let a = self.table(n.a)?;
                a.iter().map(|&x| (sext(x as u128, w) as u128 & ones(n.w)) as u64).collect()
            }
            Op::Extract => {
                let a = self.table(n.a)?;
                a.iter().map(|&x| (x >> n.k as u32) & ones(n.w) as u64).collect()
            }
            Op::Concat => {
                let lw = self.w(n.b);
                let a = self.table(n.a)?;
                let b = self.table(n.b)?;
                (0..256).map(|i| a[i] << lw | b[i]).collect()
            }
            Op::Ite => {
                let c = self.table(n.a)?;
                let a = self.table(n.b)?;
                let b = self.table(n.c)?;
                (0..256).map(|i| if c[i] == 1 { a[i] } else { b[i] }).collect()
            }
            op => {
                let w = self.w(n.a);
                let a = self.table(n.a)?;
                let b = self.table(n.b)?;
                (0..256).map(|i| fold(op, w, a[i] as u128, b[i] as u128) as u64).collect()
            }
        }))
    }
    /// the set of byte values for which a one-byte condition holds
    pub fn set_of(&mut self, t: T) -> Option<Mask> {
        let tab = self.table(t)?;
        let mut m = [0u64; 4];
        for i in 0..256 {
            if tab[i] == 1 {
                mask_set(&mut m, i);
            }
        }
        Some(m)
    }
    /// lookup table indexed by the value of `idx` (any width): builds an ite chain over runs
    pub fn show(&self, t: T) -> String {
        self.show_d(t, 12)
    }
    fn show_d(&self, t: T, d: u32) -> String {
        let n = self.n(t);
        if d == 0 {
            return "..".into();
        }
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => format!("x{}", n.k),
            Op::ZExt | Op::SExt => format!("({:?}{} {})", n.op, n.w, self.show_d(n.a, d - 1)),
            Op::Extract => format!("({}[{}+{}])", self.show_d(n.a, d - 1), n.k, n.w),
            Op::Ite => format!("(ite {} {} {})", self.show_d(n.a, d - 1), self.show_d(n.b, d - 1), self.show_d(n.c, d - 1)),
            _ => format!("({:?} {} {})", n.op, self.show_d(n.a, d - 1), self.show_d(n.b, d - 1)),
        }
    }
}
