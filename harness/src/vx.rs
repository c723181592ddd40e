//! Harness-side view of the symbolic executor (and of the native replay driver, which implements the same symbols).
#![allow(dead_code)]

extern "C" {
    fn vx_sym(p: *mut u8, n: usize);
    fn vx_pick(n: usize) -> usize;
    fn vx_assume(c: bool);
    fn vx_assert(c: bool, p: *const u8, n: usize);
    fn vx_cover(p: *const u8, n: usize);
    fn vx_param(i: usize) -> usize;
    fn vx_out(tag: u64, p: *const u8, n: usize);
    fn vx_expect_panic(b: bool);
    fn vx_race(at: usize, max: usize, f: extern "C" fn(*mut u8), arg: *mut u8, shared: *const u8, n: usize);
    fn vx_race_end() -> i32;
    fn vx_file(p: *const u8, n: usize, d: *const u8, dn: usize, errno: i32);
}

/// An arbitrary number below `n`; every value is explored as its own path.
pub fn pick(n: usize) -> usize {
    unsafe { vx_pick(n) }
}
/// Runs `f`, and `g` as another thread would: as a whole, in front of any one of the up to `max` atomic accesses `f` makes, or
/// behind it. What they share is `shared` and statics.
pub fn race<T: ?Sized, F: FnOnce(), G: FnOnce()>(max: usize, shared: &T, f: F, g: G) {
    extern "C" fn call<G: FnOnce()>(p: *mut u8) {
        if let Some(g) = unsafe { (*(p as *mut Option<G>)).take() } {
            g()
        }
    }
    let at = pick(max + 1);
    let mut g = Some(g);
    let p = &mut g as *mut Option<G> as *mut u8;
    unsafe { vx_race(at, max, call::<G>, p, shared as *const T as *const u8, std::mem::size_of_val(shared)) }
    f();
    if unsafe { vx_race_end() } != 0 {
        call::<G>(p);
    }
}
/// `n` arbitrary bytes.
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 0 {
        unsafe { vx_sym(v.as_mut_ptr(), n) }
    }
    v
}
/// One arbitrary byte.
pub fn byte() -> u8 {
    let mut b = [0u8];
    unsafe { vx_sym(b.as_mut_ptr(), 1) }
    b[0]
}
pub fn flag() -> bool {
    pick(2) == 1
}
pub fn u64sym() -> u64 {
    let mut b = [0u8; 8];
    unsafe { vx_sym(b.as_mut_ptr(), 8) }
    u64::from_le_bytes(b)
}
/// Arbitrary bytes of an arbitrary length up to `max`.
pub fn upto(max: usize) -> Vec<u8> {
    let n = pick(max + 1);
    bytes(n)
}
/// `n` bytes drawn from `set`.
pub fn from_set(n: usize, set: &[u8]) -> Vec<u8> {
    let v = bytes(n);
    for b in &v {
        assume(one_of(*b, set));
    }
    v
}
/// Branch-free membership (one solver term instead of one path per element).
pub fn one_of(b: u8, set: &[u8]) -> bool {
    let mut r = false;
    for s in set {
        r |= b == *s;
    }
    r
}
pub fn assume(c: bool) {
    unsafe { vx_assume(c) }
}
pub fn check(c: bool, id: &str) {
    unsafe { vx_assert(c, id.as_ptr(), id.len()) }
}
/// Reachability witness.
pub fn cover(id: &str) {
    unsafe { vx_cover(id.as_ptr(), id.len()) }
}
pub fn param(i: usize) -> usize {
    unsafe { vx_param(i) }
}
/// Observable result, compared between the symbolic run and the native run of sampled paths.
pub fn out(tag: u64, b: &[u8]) {
    unsafe { vx_out(tag, b.as_ptr(), b.len()) }
}
pub fn out_n(tag: u64, n: u64) {
    out(tag, &n.to_le_bytes())
}
pub fn expect_panic(b: bool) {
    unsafe { vx_expect_panic(b) }
}
/// A file of the virtual file system; `errno != 0` makes opening it fail. Further codes: 0x100 it is a directory; 0x200
/// reading it fails behind the first (errno >> 16) bytes; 0x400 it says that it has (errno >> 16) bytes.
pub fn file(path: &str, data: &[u8], errno: i32) {
    unsafe { vx_file(path.as_ptr(), path.len(), data.as_ptr(), data.len(), errno) }
}
/// `a == b` without branching on the contents.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && a == b
}
