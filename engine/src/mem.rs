//! Object memory: address = object id << 32 | offset; copy-on-write between states.
use crate::term::T;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub bytes: Vec<u8>,
    pub sym: Option<Vec<T>>,
    pub ro: bool,
}
impl Obj {
    pub fn new(size: usize) -> Obj {
        Obj { bytes: vec![0; size], sym: None, ro: false }
    }
    #[inline]
    pub fn concrete(&self, off: usize, n: usize) -> bool {
        match &self.sym {
            None => true,
            Some(s) => s[off..off + n].iter().all(|&t| t == 0),
        }
    }
    pub fn set_sym(&mut self, off: usize, t: T) {
        let n = self.bytes.len();
        let s = self.sym.get_or_insert_with(|| vec![0; n]);
        s[off] = t;
    }
    #[inline]
    pub fn clear_sym(&mut self, off: usize, n: usize) {
        if let Some(s) = &mut self.sym {
            for x in &mut s[off..off + n] {
                *x = 0;
            }
        }
    }
    pub fn sym_at(&self, off: usize) -> T {
        match &self.sym {
            None => 0,
            Some(s) => s[off],
        }
    }
}

const CH: usize = 32;
#[derive(Clone)]
pub struct Chunk([Option<Rc<Obj>>; CH]);

#[derive(Clone, Default)]
pub struct Region {
    chunks: Vec<Option<Rc<Chunk>>>,
}
impl Region {
    #[inline]
    pub fn get(&self, i: usize) -> Option<&Rc<Obj>> {
        match self.chunks.get(i / CH) {
            Some(Some(c)) => c.0[i % CH].as_ref(),
            _ => None,
        }
    }
    pub fn set(&mut self, i: usize, o: Option<Rc<Obj>>) {
        let c = i / CH;
        while self.chunks.len() <= c {
            self.chunks.push(None);
        }
        let ch = self.chunks[c].get_or_insert_with(|| Rc::new(Chunk(Default::default())));
        Rc::make_mut(ch).0[i % CH] = o;
    }
    #[inline]
    pub fn get_mut(&mut self, i: usize) -> Option<&mut Obj> {
        match self.chunks.get_mut(i / CH) {
            Some(Some(ch)) => match &mut Rc::make_mut(ch).0[i % CH] {
                Some(o) => Some(Rc::make_mut(o)),
                None => None,
            },
            _ => None,
        }
    }
    /// drop the chunk when nothing in it is alive
    pub fn trim(&mut self, i: usize) {
        let c = i / CH;
        if let Some(Some(ch)) = self.chunks.get(c) {
            if ch.0.iter().all(|x| x.is_none()) && c + 1 < self.chunks.len() {
                self.chunks[c] = None;
            }
        }
    }
}
