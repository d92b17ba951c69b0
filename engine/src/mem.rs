//! Byte-addressed objects with an optional symbolic overlay.
use crate::expr::Id;
pub const NONE: Id = u32::MAX;

#[derive(Clone, Default)]
pub struct Obj {
    pub data: Vec<u8>,
    /// per byte: (expression, byte index inside it), NONE when concrete; empty when nothing is symbolic
    pub sym: Vec<(Id, u8)>,
    pub ro: bool,
}
impl Obj {
    pub fn zero(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: vec![], ro: false }
    }
    pub fn bytes(d: &[u8]) -> Obj {
        Obj { data: d.to_vec(), sym: vec![], ro: false }
    }
    pub fn len(&self) -> usize {
        self.data.len()
    }
    pub fn concrete(&self, o: usize, n: usize) -> bool {
        self.sym.is_empty() || self.sym[o..o + n].iter().all(|x| x.0 == NONE)
    }
    pub fn put(&mut self, o: usize, b: &[u8]) {
        self.data[o..o + b.len()].copy_from_slice(b);
        if !self.sym.is_empty() {
            for s in &mut self.sym[o..o + b.len()] {
                s.0 = NONE
            }
        }
    }
    pub fn put_sym(&mut self, o: usize, n: usize, id: Id) {
        if self.sym.is_empty() {
            self.sym = vec![(NONE, 0); self.data.len()];
        }
        for i in 0..n {
            self.sym[o + i] = (id, i as u8);
        }
    }
    pub fn resize(&mut self, n: usize) {
        self.data.resize(n, 0);
        if !self.sym.is_empty() {
            self.sym.resize(n, (NONE, 0));
        }
    }
    pub fn slice(&self, o: usize, n: usize) -> Obj {
        let mut r = Obj { data: self.data[o..o + n].to_vec(), sym: vec![], ro: false };
        if !self.concrete(o, n) {
            r.sym = self.sym[o..o + n].to_vec();
        }
        r
    }
    pub fn write_at(&mut self, o: usize, s: &Obj) {
        if o + s.len() > self.len() {
            self.resize(o + s.len());
        }
        self.data[o..o + s.len()].copy_from_slice(&s.data);
        if s.sym.is_empty() {
            if !self.sym.is_empty() {
                for x in &mut self.sym[o..o + s.len()] {
                    x.0 = NONE
                }
            }
        } else {
            if self.sym.is_empty() {
                self.sym = vec![(NONE, 0); self.data.len()];
            }
            self.sym[o..o + s.len()].copy_from_slice(&s.sym);
        }
    }
    pub fn push_bytes(&mut self, b: &[u8]) {
        let o = self.len();
        self.resize(o + b.len());
        self.put(o, b);
    }
}
