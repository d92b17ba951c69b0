//! Hash-consed bit-vector expressions.
//!
//! Every symbolic input is a finite-domain variable (its value is an index 0..n).
//! An expression over exactly one variable is kept as the full table of its
//! values, so it is canonical (equal functions share a node); an expression over
//! several variables is structural and is decided by Z3.
use crate::ir::{BinOp, Pred};
use crate::z3::{self, P};
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::rc::Rc;

pub type Id = u32;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    E(Id),
    X(Rc<u128>),
    A(Rc<Vec<Val>>),
}

/// an integer term and its bounds
pub type IT = (P, i128, i128);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const, Var, Tab,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, SExt,
    FAdd, FSub, FMul, FDiv, FNeg, FAbs, FMin, FMax, FRound, SiToFp, UiToFp, FpToUi,
    FLt, FLe, FEq,
}

pub struct Node {
    pub k: K,
    pub w: u32,
    pub a: [Id; 3],
    pub imm: u64,
    pub cv: u128,
    pub lo: u64,
    pub hi: u64,
    pub vars: u128,
    pub tab: Option<Rc<[u64]>>,
}

#[derive(Clone, Debug)]
pub enum FK {
    Exact,
    CR,
    Err(f64),
}
/// value = num * p / q, up to `kind`
#[derive(Clone, Debug)]
pub struct F {
    pub num: Val,
    pub lo: i64,
    pub hi: i64,
    pub p: u64,
    pub q: u64,
    pub kind: FK,
}

pub struct VarInfo {
    pub name: String,
    pub n: usize,
    pub zv: P,
    pub iv: P,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    hc: HashMap<(K, u32, [Id; 3], u64, u128), Id>,
    tabs: HashMap<(u32, u32, Rc<[u64]>), Id>,
    pub vars: Vec<VarInfo>,
    hint: HashMap<Id, (i64, i64)>,
    pub var_node: Vec<Id>,
    fann: HashMap<Id, Option<F>>,
    pub rename: HashMap<Id, (usize, i64)>,
    pub cx: P,
    zbv: HashMap<Id, P>,
    zbool: HashMap<Id, P>,
    inum: HashMap<Id, Option<IT>>,
    ibool: HashMap<Id, Option<P>>,
}

fn msk(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
fn m64(w: u32) -> u64 {
    if w >= 64 { u64::MAX } else { (1u64 << w) - 1 }
}
fn sx128(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}
pub fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 { a } else { gcd(b, a % b) }
}

fn f(b: u128) -> f64 {
    f64::from_bits(b as u64)
}

/// Reference semantics of one operator on concrete values.
pub fn ev(k: K, w: u32, imm: u64, kw: [u32; 3], x: [u128; 3]) -> u128 {
    let m = msk(w);
    let r = match k {
        K::Const | K::Var | K::Tab => unreachable!(),
        K::Add => x[0].wrapping_add(x[1]),
        K::Sub => x[0].wrapping_sub(x[1]),
        K::Mul => x[0].wrapping_mul(x[1]),
        K::UDiv => if x[1] == 0 { 0 } else { x[0] / x[1] },
        K::URem => if x[1] == 0 { 0 } else { x[0] % x[1] },
        K::SDiv => {
            let b = sx128(x[1], w);
            if b == 0 { 0 } else { sx128(x[0], w).wrapping_div(b) as u128 }
        }
        K::SRem => {
            let b = sx128(x[1], w);
            if b == 0 { 0 } else { sx128(x[0], w).wrapping_rem(b) as u128 }
        }
        K::And => x[0] & x[1],
        K::Or => x[0] | x[1],
        K::Xor => x[0] ^ x[1],
        K::Shl => if x[1] >= w as u128 { 0 } else { x[0] << x[1] },
        K::LShr => if x[1] >= w as u128 { 0 } else { x[0] >> x[1] },
        K::AShr => {
            let s = if x[1] >= w as u128 { w - 1 } else { x[1] as u32 };
            (sx128(x[0], w) >> s) as u128
        }
        K::Eq => (x[0] == x[1]) as u128,
        K::Ult => (x[0] < x[1]) as u128,
        K::Ule => (x[0] <= x[1]) as u128,
        K::Slt => (sx128(x[0], kw[0]) < sx128(x[1], kw[1])) as u128,
        K::Sle => (sx128(x[0], kw[0]) <= sx128(x[1], kw[1])) as u128,
        K::Ite => if x[0] != 0 { x[1] } else { x[2] },
        K::Concat => (x[0] << kw[1]) | x[1],
        K::Extract => x[0] >> imm,
        K::SExt => sx128(x[0], kw[0]) as u128,
        K::FAdd => (f(x[0]) + f(x[1])).to_bits() as u128,
        K::FSub => (f(x[0]) - f(x[1])).to_bits() as u128,
        K::FMul => (f(x[0]) * f(x[1])).to_bits() as u128,
        K::FDiv => (f(x[0]) / f(x[1])).to_bits() as u128,
        K::FNeg => (-f(x[0])).to_bits() as u128,
        K::FAbs => f(x[0]).abs().to_bits() as u128,
        K::FMin => f(x[0]).min(f(x[1])).to_bits() as u128,
        K::FMax => f(x[0]).max(f(x[1])).to_bits() as u128,
        K::FRound => f(x[0]).round().to_bits() as u128,
        K::SiToFp => (sx128(x[0], kw[0]) as f64).to_bits() as u128,
        K::UiToFp => (x[0] as f64).to_bits() as u128,
        K::FpToUi => {
            let v = f(x[0]);
            if v.is_nan() || v <= 0.0 { 0 } else if v >= (m as f64) { m } else { v as u128 }
        }
        K::FLt => (f(x[0]) < f(x[1])) as u128,
        K::FLe => (f(x[0]) <= f(x[1])) as u128,
        K::FEq => (f(x[0]) == f(x[1])) as u128,
    };
    r & m
}

extern "C" fn zerr(c: P, e: i32) {
    unsafe {
        let s = CStr::from_ptr(z3::Z3_get_error_msg(c, e) as *const _);
        eprintln!("z3 error: {:?}", s);
        std::process::abort();
    }
}

impl Arena {
    pub fn new() -> Self {
        let cx = unsafe {
            let c = z3::Z3_mk_context(z3::Z3_mk_config());
            z3::Z3_set_error_handler(c, Some(zerr));
            z3::Z3_set_ast_print_mode(c, 2);
            c
        };
        Arena {
            nodes: vec![],
            hc: HashMap::new(),
            tabs: HashMap::new(),
            vars: vec![], hint: HashMap::new(),
            var_node: vec![],
            fann: HashMap::new(),
            rename: HashMap::new(),
            cx,
            zbv: HashMap::new(),
            zbool: HashMap::new(),
            inum: HashMap::new(),
            ibool: HashMap::new(),
        }
    }
    pub fn new_var(&mut self, name: &str, n: usize) -> usize {
        assert!(self.vars.len() < 128, "too many variables");
        assert!(n >= 1 && n <= 65536);
        let v = self.vars.len();
        let zv = unsafe {
            let s = CString::new(name).unwrap();
            z3::Z3_mk_const(self.cx, z3::Z3_mk_string_symbol(self.cx, s.as_ptr() as *const _), z3::Z3_mk_bv_sort(self.cx, 16))
        };
        let iv = unsafe {
            let s = CString::new(format!("{}!int", name)).unwrap();
            z3::Z3_mk_const(self.cx, z3::Z3_mk_string_symbol(self.cx, s.as_ptr() as *const _), z3::Z3_mk_int_sort(self.cx))
        };
        self.vars.push(VarInfo { name: name.to_string(), n, zv, iv });
        let tab: Rc<[u64]> = (0..n as u64).collect();
        let id = self.nodes.len() as Id;
        self.nodes.push(Node { k: K::Var, w: 16, a: [0; 3], imm: v as u64, cv: 0, lo: 0, hi: n as u64 - 1, vars: 1 << v, tab: Some(tab.clone()) });
        self.tabs.insert((v as u32, 16, tab), id);
        self.var_node.push(id);
        v
    }
    pub fn mkc(&mut self, v: u128, w: u32) -> Id {
        let v = v & msk(w);
        let key = (K::Const, w, [0; 3], 0, v);
        if let Some(&i) = self.hc.get(&key) {
            return i;
        }
        let id = self.nodes.len() as Id;
        let (lo, hi) = if w <= 64 { (v as u64, v as u64) } else { (0, u64::MAX) };
        self.nodes.push(Node { k: K::Const, w, a: [0; 3], imm: 0, cv: v, lo, hi, vars: 0, tab: None });
        self.hc.insert(key, id);
        id
    }
    pub fn id(&mut self, v: &Val, w: u32) -> Id {
        match v {
            Val::C(c) => self.mkc(*c as u128, w),
            Val::X(c) => self.mkc(**c, w),
            Val::E(i) => {
                debug_assert_eq!(self.nodes[*i as usize].w, w);
                *i
            }
            Val::A(_) => panic!("aggregate where scalar expected"),
        }
    }
    pub fn val(&self, id: Id) -> Val {
        let n = &self.nodes[id as usize];
        if n.k == K::Const {
            if n.w <= 64 { Val::C(n.cv as u64) } else { Val::X(Rc::new(n.cv)) }
        } else {
            Val::E(id)
        }
    }
    pub fn single(&self, id: Id) -> Option<usize> {
        let m = self.nodes[id as usize].vars;
        if m != 0 && m & (m - 1) == 0 { Some(m.trailing_zeros() as usize) } else { None }
    }
    pub fn from_tab(&mut self, v: usize, w: u32, tab: Vec<u64>) -> Val {
        debug_assert_eq!(tab.len(), self.vars[v].n);
        if tab.iter().all(|x| *x == tab[0]) {
            return Val::C(tab[0]);
        }
        let tab: Rc<[u64]> = tab.into();
        Val::E(self.tab_node(v, w, tab))
    }
    fn tab_node(&mut self, v: usize, w: u32, tab: Rc<[u64]>) -> Id {
        let key = (v as u32, w, tab);
        if let Some(&i) = self.tabs.get(&key) {
            return i;
        }
        let (v, w, tab) = key;
        let id = self.nodes.len() as Id;
        let lo = *tab.iter().min().unwrap();
        let hi = *tab.iter().max().unwrap();
        self.nodes.push(Node { k: K::Tab, w, a: [0; 3], imm: v as u64, cv: 0, lo, hi, vars: 1 << v, tab: Some(tab.clone()) });
        self.tabs.insert((v, w, tab), id);
        id
    }
    /// value of a single-variable (or constant) node when its variable has index i
    fn at(&self, id: Id, i: usize) -> u128 {
        let n = &self.nodes[id as usize];
        if n.k == K::Const {
            return n.cv;
        }
        if let Some(t) = &n.tab {
            return t[i] as u128;
        }
        let mut x = [0u128; 3];
        let mut kw = [0u32; 3];
        for j in 0..arity(n.k) {
            x[j] = self.at(n.a[j], i);
            kw[j] = self.nodes[n.a[j] as usize].w;
        }
        ev(n.k, n.w, n.imm, kw, x)
    }
    pub fn tab_of(&self, id: Id) -> Option<&Rc<[u64]>> {
        self.nodes[id as usize].tab.as_ref()
    }

    fn mk(&mut self, k: K, w: u32, a: [Id; 3], imm: u64) -> Id {
        let ar = arity(k);
        let mut vars = 0u128;
        for j in 0..ar {
            vars |= self.nodes[a[j] as usize].vars;
        }
        let kw = [self.nodes[a[0] as usize].w, if ar > 1 { self.nodes[a[1] as usize].w } else { 0 }, if ar > 2 { self.nodes[a[2] as usize].w } else { 0 }];
        if vars == 0 {
            let mut x = [0u128; 3];
            for j in 0..ar {
                x[j] = self.nodes[a[j] as usize].cv;
            }
            let r = ev(k, w, imm, kw, x);
            return self.mkc(r, w);
        }
        if vars & (vars - 1) == 0 && w <= 64 {
            let v = vars.trailing_zeros() as usize;
            let n = self.vars[v].n;
            let mut t: Vec<u64> = Vec::with_capacity(n);
            for i in 0..n {
                let mut x = [0u128; 3];
                for j in 0..ar {
                    x[j] = self.at(a[j], i);
                }
                t.push(ev(k, w, imm, kw, x) as u64);
            }
            if t.iter().all(|x| *x == t[0]) {
                return self.mkc(t[0] as u128, w);
            }
            return self.tab_node(v, w, t.into());
        }
        let key = (k, w, a, imm, 0);
        if let Some(&i) = self.hc.get(&key) {
            return i;
        }
        let (lo, hi) = self.range(k, w, a, imm, kw);
        if lo == hi && w <= 64 {
            return self.mkc(lo as u128, w);
        }
        let id = self.nodes.len() as Id;
        self.nodes.push(Node { k, w, a, imm, cv: 0, lo, hi, vars, tab: None });
        self.hc.insert(key, id);
        id
    }
    fn range(&self, k: K, w: u32, a: [Id; 3], imm: u64, kw: [u32; 3]) -> (u64, u64) {
        let full = (0, m64(w));
        if w > 64 {
            return (0, u64::MAX);
        }
        let r = |j: usize| -> (u64, u64) {
            let n = &self.nodes[a[j] as usize];
            (n.lo, n.hi)
        };
        if kw[0] > 64 || kw[1] > 64 {
            return full;
        }
        match k {
            K::Add => {
                let (a, b) = (r(0), r(1));
                match (a.0.checked_add(b.0), a.1.checked_add(b.1)) {
                    (Some(l), Some(h)) if h <= m64(w) => (l, h),
                    _ => full,
                }
            }
            K::Sub => {
                let (a, b) = (r(0), r(1));
                if a.0 >= b.1 { (a.0 - b.1, a.1 - b.0) } else { full }
            }
            K::Mul => {
                let (a, b) = (r(0), r(1));
                match a.1.checked_mul(b.1) {
                    Some(h) if h <= m64(w) => (a.0 * b.0, h),
                    _ => full,
                }
            }
            K::UDiv => {
                let (a, b) = (r(0), r(1));
                if b.0 > 0 { (a.0 / b.1, a.1 / b.0) } else { full }
            }
            K::URem => {
                let (a, b) = (r(0), r(1));
                if b.0 > 0 { (0, a.1.min(b.1 - 1)) } else { full }
            }
            K::And => (0, r(0).1.min(r(1).1)),
            K::Or | K::Xor => {
                let h = r(0).1 | r(1).1;
                let bits = 64 - h.leading_zeros();
                (if k == K::Or { r(0).0.max(r(1).0) } else { 0 }, m64(bits).min(m64(w)))
            }
            K::LShr => (0, r(0).1),
            K::Ite => (r(1).0.min(r2(self, a[2]).0), r(1).1.max(r2(self, a[2]).1)),
            K::Concat => {
                let (h, l) = (r(0), r(1));
                ((h.0 << kw[1]) | l.0, (h.1 << kw[1]) | l.1)
            }
            K::Extract => {
                let (l, h) = r(0);
                if (h >> imm) <= m64(w) { (l >> imm, h >> imm) } else { full }
            }
            K::Eq => {
                let (a, b) = (r(0), r(1));
                if a.1 < b.0 || b.1 < a.0 { (0, 0) } else { full }
            }
            K::Ult => {
                let (a, b) = (r(0), r(1));
                if a.1 < b.0 { (1, 1) } else if a.0 >= b.1 { (0, 0) } else { full }
            }
            K::Ule => {
                let (a, b) = (r(0), r(1));
                if a.1 <= b.0 { (1, 1) } else if a.0 > b.1 { (0, 0) } else { full }
            }
            K::Slt | K::Sle => {
                if let (Some(x), Some(y)) = (self.srange(a[0]), self.srange(a[1])) {
                    if k == K::Slt {
                        if x.1 < y.0 { return (1, 1) }
                        if x.0 >= y.1 { return (0, 0) }
                    } else {
                        if x.1 <= y.0 { return (1, 1) }
                        if x.0 > y.1 { return (0, 0) }
                    }
                }
                full
            }
            _ => full,
        }
    }
    /// signed range of a node (None when unknown); sound w.r.t. wraparound
    pub fn srange(&self, id: Id) -> Option<(i64, i64)> {
        let n = &self.nodes[id as usize];
        if n.w > 64 {
            return None;
        }
        if n.k == K::Const {
            let v = crate::ir::sx(n.cv as u64, n.w);
            return Some((v, v));
        }
        if let Some(t) = &n.tab {
            let mut lo = i64::MAX;
            let mut hi = i64::MIN;
            for x in t.iter() {
                let v = crate::ir::sx(*x, n.w);
                lo = lo.min(v);
                hi = hi.max(v);
            }
            return Some((lo, hi));
        }
        let sgn = m64(n.w) >> 1;
        let fit = |l: i128, h: i128| -> Option<(i64, i64)> {
            if l >= -(sgn as i128) - 1 && h <= sgn as i128 { Some((l as i64, h as i64)) } else { None }
        };
        let viau = if n.hi <= sgn { Some((n.lo as i64, n.hi as i64)) } else { None };
        let s = match n.k {
            K::Add => {
                let (a, b) = (self.srange(n.a[0])?, self.srange(n.a[1])?);
                fit(a.0 as i128 + b.0 as i128, a.1 as i128 + b.1 as i128)
            }
            K::Sub => {
                let (a, b) = (self.srange(n.a[0])?, self.srange(n.a[1])?);
                fit(a.0 as i128 - b.1 as i128, a.1 as i128 - b.0 as i128)
            }
            K::Mul => {
                let (a, b) = (self.srange(n.a[0])?, self.srange(n.a[1])?);
                let c = [a.0 as i128 * b.0 as i128, a.0 as i128 * b.1 as i128, a.1 as i128 * b.0 as i128, a.1 as i128 * b.1 as i128];
                fit(*c.iter().min().unwrap(), *c.iter().max().unwrap())
            }
            K::Ite => {
                let (a, b) = (self.srange(n.a[1])?, self.srange(n.a[2])?);
                Some((a.0.min(b.0), a.1.max(b.1)))
            }
            K::SExt => self.srange(n.a[0]),
            K::SDiv => {
                let (a, b) = (self.srange(n.a[0])?, self.srange(n.a[1])?);
                if b.0 == b.1 && b.0 > 0 { Some((a.0 / b.0, a.1 / b.0)) } else { None }
            }
            K::Extract if n.imm == 0 => {
                let a = self.srange(n.a[0])?;
                fit(a.0 as i128, a.1 as i128)
            }
            _ => None,
        };
        s.or(viau)
    }

    // ---------- smart constructors ----------
    pub fn is_c(&self, id: Id) -> Option<u128> {
        let n = &self.nodes[id as usize];
        if n.k == K::Const { Some(n.cv) } else { None }
    }
    fn w(&self, id: Id) -> u32 {
        self.nodes[id as usize].w
    }
    fn multi(&self, a: Id, b: Id) -> bool {
        let v = self.nodes[a as usize].vars | self.nodes[b as usize].vars;
        v & (v.wrapping_sub(1)) != 0
    }
    pub fn extract(&mut self, a: Id, lo: u32, w: u32) -> Id {
        let n = &self.nodes[a as usize];
        if lo == 0 && w == n.w {
            return a;
        }
        let vars = n.vars;
        if (vars & vars.wrapping_sub(1) == 0) && w <= 64 {
            return self.mk(K::Extract, w, [a, 0, 0], lo as u64);
        }
        let (k, ka, imm) = (n.k, n.a, n.imm);
        match k {
            K::Concat => {
                let (h, l) = (ka[0], ka[1]);
                let lw = self.w(l);
                if lo >= lw {
                    return self.extract(h, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(l, lo, w);
                }
                let x = self.extract(h, 0, lo + w - lw);
                let y = self.extract(l, lo, lw - lo);
                return self.concat(x, y);
            }
            K::Extract => return self.extract(ka[0], lo + imm as u32, w),
            K::And | K::Or | K::Xor => {
                let x = self.extract(ka[0], lo, w);
                let y = self.extract(ka[1], lo, w);
                return self.bitop(k, x, y);
            }
            K::Add | K::Sub | K::Mul if lo == 0 => {
                let x = self.extract(ka[0], 0, w);
                let y = self.extract(ka[1], 0, w);
                return self.arith(k, x, y);
            }
            K::SExt if lo + w <= self.w(ka[0]) => return self.extract(ka[0], lo, w),
            K::Ite => {
                if self.is_c(ka[1]).is_some() || self.is_c(ka[2]).is_some() || w == 1 {
                    let x = self.extract(ka[1], lo, w);
                    let y = self.extract(ka[2], lo, w);
                    return self.mkite(ka[0], x, y);
                }
            }
            _ => {}
        }
        self.mk(K::Extract, w, [a, 0, 0], lo as u64)
    }
    pub fn concat(&mut self, h: Id, l: Id) -> Id {
        let w = self.w(h) + self.w(l);
        // merge adjacent extracts
        let (hn, ln) = (&self.nodes[h as usize], &self.nodes[l as usize]);
        if hn.k == K::Extract && ln.k == K::Extract && hn.a[0] == ln.a[0] && hn.imm == ln.imm + ln.w as u64 {
            let (b, lo) = (ln.a[0], ln.imm as u32);
            return self.extract(b, lo, w);
        }
        if ln.k == K::Concat {
            // right-assoc: keep; merge of h with top of l
            let (lh, ll) = (ln.a[0], ln.a[1]);
            let lhn = &self.nodes[lh as usize];
            if hn.k == K::Extract && lhn.k == K::Extract && hn.a[0] == lhn.a[0] && hn.imm == lhn.imm + lhn.w as u64 {
                let x = self.concat(h, lh);
                return self.concat(x, ll);
            }
            if hn.k == K::Const && lhn.k == K::Const {
                let c = (hn.cv << lhn.w) | lhn.cv;
                let cw = hn.w + lhn.w;
                let x = self.mkc(c, cw);
                return self.concat(x, ll);
            }
            if self.single(h).is_some() && self.nodes[h as usize].vars == self.nodes[lh as usize].vars && self.w(h) + self.w(lh) <= 64 {
                let x = self.mk(K::Concat, self.w(h) + self.w(lh), [h, lh, 0], 0);
                return self.concat(x, ll);
            }
        }
        self.mk(K::Concat, w, [h, l, 0], 0)
    }
    pub fn zext(&mut self, a: Id, w: u32) -> Id {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let z = self.mkc(0, w - aw);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: Id, w: u32) -> Id {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let n = &self.nodes[a as usize];
        if aw <= 64 && n.hi <= m64(aw) >> 1 {
            return self.zext(a, w);
        }
        self.mk(K::SExt, w, [a, 0, 0], 0)
    }
    /// split position shared by both operands' concats (for bitwise push-down)
    fn split_pos(&self, a: Id, b: Id) -> Option<u32> {
        let (x, y) = (&self.nodes[a as usize], &self.nodes[b as usize]);
        match (x.k, y.k) {
            (K::Concat, K::Concat) => Some(self.w(x.a[1]).max(self.w(y.a[1]))).or(None),
            (K::Concat, _) if y.k == K::Const || y.tab.is_none() => Some(self.w(x.a[1])),
            (_, K::Concat) if x.k == K::Const || x.tab.is_none() => Some(self.w(y.a[1])),
            _ => None,
        }
    }
    fn bitop(&mut self, k: K, a: Id, b: Id) -> Id {
        let w = self.w(a);
        let (a, b) = if self.is_c(a).is_some() { (b, a) } else { (a, b) };
        if let Some(c) = self.is_c(b) {
            match k {
                K::And if c == 0 => return b,
                K::And if c == msk(w) => return a,
                K::Or | K::Xor if c == 0 => return a,
                K::Or if c == msk(w) => return b,
                _ => {}
            }
        }
        if a == b {
            return match k {
                K::And | K::Or => a,
                _ => self.mkc(0, w),
            };
        }
        if self.multi(a, b) || w > 64 {
            let ca = self.is_c(b).is_some();
            if (ca && self.nodes[a as usize].k == K::Concat) || (self.nodes[a as usize].k == K::Concat && self.nodes[b as usize].k == K::Concat) {
                if let Some(p) = self.split_pos(a, b) {
                    let (ah, al) = (self.extract(a, p, w - p), self.extract(a, 0, p));
                    let (bh, bl) = (self.extract(b, p, w - p), self.extract(b, 0, p));
                    let h = self.bitop(k, ah, bh);
                    let l = self.bitop(k, al, bl);
                    return self.concat(h, l);
                }
            }
            // double negation
            if k == K::Xor && w == 1 {
                let n = &self.nodes[a as usize];
                if n.k == K::Xor && self.is_c(b) == Some(1) && self.is_c(n.a[1]) == Some(1) {
                    return n.a[0];
                }
            }
            let (a, b) = if a > b && self.is_c(b).is_none() { (b, a) } else { (a, b) };
            return self.mk(k, w, [a, b, 0], 0);
        }
        self.mk(k, w, [a, b, 0], 0)
    }
    fn arith(&mut self, k: K, a: Id, b: Id) -> Id {
        let w = self.w(a);
        let (mut a, mut b) = (a, b);
        if matches!(k, K::Add | K::Mul) && (self.is_c(a).is_some() || (self.is_c(b).is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(c) = self.is_c(b) {
            match k {
                K::Add | K::Sub if c == 0 => return a,
                K::Mul if c == 1 => return a,
                K::Mul if c == 0 => return b,
                K::UDiv | K::SDiv if c == 1 => return a,
                _ => {}
            }
            if w <= 64 && self.is_c(a).is_none() && self.single(a).is_none() {
                // sub by const -> add
                if k == K::Sub {
                    let nb = self.mkc((0u128).wrapping_sub(c), w);
                    return self.arith(K::Add, a, nb);
                }
                if k == K::Add {
                    let n = &self.nodes[a as usize];
                    if n.k == K::Add {
                        if let Some(c2) = self.is_c(n.a[1]) {
                            let x = n.a[0];
                            let nb = self.mkc(c.wrapping_add(c2), w);
                            return self.arith(K::Add, x, nb);
                        }
                    }
                }
                // unsigned div/rem of (x*c + r)
                if matches!(k, K::UDiv | K::SDiv | K::URem | K::SRem) && c > 0 && c < (1 << 62) {
                    if let Some(r) = self.divrem(k, a, c as u64, w) {
                        return r;
                    }
                }
            }
        }
        if a == b {
            if k == K::Sub {
                return self.mkc(0, w);
            }
        }
        if matches!(k, K::SDiv | K::SRem) && w <= 64 && self.multi(a, b) {
            let h = m64(w) >> 1;
            if self.nodes[a as usize].hi <= h && self.nodes[b as usize].hi <= h {
                let k2 = if k == K::SDiv { K::UDiv } else { K::URem };
                return self.arith(k2, a, b);
            }
        }
        // narrow mul/div when operands are small
        if matches!(k, K::Mul | K::UDiv | K::URem) && w <= 64 && w > 8 && self.multi(a, b) {
            let (ah, bh) = (self.nodes[a as usize].hi, self.nodes[b as usize].hi);
            let need = match k {
                K::Mul => match ah.checked_mul(bh) {
                    Some(p) => 64 - p.leading_zeros(),
                    None => 64,
                },
                _ => 64 - (ah | bh).leading_zeros(),
            }
            .max(1);
            if need + 2 <= w {
                let x = self.extract(a, 0, need);
                let y = self.extract(b, 0, need);
                let r = self.mk(k, need, [x, y, 0], 0);
                return self.zext(r, w);
            }
        }
        self.mk(k, w, [a, b, 0], 0)
    }
    fn divrem(&mut self, k: K, a: Id, c: u64, w: u32) -> Option<Id> {
        // a = x*m + r with m % c == 0 and r constant or bounded by c, no wrap
        let sgn = m64(w) >> 1;
        if self.nodes[a as usize].hi > sgn {
            return None;
        }
        let n = &self.nodes[a as usize];
        if n.k != K::Add {
            return None;
        }
        let (x, y) = (n.a[0], n.a[1]);
        for (x, y) in [(x, y), (y, x)] {
            let xn = &self.nodes[x as usize];
            let yn = &self.nodes[y as usize];
            // no wrap in the sum
            if xn.hi.checked_add(yn.hi)? > sgn {
                return None;
            }
            if yn.hi >= c {
                continue;
            }
            let mult = if xn.k == K::Mul { self.is_c(xn.a[1]) } else if let Some(t) = &xn.tab { if t.iter().all(|v| v % c == 0) { Some(c as u128) } else { None } } else { None };
            if let Some(m) = mult {
                if m as u64 % c == 0 {
                    return Some(match k {
                        K::URem | K::SRem => y,
                        _ => {
                            let cc = self.mkc(c as u128, w);
                            self.mk(K::UDiv, w, [x, cc, 0], 0)
                        }
                    });
                }
            }
        }
        None
    }
    pub fn mkite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(v) = self.is_c(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            if let (Some(x), Some(y)) = (self.is_c(a), self.is_c(b)) {
                return if x == 1 && y == 0 { c } else { self.not(c) };
            }
            if let Some(x) = self.is_c(a) {
                return if x == 1 { self.bitop(K::Or, c, b) } else { let n = self.not(c); self.bitop(K::And, n, b) };
            }
            if let Some(y) = self.is_c(b) {
                return if y == 0 { self.bitop(K::And, c, a) } else { let n = self.not(c); self.bitop(K::Or, n, a) };
            }
        }
        self.mk(K::Ite, w, [c, a, b], 0)
    }
    pub fn not(&mut self, c: Id) -> Id {
        let one = self.mkc(1, 1);
        self.bitop(K::Xor, c, one)
    }
    pub fn and1(&mut self, a: Id, b: Id) -> Id {
        self.bitop(K::And, a, b)
    }
    pub fn eq(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return self.mkc(1, 1);
        }
        let (a, b) = if self.is_c(a).is_some() || (self.is_c(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if !self.multi(a, b) && w <= 64 {
            return self.mk(K::Eq, 1, [a, b, 0], 0);
        }
        if w == 1 {
            if let Some(c) = self.is_c(b) {
                return if c == 1 { a } else { self.not(a) };
            }
        }
        let an = &self.nodes[a as usize];
        if an.k == K::Concat && (self.is_c(b).is_some() || self.nodes[b as usize].k == K::Concat) {
            let p = self.w(an.a[1]);
            let (ah, al) = (an.a[0], an.a[1]);
            let bh = self.extract(b, p, w - p);
            let bl = self.extract(b, 0, p);
            let x = self.eq(ah, bh);
            let y = self.eq(al, bl);
            return self.and1(x, y);
        }
        if an.k == K::Ite && self.is_c(b).is_some() {
            let (c, x, y) = (an.a[0], an.a[1], an.a[2]);
            if self.is_c(x).is_some() || self.is_c(y).is_some() {
                let ex = self.eq(x, b);
                let ey = self.eq(y, b);
                return self.mkite(c, ex, ey);
            }
        }
        if an.k == K::Add {
            if let (Some(c1), Some(c2)) = (self.is_c(an.a[1]), self.is_c(b)) {
                let x = an.a[0];
                let nb = self.mkc(c2.wrapping_sub(c1), w);
                return self.eq(x, nb);
            }
        }
        self.mk(K::Eq, 1, [a, b, 0], 0)
    }
    fn lt(&mut self, k: K, a: Id, b: Id) -> Id {
        if a == b {
            return self.mkc(matches!(k, K::Ule | K::Sle) as u128, 1);
        }
        if matches!(k, K::Slt | K::Sle) && self.multi(a, b) {
            let w = self.w(a);
            if w <= 64 {
                let h = m64(w) >> 1;
                if self.nodes[a as usize].hi <= h && self.nodes[b as usize].hi <= h {
                    return self.lt(if k == K::Slt { K::Ult } else { K::Ule }, a, b);
                }
            }
        }
        // strip common zero-extension
        if matches!(k, K::Ult | K::Ule) && self.multi(a, b) {
            let w = self.w(a);
            if w <= 64 && w > 8 {
                let h = self.nodes[a as usize].hi | self.nodes[b as usize].hi;
                let need = (64 - h.leading_zeros()).max(1);
                if need < w {
                    let x = self.extract(a, 0, need);
                    let y = self.extract(b, 0, need);
                    return self.mk(k, 1, [x, y, 0], 0);
                }
            }
        }
        self.mk(k, 1, [a, b, 0], 0)
    }

    // ---------- Val level ----------
    pub fn bin(&mut self, o: BinOp, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return Val::C(cbin(o, w, *x, *y));
        }
        let (x, y) = (self.id(a, w), self.id(b, w));
        let k = match o {
            BinOp::Add => K::Add,
            BinOp::Sub => K::Sub,
            BinOp::Mul => K::Mul,
            BinOp::UDiv => K::UDiv,
            BinOp::SDiv => K::SDiv,
            BinOp::URem => K::URem,
            BinOp::SRem => K::SRem,
            BinOp::And => K::And,
            BinOp::Or => K::Or,
            BinOp::Xor => K::Xor,
            BinOp::Shl => K::Shl,
            BinOp::LShr => K::LShr,
            BinOp::AShr => K::AShr,
        };
        let r = match k {
            K::And | K::Or | K::Xor => self.bitop(k, x, y),
            K::Shl | K::LShr | K::AShr => {
                if let (Some(s), true) = (self.is_c(y), self.multi(x, x) || w > 64) {
                    let s = s as u32;
                    if s == 0 {
                        x
                    } else if s >= w {
                        self.mkc(0, w)
                    } else if k == K::Shl {
                        let l = self.extract(x, 0, w - s);
                        let z = self.mkc(0, s);
                        self.concat(l, z)
                    } else if k == K::LShr {
                        let h = self.extract(x, s, w - s);
                        self.zext(h, w)
                    } else {
                        let h = self.extract(x, s, w - s);
                        self.sext(h, w)
                    }
                } else {
                    self.mk(k, w, [x, y, 0], 0)
                }
            }
            _ => self.arith(k, x, y),
        };
        self.val(r)
    }
    pub fn cmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return Val::C(ccmp(p, w, *x, *y) as u64);
        }
        let (x, y) = (self.id(a, w), self.id(b, w));
        let r = match p {
            Pred::Eq => self.eq(x, y),
            Pred::Ne => {
                let e = self.eq(x, y);
                self.not(e)
            }
            Pred::Ult => self.lt(K::Ult, x, y),
            Pred::Ule => self.lt(K::Ule, x, y),
            Pred::Ugt => self.lt(K::Ult, y, x),
            Pred::Uge => self.lt(K::Ule, y, x),
            Pred::Slt => self.lt(K::Slt, x, y),
            Pred::Sle => self.lt(K::Sle, x, y),
            Pred::Sgt => self.lt(K::Slt, y, x),
            Pred::Sge => self.lt(K::Sle, y, x),
        };
        self.val(r)
    }
    pub fn ite(&mut self, c: &Val, a: &Val, b: &Val, w: u32) -> Val {
        match c {
            Val::C(0) => b.clone(),
            Val::C(_) => a.clone(),
            _ => {
                let ci = self.id(c, 1);
                let (x, y) = (self.id(a, w), self.id(b, w));
                let r = self.mkite(ci, x, y);
                self.val(r)
            }
        }
    }
    pub fn vzext(&mut self, a: &Val, fw: u32, tw: u32) -> Val {
        match a {
            Val::C(c) if tw <= 64 => Val::C(*c),
            _ => {
                let x = self.id(a, fw);
                let r = self.zext(x, tw);
                self.val(r)
            }
        }
    }
    pub fn vsext(&mut self, a: &Val, fw: u32, tw: u32) -> Val {
        match a {
            Val::C(c) if tw <= 64 => Val::C(crate::ir::sx(*c, fw) as u64 & m64(tw)),
            _ => {
                let x = self.id(a, fw);
                let r = self.sext(x, tw);
                self.val(r)
            }
        }
    }
    pub fn vextract(&mut self, a: &Val, fw: u32, lo: u32, w: u32) -> Val {
        match a {
            Val::C(c) => Val::C(if lo >= 64 { 0 } else { (*c >> lo) & m64(w) }),
            _ => {
                let x = self.id(a, fw);
                let r = self.extract(x, lo, w);
                self.val(r)
            }
        }
    }
    pub fn vconcat(&mut self, h: &Val, hw: u32, l: &Val, lw: u32) -> Val {
        if let (Val::C(x), Val::C(y)) = (h, l) {
            if hw + lw <= 64 {
                return Val::C((*x << lw) | *y);
            }
        }
        let (x, y) = (self.id(h, hw), self.id(l, lw));
        let r = self.concat(x, y);
        self.val(r)
    }

    // ---------- evaluation ----------
    pub fn eval(&self, id: Id, model: &[u16], memo: &mut HashMap<Id, u128>) -> u128 {
        let n = &self.nodes[id as usize];
        if n.k == K::Const {
            return n.cv;
        }
        if let Some(t) = &n.tab {
            let v = n.vars.trailing_zeros() as usize;
            return t[model[v] as usize] as u128;
        }
        if let Some(v) = memo.get(&id) {
            return *v;
        }
        let mut x = [0u128; 3];
        let mut kw = [0u32; 3];
        for j in 0..arity(n.k) {
            x[j] = self.eval(n.a[j], model, memo);
            kw[j] = self.nodes[n.a[j] as usize].w;
        }
        let r = ev(n.k, n.w, n.imm, kw, x);
        memo.insert(id, r);
        r
    }
    pub fn eval1(&self, id: Id, model: &[u16]) -> u128 {
        let mut m = HashMap::new();
        self.eval(id, model, &mut m)
    }

    // ---------- floats ----------
    pub fn fconst(&self, x: f64) -> Option<F> {
        if let Some((num, q, ex)) = rat_of(x) {
            return Some(F { num: Val::C(num as u64), lo: num, hi: num, p: 1, q, kind: if ex { FK::Exact } else { FK::CR } });
        }
        if !x.is_finite() || x.abs() > 1e12 {
            return None;
        }
        let tol = x.abs() * 2f64.powi(-50);
        for q in (3..=400u64).chain((3..=400).map(|x| x * 100)).chain((3..=400).map(|x| x * 100000000)) {
            let y = (x * q as f64).round();
            let d = (y / q as f64 - x).abs();
            if y.abs() < 9007199254740992.0 && d <= tol {
                return Some(F { num: Val::C(y as i64 as u64), lo: y as i64, hi: y as i64, p: 1, q, kind: FK::Err(d + x.abs() * 2f64.powi(-52)) });
            }
        }
        if x.abs() < 1e-5 {
            // rounding noise and tolerances: a coarse value with its error
            let y = (x * 1e8).round();
            return Some(F { num: Val::C(y as i64 as u64), lo: y as i64, hi: y as i64, p: 1, q: 100000000, kind: FK::Err((y / 1e8 - x).abs() + 1e-20) });
        }
        None
    }
    pub fn fann(&mut self, id: Id) -> Option<F> {
        if let Some(f) = self.fann.get(&id) {
            return f.clone();
        }
        let r = self.fann0(id);
        if let Some(F { num: Val::E(n), lo, hi, .. }) = &r {
            let e = self.hint.entry(*n).or_insert((*lo, *hi));
            *e = (e.0.max(*lo), e.1.min(*hi));
        }
        self.fann.insert(id, r.clone());
        r
    }
    pub fn set_fann(&mut self, id: Id, f: F) {
        self.fann.insert(id, Some(f));
    }
    fn fann0(&mut self, id: Id) -> Option<F> {
        let n = &self.nodes[id as usize];
        if n.w != 64 {
            return None;
        }
        if n.k == K::Const {
            return self.fconst(f(n.cv));
        }
        if let Some(t) = n.tab.clone() {
            let v = n.vars.trailing_zeros() as usize;
            let mut best = None;
            let xs: Vec<f64> = t.iter().map(|b| f64::from_bits(*b)).collect();
            let big = xs.iter().fold(0f64, |m, x| m.max(x.abs()));
            if xs.iter().any(|x| !x.is_finite()) || big > 1e12 {
                return None;
            }
            let cand: Vec<u64> = [1u64, 2, 4, 8, 16, 32, 64, 256, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000]
                .into_iter()
                .chain(3..=400)
                .chain((3..=400).map(|x| x * 100))
                .collect();
            let tol = big * 2f64.powi(-50);
            'p: for exact in [true, false] {
                'q: for q in cand.iter().cloned() {
                    let mut nums = Vec::with_capacity(xs.len());
                    let mut err = 0f64;
                    for x in xs.iter() {
                        let y = (x * q as f64).round();
                        if y.abs() >= 9007199254740992.0 {
                            continue 'q;
                        }
                        let d = (y / q as f64 - x).abs();
                        if d != 0.0 {
                            if exact || d > tol {
                                continue 'q;
                            }
                            err = err.max(d);
                        }
                        nums.push(y as i64);
                    }
                    best = Some((q, nums, if exact { 0.0 } else { err + big * 2f64.powi(-52) }));
                    break 'p;
                }
            }
            if best.is_none() && big < 1e-5 {
                let nums: Vec<i64> = xs.iter().map(|x| (x * 1e8).round() as i64).collect();
                let err = xs.iter().fold(0f64, |m, x| m.max(((x * 1e8).round() / 1e8 - x).abs()));
                best = Some((100000000, nums, err + 1e-20));
            }
            let (q, nums, err) = best?;
            let lo = *nums.iter().min().unwrap();
            let hi = *nums.iter().max().unwrap();
            let num = self.from_tab(v, 64, nums.iter().map(|x| *x as u64).collect());
            return Some(F { num, lo, hi, p: 1, q, kind: if err > 0.0 { FK::Err(err) } else if q.is_power_of_two() { FK::Exact } else { FK::CR } });
        }
        let (k, a) = (n.k, n.a);
        match k {
            K::FAdd | K::FSub => {
                let x = self.fann(a[0])?;
                let mut y = self.fann(a[1])?;
                if k == K::FSub {
                    y = self.f_neg(&y);
                }
                self.f_add(&x, &y)
            }
            K::FMul => {
                let x = self.fann(a[0])?;
                let y = self.fann(a[1])?;
                self.f_mul(&x, &y)
            }
            K::FDiv => {
                let x = self.fann(a[0])?;
                let y = self.fann(a[1])?;
                self.f_div(&x, &y)
            }
            K::FNeg => {
                let x = self.fann(a[0])?;
                Some(self.f_neg(&x))
            }
            K::FAbs => {
                let x = self.fann(a[0])?;
                let y = self.f_neg(&x);
                let c = self.cmp(Pred::Slt, 64, &x.num, &Val::C(0));
                let num = self.ite(&c, &y.num, &x.num, 64);
                Some(F { num, lo: 0, hi: x.lo.abs().max(x.hi.abs()), ..x })
            }
            K::FMin | K::FMax | K::Ite => {
                let (xa, ya) = if k == K::Ite { (a[1], a[2]) } else { (a[0], a[1]) };
                let x = self.fann(xa)?;
                let y = self.fann(ya)?;
                let (xn, yn, p, q, b) = self.common(&x, &y)?;
                let c = if k == K::Ite { self.val(a[0]) } else { self.cmp(Pred::Slt, 64, &xn, &yn) };
                let num = if k == K::FMax { self.ite(&c, &yn, &xn, 64) } else { self.ite(&c, &xn, &yn, 64) };
                let (lo, hi) = match k {
                    K::FMin => (b.0.min(b.2), b.1.min(b.3)),
                    K::FMax => (b.0.max(b.2), b.1.max(b.3)),
                    _ => (b.0.min(b.2), b.1.max(b.3)),
                };
                let kind = match (&x.kind, &y.kind) {
                    (FK::Exact, FK::Exact) => FK::Exact,
                    (FK::Err(_), _) | (_, FK::Err(_)) => FK::Err(self.f_err(&x).max(self.f_err(&y))),
                    _ => FK::CR,
                };
                Some(F { num, lo, hi, p, q, kind })
            }
            K::SiToFp | K::UiToFp => {
                let kw = self.w(a[0]);
                let (lo, hi) = if k == K::SiToFp {
                    self.srange(a[0])?
                } else {
                    let n = &self.nodes[a[0] as usize];
                    if n.hi > 1 << 52 {
                        return None;
                    }
                    (n.lo as i64, n.hi as i64)
                };
                if lo < -(1 << 53) || hi > 1 << 53 {
                    return None;
                }
                let x = self.val(a[0]);
                let num = if k == K::SiToFp { self.vsext(&x, kw, 64) } else { self.vzext(&x, kw, 64) };
                Some(F { num, lo, hi, p: 1, q: 1, kind: FK::Exact })
            }
            K::FRound => {
                let x = self.fann(a[0])?;
                self.f_round(&x).map(|r| r.0)
            }
            _ => None,
        }
    }
    pub fn f_max(&self, x: &F) -> f64 {
        (x.lo.unsigned_abs().max(x.hi.unsigned_abs())) as f64 * (x.p as f64) / (x.q as f64)
    }
    pub fn f_err(&self, x: &F) -> f64 {
        match x.kind {
            FK::Exact => 0.0,
            FK::CR => self.f_max(x) * 2f64.powi(-53),
            FK::Err(e) => e,
        }
    }
    /// both numerators over a common scale p/q; bounds (xlo,xhi,ylo,yhi)
    pub fn common(&mut self, x: &F, y: &F) -> Option<(Val, Val, u64, u64, (i64, i64, i64, i64))> {
        let l = x.q as u128 / gcd(x.q as u128, y.q as u128) * y.q as u128;
        let mx = x.p as u128 * (l / x.q as u128);
        let my = y.p as u128 * (l / y.q as u128);
        // zero operands do not constrain the scale
        let (mx, my) = (mx, my);
        let g = if x.lo == 0 && x.hi == 0 { my } else if y.lo == 0 && y.hi == 0 { mx } else { gcd(mx, my) };
        let (sx, sy) = (if x.lo == 0 && x.hi == 0 { 1 } else { mx / g }, if y.lo == 0 && y.hi == 0 { 1 } else { my / g });
        let lim = 1i128 << 61;
        let b = [x.lo as i128 * sx as i128, x.hi as i128 * sx as i128, y.lo as i128 * sy as i128, y.hi as i128 * sy as i128];
        if sx > 1 << 50 || sy > 1 << 50 || b.iter().any(|v| v.abs() > lim) {
            return None;
        }
        let r = gcd(g, l);
        let (p, q) = (g / r, l / r);
        if p > 1 << 62 || q > 1 << 62 {
            return None;
        }
        let xn = self.bin(BinOp::Mul, 64, &x.num, &Val::C(sx as u64));
        let yn = self.bin(BinOp::Mul, 64, &y.num, &Val::C(sy as u64));
        Some((xn, yn, p as u64, q as u64, (b[0] as i64, b[1] as i64, b[2] as i64, b[3] as i64)))
    }
    fn f_neg(&mut self, x: &F) -> F {
        let num = self.bin(BinOp::Sub, 64, &Val::C(0), &x.num);
        F { num, lo: -x.hi, hi: -x.lo, ..x.clone() }
    }
    fn finish(&self, num: Val, lo: i64, hi: i64, p: u64, q: u64, all_exact: bool, err_in: f64) -> F {
        let m = lo.unsigned_abs().max(hi.unsigned_abs()) as f64 * p as f64;
        let kind = if all_exact {
            if q.is_power_of_two() && q <= 1 << 40 && m < 9007199254740992.0 { FK::Exact } else { FK::CR }
        } else {
            FK::Err(err_in + m / q as f64 * 2f64.powi(-52))
        };
        F { num, lo, hi, p, q, kind }
    }
    pub fn f_add(&mut self, x: &F, y: &F) -> Option<F> {
        if x.lo == 0 && x.hi == 0 && self.f_err(x) == 0.0 {
            return Some(y.clone());
        }
        if y.lo == 0 && y.hi == 0 && self.f_err(y) == 0.0 {
            return Some(x.clone());
        }
        let Some((xn, yn, p, q, b)) = self.common(x, y) else {
            // too fine a scale: collapse an operand that hardly varies
            let (fx, fy) = (self.f_width(x), self.f_width(y));
            if fx.min(fy) > 1e-6 {
                return None;
            }
            let (c, o) = if fx < fy { (self.collapse(x)?, y.clone()) } else { (self.collapse(y)?, x.clone()) };
            let (xn, yn, p, q, b) = self.common(&c, &o)?;
            let num = self.bin(BinOp::Add, 64, &xn, &yn);
            let e = self.f_err(&c) + self.f_err(&o);
            return Some(self.finish(num, b.0 + b.2, b.1 + b.3, p, q, false, e));
        };
        let num = self.bin(BinOp::Add, 64, &xn, &yn);
        let ex = matches!((&x.kind, &y.kind), (FK::Exact, FK::Exact));
        let e = self.f_err(x) + self.f_err(y);
        Some(self.finish(num, b.0 + b.2, b.1 + b.3, p, q, ex, e))
    }
    fn f_width(&self, x: &F) -> f64 {
        (x.hi as f64 - x.lo as f64) * x.p as f64 / x.q as f64
    }
    /// a constant with an error bound that covers the whole range of x
    fn collapse(&self, x: &F) -> Option<F> {
        let (l, h) = (x.lo as f64 * x.p as f64 / x.q as f64, x.hi as f64 * x.p as f64 / x.q as f64);
        self.konst(l, h, self.f_err(x))
    }
    fn konst(&self, l: f64, h: f64, err: f64) -> Option<F> {
        let (l, h) = (l.min(h), l.max(h));
        let mid = ((l + h) / 2.0 * 1e12).round();
        if mid.abs() > 1e15 {
            return None;
        }
        let e = ((h - l) / 2.0 + 1e-12 + err) * 1.0001 + (l.abs() + h.abs()) * 1e-15;
        Some(F { num: Val::C(mid as i64 as u64), lo: mid as i64, hi: mid as i64, p: 1, q: 1_000_000_000_000, kind: FK::Err(e) })
    }
    fn f_mul(&mut self, x: &F, y: &F) -> Option<F> {
        if let Some(r) = self.f_mul0(x, y) {
            return Some(r);
        }
        let b = |v: i64, f: &F| v as f64 * f.p as f64 / f.q as f64;
        let c = [b(x.lo, x) * b(y.lo, y), b(x.lo, x) * b(y.hi, y), b(x.hi, x) * b(y.lo, y), b(x.hi, x) * b(y.hi, y)];
        let (l, h) = (c.iter().cloned().fold(f64::MAX, f64::min), c.iter().cloned().fold(f64::MIN, f64::max));
        if h - l > 1e-6 {
            return None;
        }
        let e = self.f_err(x) * self.f_max(y) + self.f_err(y) * self.f_max(x) + self.f_err(x) * self.f_err(y);
        self.konst(l, h, e * 1.01)
    }
    fn f_mul0(&mut self, x: &F, y: &F) -> Option<F> {
        let (x, y) = if x.lo == x.hi { (y, x) } else { (x, y) };
        let ex = matches!((&x.kind, &y.kind), (FK::Exact, FK::Exact));
        let e = self.f_err(x) * self.f_max(y) + self.f_err(y) * self.f_max(x) + self.f_err(x) * self.f_err(y);
        let c = [x.lo as i128 * y.lo as i128, x.lo as i128 * y.hi as i128, x.hi as i128 * y.lo as i128, x.hi as i128 * y.hi as i128];
        let (num, lo, hi, p, q);
        if y.lo == y.hi {
            let s = y.lo;
            let pp = x.p as u128 * y.p as u128 * s.unsigned_abs() as u128;
            let qq = x.q as u128 * y.q as u128;
            if s == 0 {
                return self.fconst(0.0);
            }
            let g = gcd(pp, qq);
            p = pp / g;
            q = qq / g;
            if s < 0 {
                let nx = self.f_neg(x);
                num = nx.num;
                lo = nx.lo;
                hi = nx.hi;
            } else {
                num = x.num.clone();
                lo = x.lo;
                hi = x.hi;
            }
        } else {
            let l = *c.iter().min().unwrap();
            let h = *c.iter().max().unwrap();
            if l.abs() > 1 << 61 || h.abs() > 1 << 61 {
                return None;
            }
            let pp = x.p as u128 * y.p as u128;
            let qq = x.q as u128 * y.q as u128;
            let g = gcd(pp, qq);
            p = pp / g;
            q = qq / g;
            num = self.smul(&x.num, (x.lo, x.hi), &y.num, (y.lo, y.hi));
            lo = l as i64;
            hi = h as i64;
        }
        if p > 1 << 61 || q > 1 << 61 {
            return None;
        }
        Some(self.finish(num, lo, hi, p as u64, q as u64, ex, e))
    }
    /// a value known to lie in 0..=hi: noted as such when it has an integer translation,
    /// narrowed to that many bits otherwise
    fn narrow(&mut self, a: &Val, bits: u32, hi: i64) -> Val {
        if let Val::E(id) = a {
            let e = self.hint.entry(*id).or_insert((0, hi));
            *e = (e.0.max(0), e.1.min(hi));
            self.inum.remove(id);
            if let Some((_, l, h)) = self.i_signed(*id) {
                if l >= 0 && h <= hi as i128 {
                    return a.clone();
                }
            }
        }
        let t = self.vextract(a, 64, 0, bits);
        self.vzext(&t, bits, 64)
    }
    /// signed product of bounded numbers, sign-split so that the multiplier stays narrow
    fn smul(&mut self, a: &Val, ar: (i64, i64), b: &Val, br: (i64, i64)) -> Val {
        let mag = |s: &mut Self, v: &Val, r: (i64, i64)| -> (Val, Val) {
            if r.0 >= 0 {
                return (v.clone(), Val::C(0));
            }
            let neg = s.cmp(Pred::Slt, 64, v, &Val::C(0));
            let nv = s.bin(BinOp::Sub, 64, &Val::C(0), v);
            let m = s.ite(&neg, &nv, v, 64);
            // bound the magnitude structurally
            let hi = r.0.unsigned_abs().max(r.1.unsigned_abs());
            let bits = (64 - hi.leading_zeros()).max(1);
            (s.narrow(&m, bits, hi as i64), neg)
        };
        let (ma, na) = mag(self, a, ar);
        let (mb, nb) = mag(self, b, br);
        let p = self.bin(BinOp::Mul, 64, &ma, &mb);
        let neg = self.bin(BinOp::Xor, 1, &na, &nb);
        let np = self.bin(BinOp::Sub, 64, &Val::C(0), &p);
        self.ite(&neg, &np, &p, 64)
    }
    fn f_div(&mut self, x: &F, y: &F) -> Option<F> {
        if y.lo != y.hi || y.lo == 0 {
            return None;
        }
        let ex = matches!((&x.kind, &y.kind), (FK::Exact, FK::Exact));
        let ym = self.f_max(y);
        let e = self.f_err(x) / ym + self.f_max(x) * self.f_err(y) / (ym * ym) * 1.01;
        let s = y.lo;
        let pp = x.p as u128 * y.q as u128;
        let qq = x.q as u128 * y.p as u128 * s.unsigned_abs() as u128;
        let g = gcd(pp, qq);
        let (p, q) = (pp / g, qq / g);
        if p > 1 << 61 || q > 1 << 61 {
            return None;
        }
        let xx = if s < 0 { self.f_neg(x) } else { x.clone() };
        Some(self.finish(xx.num, xx.lo, xx.hi, p as u64, q as u64, ex, e))
    }
    /// rounding to nearest integer; second result: condition under which the outcome is not determined
    pub fn f_round(&mut self, x: &F) -> Option<(F, Option<Val>)> {
        let mut x = x.clone();
        if x.lo == x.hi && matches!(x.num, Val::C(_)) {
            let n = x.lo as i128 * x.p as i128;
            let g = gcd(n.unsigned_abs(), x.q as u128).max(1);
            if (n / g as i128).abs() < 1 << 62 {
                let m = (n / g as i128) as i64;
                x = F { num: Val::C(m as u64), lo: m, hi: m, p: 1, q: (x.q as u128 / g) as u64, kind: x.kind };
            }
        }
        let x = &x;
        let m = self.f_max(x);
        if m >= 4503599627370496.0 {
            return None;
        }
        let e = self.f_err(x);
        if x.q == 1 {
            if e >= 0.5 {
                return None;
            }
            return Some((F { kind: FK::Exact, ..x.clone() }, None));
        }
        let big = x.lo.unsigned_abs().max(x.hi.unsigned_abs()) as u128 * x.p as u128 * 2 + x.q as u128;
        if big > 1 << 61 || x.q > 1 << 60 {
            return None;
        }
        if e > 0.0 && e >= 0.5 / x.q as f64 {
            return None;
        }
        let num = self.bin(BinOp::Mul, 64, &x.num, &Val::C(x.p));
        let neg = self.cmp(Pred::Slt, 64, &num, &Val::C(0));
        let nn = self.bin(BinOp::Sub, 64, &Val::C(0), &num);
        let ab = if x.lo >= 0 { num.clone() } else { self.ite(&neg, &nn, &num, 64) };
        let hib = 64 - (x.lo.unsigned_abs().max(x.hi.unsigned_abs()) * x.p).leading_zeros();
        let top = (x.lo.unsigned_abs().max(x.hi.unsigned_abs()) * x.p) as i64;
        let ab = self.narrow(&ab, hib.max(1), top);
        let t = self.bin(BinOp::Mul, 64, &ab, &Val::C(2));
        let t = self.bin(BinOp::Add, 64, &t, &Val::C(x.q));
        let r = self.bin(BinOp::UDiv, 64, &t, &Val::C(2 * x.q));
        let nr = self.bin(BinOp::Sub, 64, &Val::C(0), &r);
        let res = if x.lo >= 0 { r } else { self.ite(&neg, &nr, &r, 64) };
        let rnd = |v: i64| -> i64 {
            let t = (v.unsigned_abs() as u128 * x.p as u128 * 2 + x.q as u128) / (2 * x.q as u128);
            if v < 0 { -(t as i64) } else { t as i64 }
        };
        let tie = if !matches!(x.kind, FK::Exact) && x.q % 2 == 0 {
            let rem = self.bin(BinOp::URem, 64, &t, &Val::C(2 * x.q));
            Some(self.cmp(Pred::Eq, 64, &rem, &Val::C(0)))
        } else {
            None
        };
        Some((F { num: res, lo: rnd(x.lo), hi: rnd(x.hi), p: 1, q: 1, kind: FK::Exact }, tie))
    }
    /// comparison; second result: condition under which the outcome is not determined
    pub fn f_cmp(&mut self, k: K, x: &F, y: &F) -> Option<(Val, Option<Val>)> {
        let (mut x, mut y) = (x.clone(), y.clone());
        // an operand that varies by far less than a step of the other one counts as a constant
        let (wx, wy) = (self.f_width(&x), self.f_width(&y));
        if wy > 0.0 && wx > 0.0 {
            if wy < 1e-5 * x.p as f64 / x.q as f64 {
                y = self.collapse(&y).unwrap_or(y)
            } else if wx < 1e-5 * y.p as f64 / y.q as f64 {
                x = self.collapse(&x).unwrap_or(x)
            }
        }
        let (xn, yn, p, q, b) = match self.common(&x, &y) {
            Some(r) => r,
            None => {
                let (fx, fy) = (self.f_width(&x), self.f_width(&y));
                if fx.min(fy) > 1e-6 {
                    return None;
                }
                if fx < fy { x = self.collapse(&x)? } else { y = self.collapse(&y)? }
                self.common(&x, &y)?
            }
        };
        let (x, y) = (&x, &y);
        let e = self.f_err(x) + self.f_err(y);
        // differences of at most `win` steps are within the error
        let step = p as f64 / q as f64;
        let win = if e > 0.0 && e * 1.01 >= step { (e * 1.01 / step).ceil() } else { 0.0 };
        if win > 1e15 || (win > 0.0 && win * step > 1e-6) {
            return None;
        }
        let win = win as i64;
        let pr = match k {
            K::FLt => Pred::Slt,
            K::FLe => Pred::Sle,
            _ => Pred::Eq,
        };
        let c = if b.1 < b.2 {
            Val::C((k != K::FEq) as u64)
        } else if b.0 > b.3 {
            Val::C(0)
        } else {
            self.cmp(pr, 64, &xn, &yn)
        };
        let tie = if win > 0 {
            if b.1 + win < b.2 || b.0 > b.3 + win {
                None
            } else {
                let d = self.bin(BinOp::Sub, 64, &xn, &yn);
                let lo = self.cmp(Pred::Sle, 64, &d, &Val::C(win as u64));
                let hi = self.cmp(Pred::Sle, 64, &Val::C((-win) as u64), &d);
                Some(self.bin(BinOp::And, 1, &lo, &hi))
            }
        } else if matches!(x.kind, FK::Err(_)) || matches!(y.kind, FK::Err(_)) {
            if b.1 < b.2 || b.0 > b.3 { None } else { Some(self.cmp(Pred::Eq, 64, &xn, &yn)) }
        } else {
            None
        };
        Some((c, tie))
    }
    /// float node (used by the executor)
    pub fn fnode(&mut self, k: K, a: &Val, b: Option<&Val>) -> Val {
        let x = self.id(a, 64);
        let y = b.map(|b| self.id(b, 64)).unwrap_or(0);
        let r = self.mk(k, 64, [x, y, 0], 0);
        self.val(r)
    }
    pub fn fcmpnode(&mut self, k: K, a: &Val, b: &Val) -> Val {
        let x = self.id(a, 64);
        let y = self.id(b, 64);
        let r = self.mk(k, 1, [x, y, 0], 0);
        self.val(r)
    }
    pub fn castnode(&mut self, k: K, a: &Val, fw: u32, tw: u32) -> Val {
        let x = self.id(a, fw);
        let r = self.mk(k, tw, [x, 0, 0], 0);
        self.val(r)
    }

    // ---------- z3 ----------
    fn zc(&self, v: u128, w: u32) -> P {
        unsafe {
            let s = z3::Z3_mk_bv_sort(self.cx, w);
            if w <= 64 {
                z3::Z3_mk_unsigned_int64(self.cx, v as u64, s)
            } else {
                let t = CString::new(format!("{}", v)).unwrap();
                z3::Z3_mk_numeral(self.cx, t.as_ptr() as *const _, s)
            }
        }
    }
    fn zt(&self) -> P {
        unsafe { z3::Z3_mk_true(self.cx) }
    }
    fn zf(&self) -> P {
        unsafe { z3::Z3_mk_false(self.cx) }
    }
    fn idx_lt(&self, v: usize, k: usize) -> P {
        unsafe { z3::Z3_mk_bvult(self.cx, self.vars[v].zv, self.zc(k as u128, 16)) }
    }
    /// membership of a variable in a set of indices
    pub fn z_member(&self, v: usize, ok: &dyn Fn(usize) -> bool) -> P {
        let n = self.vars[v].n;
        let mut ors = vec![];
        let mut i = 0;
        while i < n {
            if !ok(i) {
                i += 1;
                continue;
            }
            let s = i;
            while i < n && ok(i) {
                i += 1
            }
            unsafe {
                let c = if i - s == 1 {
                    z3::Z3_mk_eq(self.cx, self.vars[v].zv, self.zc(s as u128, 16))
                } else {
                    let hi = self.idx_lt(v, i);
                    if s == 0 {
                        hi
                    } else {
                        let lo = z3::Z3_mk_not(self.cx, self.idx_lt(v, s));
                        let a = [lo, hi];
                        z3::Z3_mk_and(self.cx, 2, a.as_ptr())
                    }
                };
                ors.push(c);
            }
        }
        match ors.len() {
            0 => self.zf(),
            1 => ors[0],
            _ => unsafe { z3::Z3_mk_or(self.cx, ors.len() as u32, ors.as_ptr()) },
        }
    }
    fn z_tab(&self, v: usize, w: u32, tab: &[u64]) -> P {
        // maximal affine segments
        let m = m64(w);
        let n = tab.len();
        let mut segs: Vec<(usize, u64, u64)> = vec![]; // start, slope, base(value at start)
        let mut i = 0;
        while i < n {
            let mut j = i + 1;
            let mut slope = 0u64;
            if j < n {
                slope = tab[j].wrapping_sub(tab[i]) & m;
                while j < n && tab[j].wrapping_sub(tab[j - 1]) & m == slope {
                    j += 1
                }
                let len = j - i;
                if !(slope == 0 || slope == 1 || len >= 4) {
                    slope = 0;
                    j = i + 1;
                }
            }
            segs.push((i, slope, tab[i]));
            i = j;
        }
        let zv = self.vars[v].zv;
        let leaf = |s: &(usize, u64, u64)| -> P {
            unsafe {
                if s.1 == 0 {
                    return self.zc(s.2 as u128, w);
                }
                let x = if w > 16 {
                    z3::Z3_mk_zero_ext(self.cx, w - 16, zv)
                } else if w < 16 {
                    z3::Z3_mk_extract(self.cx, w - 1, 0, zv)
                } else {
                    zv
                };
                let x = if s.1 == 1 { x } else { z3::Z3_mk_bvmul(self.cx, x, self.zc(s.1 as u128, w)) };
                let c = s.2.wrapping_sub((s.0 as u64).wrapping_mul(s.1)) & m;
                if c == 0 { x } else { z3::Z3_mk_bvadd(self.cx, x, self.zc(c as u128, w)) }
            }
        };
        fn tree(a: &Arena, v: usize, segs: &[(usize, u64, u64)], leaf: &dyn Fn(&(usize, u64, u64)) -> P) -> P {
            if segs.len() == 1 {
                return leaf(&segs[0]);
            }
            let k = segs.len() / 2;
            let l = tree(a, v, &segs[..k], leaf);
            let r = tree(a, v, &segs[k..], leaf);
            unsafe { z3::Z3_mk_ite(a.cx, a.idx_lt(v, segs[k].0), l, r) }
        }
        tree(self, v, &segs, &leaf)
    }
    pub fn z_bool(&mut self, id: Id) -> P {
        if let Some(p) = self.zbool.get(&id) {
            return *p;
        }
        let n = &self.nodes[id as usize];
        assert_eq!(n.w, 1);
        let (k, a) = (n.k, n.a);
        let r = if k == K::Const {
            if n.cv != 0 { self.zt() } else { self.zf() }
        } else if let Some(t) = n.tab.clone() {
            let v = n.vars.trailing_zeros() as usize;
            self.z_member(v, &|i| t[i] != 0)
        } else {
            unsafe {
                match k {
                    K::And | K::Or => {
                        let x = [self.z_bool(a[0]), self.z_bool(a[1])];
                        if k == K::And { z3::Z3_mk_and(self.cx, 2, x.as_ptr()) } else { z3::Z3_mk_or(self.cx, 2, x.as_ptr()) }
                    }
                    K::Xor => {
                        let x = self.z_bool(a[0]);
                        if self.is_c(a[1]) == Some(1) {
                            z3::Z3_mk_not(self.cx, x)
                        } else {
                            let y = self.z_bool(a[1]);
                            z3::Z3_mk_xor(self.cx, x, y)
                        }
                    }
                    K::Ite => {
                        let c = self.z_bool(a[0]);
                        let x = self.z_bool(a[1]);
                        let y = self.z_bool(a[2]);
                        z3::Z3_mk_ite(self.cx, c, x, y)
                    }
                    K::Eq if self.w(a[0]) == 1 => {
                        let x = self.z_bool(a[0]);
                        let y = self.z_bool(a[1]);
                        z3::Z3_mk_eq(self.cx, x, y)
                    }
                    K::Eq | K::Ult | K::Ule | K::Slt | K::Sle => {
                        let x = self.z_bv(a[0]);
                        let y = self.z_bv(a[1]);
                        match k {
                            K::Eq => z3::Z3_mk_eq(self.cx, x, y),
                            K::Ult => z3::Z3_mk_bvult(self.cx, x, y),
                            K::Ule => z3::Z3_mk_bvule(self.cx, x, y),
                            K::Slt => z3::Z3_mk_bvslt(self.cx, x, y),
                            _ => z3::Z3_mk_bvsle(self.cx, x, y),
                        }
                    }
                    _ => {
                        let x = self.z_bv(id);
                        z3::Z3_mk_eq(self.cx, x, self.zc(1, 1))
                    }
                }
            }
        };
        self.zbool.insert(id, r);
        r
    }
    pub fn z_bv(&mut self, id: Id) -> P {
        if let Some(p) = self.zbv.get(&id) {
            return *p;
        }
        let n = &self.nodes[id as usize];
        let (k, a, w, imm) = (n.k, n.a, n.w, n.imm);
        let r = if k == K::Const {
            self.zc(n.cv, w)
        } else if let Some(t) = n.tab.clone() {
            let v = n.vars.trailing_zeros() as usize;
            self.z_tab(v, w, &t)
        } else {
            unsafe {
                match k {
                    K::Eq | K::Ult | K::Ule | K::Slt | K::Sle => {
                        let c = self.z_bool(id);
                        z3::Z3_mk_ite(self.cx, c, self.zc(1, 1), self.zc(0, 1))
                    }
                    K::And | K::Or | K::Xor if w == 1 => {
                        let c = self.z_bool(id);
                        z3::Z3_mk_ite(self.cx, c, self.zc(1, 1), self.zc(0, 1))
                    }
                    K::Ite => {
                        let c = self.z_bool(a[0]);
                        let x = self.z_bv(a[1]);
                        let y = self.z_bv(a[2]);
                        z3::Z3_mk_ite(self.cx, c, x, y)
                    }
                    K::Extract => {
                        let x = self.z_bv(a[0]);
                        z3::Z3_mk_extract(self.cx, imm as u32 + w - 1, imm as u32, x)
                    }
                    K::Concat => {
                        let x = self.z_bv(a[0]);
                        let y = self.z_bv(a[1]);
                        if self.is_c(a[0]) == Some(0) {
                            z3::Z3_mk_zero_ext(self.cx, self.w(a[0]), y)
                        } else {
                            z3::Z3_mk_concat(self.cx, x, y)
                        }
                    }
                    K::SExt => {
                        let x = self.z_bv(a[0]);
                        z3::Z3_mk_sign_ext(self.cx, w - self.w(a[0]), x)
                    }
                    _ => {
                        if arity(k) != 2 || k as u32 > K::AShr as u32 {
                            panic!("UNSUPPORTED: lowering of {:?} to bit-vectors", k);
                        }
                        let x = self.z_bv(a[0]);
                        let y = self.z_bv(a[1]);
                        let c = self.cx;
                        match k {
                            K::Add => z3::Z3_mk_bvadd(c, x, y),
                            K::Sub => z3::Z3_mk_bvsub(c, x, y),
                            K::Mul => z3::Z3_mk_bvmul(c, x, y),
                            K::UDiv => z3::Z3_mk_bvudiv(c, x, y),
                            K::SDiv => z3::Z3_mk_bvsdiv(c, x, y),
                            K::URem => z3::Z3_mk_bvurem(c, x, y),
                            K::SRem => z3::Z3_mk_bvsrem(c, x, y),
                            K::And => z3::Z3_mk_bvand(c, x, y),
                            K::Or => z3::Z3_mk_bvor(c, x, y),
                            K::Xor => z3::Z3_mk_bvxor(c, x, y),
                            K::Shl => z3::Z3_mk_bvshl(c, x, y),
                            K::LShr => z3::Z3_mk_bvlshr(c, x, y),
                            K::AShr => z3::Z3_mk_bvashr(c, x, y),
                            _ => unreachable!(),
                        }
                    }
                }
            }
        };
        self.zbv.insert(id, r);
        r
    }
    // ---------- integers: terms whose signed reading never wraps around ----------
    fn ic(&self, v: i64) -> P {
        unsafe { z3::Z3_mk_int64(self.cx, v, z3::Z3_mk_int_sort(self.cx)) }
    }
    fn i_lt(&self, v: usize, k: usize) -> P {
        unsafe { z3::Z3_mk_lt(self.cx, self.vars[v].iv, self.ic(k as i64)) }
    }
    pub fn i_member(&self, v: usize, ok: &dyn Fn(usize) -> bool) -> P {
        let n = self.vars[v].n;
        let mut ors = vec![];
        let mut i = 0;
        while i < n {
            if !ok(i) {
                i += 1;
                continue;
            }
            let s = i;
            while i < n && ok(i) {
                i += 1
            }
            unsafe {
                let c = if i - s == 1 {
                    z3::Z3_mk_eq(self.cx, self.vars[v].iv, self.ic(s as i64))
                } else {
                    let a = [z3::Z3_mk_le(self.cx, self.ic(s as i64), self.vars[v].iv), self.i_lt(v, i)];
                    z3::Z3_mk_and(self.cx, 2, a.as_ptr())
                };
                ors.push(c);
            }
        }
        match ors.len() {
            0 => self.zf(),
            1 => ors[0],
            _ => unsafe { z3::Z3_mk_or(self.cx, ors.len() as u32, ors.as_ptr()) },
        }
    }
    fn i_tab(&self, v: usize, w: u32, tab: &[u64]) -> (P, i64, i64) {
        let t: Vec<i64> = tab.iter().map(|x| crate::ir::sx(*x, w)).collect();
        let n = t.len();
        let mut segs: Vec<(usize, i64, i64)> = vec![];
        let mut i = 0;
        while i < n {
            let mut j = i + 1;
            let mut slope = 0i64;
            if j < n {
                slope = t[j].wrapping_sub(t[i]);
                while j < n && t[j].wrapping_sub(t[j - 1]) == slope {
                    j += 1
                }
                if slope.unsigned_abs() > 1 << 45 || !(slope == 0 || slope == 1 || slope == -1 || j - i >= 3) {
                    slope = 0;
                    j = i + 1;
                }
            }
            segs.push((i, slope, t[i]));
            i = j;
        }
        fn tree(a: &Arena, v: usize, segs: &[(usize, i64, i64)]) -> P {
            if segs.len() == 1 {
                let (st, sl, b) = segs[0];
                if sl == 0 {
                    return a.ic(b);
                }
                unsafe {
                    let m = [a.ic(sl), a.vars[v].iv];
                    let p = if sl == 1 { a.vars[v].iv } else { z3::Z3_mk_mul(a.cx, 2, m.as_ptr()) };
                    let x = [p, a.ic(b - st as i64 * sl)];
                    return z3::Z3_mk_add(a.cx, 2, x.as_ptr());
                }
            }
            let k = segs.len() / 2;
            let l = tree(a, v, &segs[..k]);
            let r = tree(a, v, &segs[k..]);
            unsafe { z3::Z3_mk_ite(a.cx, a.i_lt(v, segs[k].0), l, r) }
        }
        (tree(self, v, &segs), *t.iter().min().unwrap(), *t.iter().max().unwrap())
    }
    pub fn i_bool(&mut self, id: Id) -> Option<P> {
        if let Some(p) = self.ibool.get(&id) {
            return *p;
        }
        let r = self.i_bool0(id);
        self.ibool.insert(id, r);
        r
    }
    fn i_bool0(&mut self, id: Id) -> Option<P> {
        let n = &self.nodes[id as usize];
        let (k, a) = (n.k, n.a);
        if n.w != 1 {
            return None;
        }
        if k == K::Const {
            return Some(if n.cv != 0 { self.zt() } else { self.zf() });
        }
        if let Some(t) = n.tab.clone() {
            let v = n.vars.trailing_zeros() as usize;
            return Some(self.i_member(v, &|i| t[i] != 0));
        }
        unsafe {
            Some(match k {
                K::And | K::Or => {
                    let x = [self.i_bool(a[0])?, self.i_bool(a[1])?];
                    if k == K::And { z3::Z3_mk_and(self.cx, 2, x.as_ptr()) } else { z3::Z3_mk_or(self.cx, 2, x.as_ptr()) }
                }
                K::Xor => {
                    let x = self.i_bool(a[0])?;
                    if self.is_c(a[1]) == Some(1) {
                        z3::Z3_mk_not(self.cx, x)
                    } else {
                        let y = self.i_bool(a[1])?;
                        z3::Z3_mk_xor(self.cx, x, y)
                    }
                }
                K::Ite => {
                    let (c, x, y) = (self.i_bool(a[0])?, self.i_bool(a[1])?, self.i_bool(a[2])?);
                    z3::Z3_mk_ite(self.cx, c, x, y)
                }
                K::Eq if self.w(a[0]) == 1 => {
                    let (x, y) = (self.i_bool(a[0])?, self.i_bool(a[1])?);
                    z3::Z3_mk_eq(self.cx, x, y)
                }
                K::Eq | K::Ult | K::Ule | K::Slt | K::Sle => {
                    let un = k == K::Ult || k == K::Ule;
                    let mut un = un;
                    if k == K::Eq {
                        un = !(self.i_signed(a[0]).is_some() && self.i_signed(a[1]).is_some());
                    }
                    let x = if un { self.i_unsigned(a[0])?.0 } else { self.i_signed(a[0])?.0 };
                    let y = if un { self.i_unsigned(a[1])?.0 } else { self.i_signed(a[1])?.0 };
                    match k {
                        K::Eq => z3::Z3_mk_eq(self.cx, x, y),
                        K::Ult | K::Slt => z3::Z3_mk_lt(self.cx, x, y),
                        _ => z3::Z3_mk_le(self.cx, x, y),
                    }
                }
                _ => return None,
            })
        }
    }
    /// a constant of any size
    fn ibig(&self, v: i128) -> P {
        if v.unsigned_abs() < 1 << 62 {
            return self.ic(v as i64);
        }
        let t = std::ffi::CString::new(v.to_string()).unwrap();
        unsafe { z3::Z3_mk_numeral(self.cx, t.as_ptr() as *const _, z3::Z3_mk_int_sort(self.cx)) }
    }
    fn i_add(&self, x: P, y: P) -> P {
        let t = [x, y];
        unsafe { z3::Z3_mk_add(self.cx, 2, t.as_ptr()) }
    }
    fn i_sub(&self, x: P, y: P) -> P {
        let t = [x, y];
        unsafe { z3::Z3_mk_sub(self.cx, 2, t.as_ptr()) }
    }
    fn i_mulc(&self, x: P, c: i128) -> P {
        if c == 1 {
            return x;
        }
        let t = [self.ibig(c), x];
        unsafe { z3::Z3_mk_mul(self.cx, 2, t.as_ptr()) }
    }
    fn i_divc(&self, x: P, c: i128) -> P {
        if c == 1 { x } else { unsafe { z3::Z3_mk_div(self.cx, x, self.ibig(c)) } }
    }
    fn i_modc(&self, x: P, c: i128) -> P {
        unsafe { z3::Z3_mk_mod(self.cx, x, self.ibig(c)) }
    }
    /// the unsigned reading of a value, as an integer term
    fn i_unsigned(&mut self, id: Id) -> Option<IT> {
        let w = self.w(id);
        let n = &self.nodes[id as usize];
        if n.k == K::Const {
            let v = n.cv;
            if v > 1 << 100 {
                return None;
            }
            return Some((self.ibig(v as i128), v as i128, v as i128));
        }
        let (p, l, h) = self.i_num(id)?;
        if w > 100 {
            return if l >= 0 { Some((p, l, h)) } else { None };
        }
        let m = 1i128 << w;
        if l >= 0 && h < m {
            return Some((p, l, h));
        }
        if w <= 64 {
            let (lo, hi) = r2(self, id);
            let (lo, hi) = (lo as i128, hi as i128);
            if l + m > hi && h - m < lo {
                return Some((p, l.max(lo), h.min(hi)));
            }
        }
        if h < 0 && l >= -m {
            return Some((self.i_add(p, self.ibig(m)), l + m, h + m));
        }
        if l >= -m && h < m {
            let q = unsafe { z3::Z3_mk_ite(self.cx, z3::Z3_mk_le(self.cx, self.ic(0), p), p, self.i_add(p, self.ibig(m))) };
            return Some((q, 0, m - 1));
        }
        None
    }
    /// the signed reading of a value, as an integer term
    fn i_signed(&mut self, id: Id) -> Option<IT> {
        let w = self.w(id);
        let (p, l, h) = self.i_num(id)?;
        if w > 100 {
            return Some((p, l, h));
        }
        let sg = 1i128 << (w - 1);
        if l >= -sg && h < sg {
            return Some((p, l, h));
        }
        let m = 1i128 << w;
        if let Some((lo, hi)) = self.srange(id) {
            let (lo, hi) = (lo as i128, hi as i128);
            if l + m > hi && h - m < lo {
                return Some((p, l.max(lo), h.min(hi)));
            }
        }
        if l >= -sg && h < m {
            let q = unsafe { z3::Z3_mk_ite(self.cx, z3::Z3_mk_lt(self.cx, p, self.ibig(sg)), p, self.i_sub(p, self.ibig(m))) };
            return Some((q, -sg, sg - 1));
        }
        None
    }
    /// an integer term that equals the value modulo 2^width, and bounds of that term
    pub fn i_num(&mut self, id: Id) -> Option<IT> {
        if let Some(p) = self.inum.get(&id) {
            return *p;
        }
        let mut r = self.i_num0(id);
        if let (Some((p, l, h)), Some((hl, hh))) = (r, self.hint.get(&id)) {
            if self.w(id) == 64 && l > -(1 << 63) && h < 1 << 63 {
                r = Some((p, l.max(*hl as i128), h.min(*hh as i128)));
            }
        }
        self.inum.insert(id, r);
        r
    }
    fn i_num0(&mut self, id: Id) -> Option<IT> {
        let n = &self.nodes[id as usize];
        let (k, a, w, imm) = (n.k, n.a, n.w, n.imm);
        if w > 128 {
            return None;
        }
        let fit = |p: P, l: i128, h: i128| -> Option<IT> { if l >= -(1 << 100) && h <= 1 << 100 { Some((p, l, h)) } else { None } };
        if k == K::Const {
            let v = sx128(n.cv, w);
            return if v.unsigned_abs() > 1 << 100 { None } else { Some((self.ibig(v), v, v)) };
        }
        if w == 1 {
            let b = self.i_bool(id)?;
            return Some((unsafe { z3::Z3_mk_ite(self.cx, b, self.ic(1), self.ic(0)) }, 0, 1));
        }
        if let Some(t) = n.tab.clone() {
            let v = n.vars.trailing_zeros() as usize;
            let (p, l, h) = self.i_tab(v, w, &t);
            return Some((p, l as i128, h as i128));
        }
        let corners = |x: (i128, i128), y: (i128, i128)| -> Option<(i128, i128)> {
            let mut r = vec![];
            for p in [x.0, x.1] {
                for q in [y.0, y.1] {
                    r.push(p.checked_mul(q)?)
                }
            }
            Some((*r.iter().min().unwrap(), *r.iter().max().unwrap()))
        };
        unsafe {
            match k {
                K::Add | K::Sub => {
                    let (x, xl, xh) = self.i_num(a[0])?;
                    let (y, yl, yh) = self.i_num(a[1])?;
                    if k == K::Add { fit(self.i_add(x, y), xl + yl, xh + yh) } else { fit(self.i_sub(x, y), xl - yh, xh - yl) }
                }
                K::Mul => {
                    let (x, xl, xh) = self.i_num(a[0])?;
                    let (y, yl, yh) = self.i_num(a[1])?;
                    let (l, h) = corners((xl, xh), (yl, yh))?;
                    if yl == yh {
                        fit(self.i_mulc(x, yl), l, h)
                    } else if xl == xh {
                        fit(self.i_mulc(y, xl), l, h)
                    } else {
                        None
                    }
                }
                K::Ite => {
                    let c = self.i_bool(a[0])?;
                    let (x, xl, xh) = self.i_num(a[1])?;
                    let (y, yl, yh) = self.i_num(a[2])?;
                    Some((z3::Z3_mk_ite(self.cx, c, x, y), xl.min(yl), xh.max(yh)))
                }
                K::SExt => self.i_signed(a[0]),
                K::Concat => {
                    let wl = self.w(a[1]);
                    if self.is_c(a[0]) == Some(0) {
                        return self.i_unsigned(a[1]);
                    }
                    let (x, xl, xh) = self.i_num(a[0])?;
                    let (y, yl, yh) = self.i_unsigned(a[1])?;
                    let (l, h) = corners((xl, xh), (1i128.checked_shl(wl.min(100))?, 1i128 << wl.min(100)))?;
                    fit(self.i_add(self.i_mulc(x, 1 << wl.min(100)), y), l + yl, h + yh)
                }
                K::Extract => {
                    let (x, xl, xh) = self.i_num(a[0])?;
                    if imm > 100 {
                        return None;
                    }
                    Some((self.i_divc(x, 1 << imm), xl >> imm, xh >> imm))
                }
                K::And | K::Or | K::Xor => {
                    let (c, o) = if let Some(c) = self.is_c(a[1]) { (c, a[0]) } else { (self.is_c(a[0])?, a[1]) };
                    if c > 1 << 100 {
                        return None;
                    }
                    // the bits of the constant, run by run
                    let (x, xl, xh) = self.i_num(o)?;
                    let mut sum: Option<P> = None;
                    let mut top = 0i128;
                    let mut i = 0;
                    let mut runs = 0;
                    while i < w {
                        if c >> i & 1 == 0 {
                            i += 1;
                            continue;
                        }
                        let s = i;
                        while i < w && c >> i & 1 == 1 {
                            i += 1
                        }
                        runs += 1;
                        if runs > 4 {
                            return None;
                        }
                        let t = self.i_mulc(self.i_modc(self.i_divc(x, 1 << s), 1 << (i - s)), 1 << s);
                        top += ((1i128 << (i - s)) - 1) << s;
                        sum = Some(match sum {
                            None => t,
                            Some(u) => self.i_add(u, t),
                        });
                    }
                    let both = sum.unwrap_or(self.ic(0));
                    match k {
                        K::And => fit(both, 0, top),
                        K::Or => fit(self.i_sub(self.i_add(x, self.ibig(c as i128)), both), xl, xh + c as i128),
                        _ => fit(self.i_sub(self.i_add(x, self.ibig(c as i128)), self.i_mulc(both, 2)), xl - c as i128, xh + c as i128),
                    }
                }
                K::UDiv | K::URem => {
                    let (x, xl, xh) = self.i_unsigned(a[0])?;
                    let (_, c, c2) = self.i_unsigned(a[1])?;
                    if c != c2 || c <= 0 {
                        return None;
                    }
                    if k == K::UDiv { Some((self.i_divc(x, c), xl / c, xh / c)) } else { Some((self.i_modc(x, c), 0, c - 1)) }
                }
                K::SDiv | K::SRem => {
                    let (x, xl, xh) = self.i_signed(a[0])?;
                    let (_, c, c2) = self.i_signed(a[1])?;
                    if c != c2 || c <= 0 {
                        return None;
                    }
                    let z = self.ic(0);
                    let pos = if k == K::SDiv { self.i_divc(x, c) } else { self.i_modc(x, c) };
                    let r = if xl >= 0 {
                        pos
                    } else {
                        let nx = self.i_sub(z, x);
                        let neg = self.i_sub(z, if k == K::SDiv { self.i_divc(nx, c) } else { self.i_modc(nx, c) });
                        z3::Z3_mk_ite(self.cx, z3::Z3_mk_le(self.cx, z, x), pos, neg)
                    };
                    if k == K::SDiv { Some((r, xl / c, xh / c)) } else { Some((r, if xl < 0 { 1 - c } else { 0 }, c - 1)) }
                }
                _ => None,
            }
        }
    }
    pub fn z_string(&self, p: P) -> String {
        unsafe { CStr::from_ptr(z3::Z3_ast_to_string(self.cx, p) as *const _).to_string_lossy().to_string() }
    }
}

fn r2(a: &Arena, id: Id) -> (u64, u64) {
    let n = &a.nodes[id as usize];
    (n.lo, n.hi)
}

pub fn arity(k: K) -> usize {
    match k {
        K::Const | K::Var | K::Tab => 0,
        K::Extract | K::SExt | K::FNeg | K::FAbs | K::FRound | K::SiToFp | K::UiToFp | K::FpToUi => 1,
        K::Ite => 3,
        _ => 2,
    }
}

/// a float as num/q with small q; bool: exact (dyadic)
pub fn rat_of(x: f64) -> Option<(i64, u64, bool)> {
    if !x.is_finite() || x.abs() > 4e15 {
        return None;
    }
    let mut q = 1u64;
    while q <= 1 << 30 {
        let y = x * q as f64;
        if y.fract() == 0.0 && y.abs() < 9007199254740992.0 {
            return Some((y as i64, q, true));
        }
        q *= 2;
    }
    for q in [10u64, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10_000_000_000, 100_000_000_000, 1_000_000_000_000] {
        let y = (x * q as f64).round();
        if y.abs() < 9007199254740992.0 && y / q as f64 == x {
            return Some((y as i64, q, false));
        }
    }
    None
}

pub fn cbin(o: BinOp, w: u32, x: u64, y: u64) -> u64 {
    let m = m64(w);
    (match o {
        BinOp::Add => x.wrapping_add(y),
        BinOp::Sub => x.wrapping_sub(y),
        BinOp::Mul => x.wrapping_mul(y),
        BinOp::And => x & y,
        BinOp::Or => x | y,
        BinOp::Xor => x ^ y,
        BinOp::Shl => if y >= w as u64 { 0 } else { x << y },
        BinOp::LShr => if y >= w as u64 { 0 } else { x >> y },
        BinOp::AShr => (crate::ir::sx(x, w) >> y.min(w as u64 - 1)) as u64,
        BinOp::UDiv => if y == 0 { 0 } else { x / y },
        BinOp::URem => if y == 0 { 0 } else { x % y },
        BinOp::SDiv => if y == 0 { 0 } else { crate::ir::sx(x, w).wrapping_div(crate::ir::sx(y, w)) as u64 },
        BinOp::SRem => if y == 0 { 0 } else { crate::ir::sx(x, w).wrapping_rem(crate::ir::sx(y, w)) as u64 },
    }) & m
}
pub fn ccmp(p: Pred, w: u32, x: u64, y: u64) -> bool {
    let (sx, sy) = (crate::ir::sx(x, w), crate::ir::sx(y, w));
    match p {
        Pred::Eq => x == y,
        Pred::Ne => x != y,
        Pred::Ugt => x > y,
        Pred::Uge => x >= y,
        Pred::Ult => x < y,
        Pred::Ule => x <= y,
        Pred::Sgt => sx > sy,
        Pred::Sge => sx >= sy,
        Pred::Slt => sx < sy,
        Pred::Sle => sx <= sy,
    }
}
