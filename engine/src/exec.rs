//! Symbolic executor for the LLVM IR of the real binary.
use crate::expr::{self, Arena, Id, Val, F, FK, K};
use crate::ir::*;
use crate::mem::*;
use crate::os::{Os, X};
use crate::z3;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum End {
    Exit(i32),
    Panic(String),
    Abort(String),
    MemErr(String),
    Hang,
    Tie,
    Unsupported(String),
}
pub enum Stop {
    Fork(Id),
    Split(Id),
    Done(End),
}
pub type R<T> = Result<T, Stop>;
pub fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Done(End::Unsupported(s.into())))
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub b: u32,
    pub ip: u32,
    pub dst: u32,
    pub norm: u32, // label to continue at after an invoke, MAX otherwise
    pub regs: Vec<Val>,
    pub allocas: Vec<u32>,
}

pub type Bits = Rc<Vec<u64>>;

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    pub dom: Vec<Bits>,
    pub cons: Vec<Id>,
    pub cvars: u128, // variables occurring in cons
    pub known: Rc<HashMap<Id, u64>>,
    pub model: Rc<Vec<u16>>,
    pub os: Os,
    pub steps: u64,
    pub forks: u32,
    pub run: usize,
    pub results: Vec<Rc<RunResult>>,
    pub base: Rc<std::collections::BTreeMap<String, Rc<Obj>>>,
    pub tokens: Rc<HashSet<u32>>,
    pub phase: u8,
    pub argc: u64,
    pub argv: u64,
    pub retval: u64,
}
pub struct RunResult {
    pub end: End,
    pub out: Obj,
    pub err: Obj,
    pub files: std::collections::BTreeMap<String, Rc<Obj>>,
    pub events: Vec<String>,
    pub cwd: String,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Hook {
    No,
    Panic,
    Memchr,
    Memrchr,
    FShort,
    FExact,
    Find,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub instrs: u64,
    pub queries: u64,
    pub solver_ns: u64,
    pub forks: u64,
    pub paths: u64,
    pub unknown: u64,
    pub cached: u64,
}

pub struct Tok {
    pub expr: Id,
    pub marker: f64,
    pub f: F,
    pub prec: i32,
}

pub struct Exec {
    pub m: Arc<Module>,
    pub hooks: Arc<Vec<Hook>>,
    pub exts: Arc<Vec<X>>,
    pub a: Arena,
    pub st: Stats,
    pub seen: Vec<bool>,
    pub tokens: Vec<Tok>,
    pub tokmap: HashMap<u64, Id>,
    pub max_steps: u64,
    pub next_model: Option<Vec<u16>>,
    qcache: HashMap<(Id, Vec<Id>, Vec<u64>), Option<Vec<(usize, u16)>>>,
    dhash: HashMap<usize, (Bits, u64)>,
    pub trace: bool,
    pub rlimit: u32,
    pub dump_slow: bool,
}

pub fn hooks(m: &Module) -> Vec<Hook> {
    m.funcs
        .iter()
        .map(|f| {
            let n = &f.name;
            if n.ends_with("9panicking9panic_fmt") || n.ends_with("panic_nounwind_fmt") || n.contains("_RINvNtCs") && n.contains("3std9panicking11begin_panic") {
                Hook::Panic
            } else if n.ends_with("6memchr14memchr_aligned") {
                Hook::Memchr
            } else if n.ends_with("6memchr15memrchr_aligned") {
                Hook::Memrchr
            } else if n.contains("32float_to_decimal_common_shortestd") {
                Hook::FShort
            } else if n.contains("29float_to_decimal_common_exactd") {
                Hook::FExact
            } else if n.ends_with("10memchr_raw9find_sse2") {
                Hook::Find
            } else {
                Hook::No
            }
        })
        .collect()
}

pub fn bit(b: &[u64], i: usize) -> bool {
    b[i >> 6] >> (i & 63) & 1 != 0
}
pub fn bits_iter(b: &[u64]) -> impl Iterator<Item = usize> + '_ {
    b.iter().enumerate().flat_map(|(w, x)| {
        let mut x = *x;
        std::iter::from_fn(move || {
            if x == 0 {
                None
            } else {
                let t = x.trailing_zeros() as usize;
                x &= x - 1;
                Some(w * 64 + t)
            }
        })
    })
}

fn cval(c: &Cst) -> Val {
    match c {
        Cst::I(v) => Val::C(*v),
        Cst::W(v) => Val::X(Rc::new(*v)),
        Cst::A(v) => Val::A(Rc::new(v.iter().map(cval).collect())),
    }
}
pub fn m64(w: u32) -> u64 {
    if w >= 64 { u64::MAX } else { (1u64 << w) - 1 }
}
pub fn zero_val(t: &Ty) -> Val {
    match t {
        Ty::Int(w) if *w > 64 => Val::X(Rc::new(0)),
        Ty::Arr(n, e) | Ty::Vec(n, e) => Val::A(Rc::new(vec![zero_val(e); *n])),
        Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(zero_val).collect())),
        _ => Val::C(0),
    }
}

impl State {
    pub fn alloc(&mut self, o: Obj) -> u32 {
        if let Some(i) = self.free.pop() {
            self.mem[i as usize] = Some(Rc::new(o));
            i
        } else {
            self.mem.push(Some(Rc::new(o)));
            (self.mem.len() - 1) as u32
        }
    }
    pub fn dealloc(&mut self, i: u32) {
        self.mem[i as usize] = None;
        self.free.push(i);
    }
}

impl Exec {
    pub fn new(m: Arc<Module>, hooks: Arc<Vec<Hook>>, exts: Arc<Vec<X>>) -> Exec {
        let n = m.funcs.len();
        Exec {
            m,
            hooks,
            exts,
            a: Arena::new(),
            st: Stats::default(),
            seen: vec![false; n],
            tokens: vec![],
            tokmap: HashMap::new(),
            max_steps: 50_000_000,
            next_model: None,
            qcache: HashMap::new(),
            dhash: HashMap::new(),
            trace: false,
            rlimit: 20_000_000,
            dump_slow: std::env::var("SF_SLOW").is_ok(),
        }
    }
    pub fn loc(&self, s: &State) -> String {
        s.frames.iter().rev().take(4).map(|f| self.m.funcs[f.f as usize].name.clone()).collect::<Vec<_>>().join(" < ")
    }
    fn mem_err<T>(&self, s: &State, w: &str, p: u64) -> R<T> {
        Err(Stop::Done(End::MemErr(format!("{} {:x} in {}", w, p, self.loc(s)))))
    }

    // ---------- memory ----------
    pub fn obj<'a>(&self, s: &'a State, p: u64, n: usize) -> R<(&'a Rc<Obj>, usize)> {
        let o = (p >> 32) as usize;
        let off = (p & 0xffff_ffff) as usize;
        match s.mem.get(o).and_then(|x| x.as_ref()) {
            Some(ob) if off + n <= ob.len() => Ok((ob, off)),
            _ => self.mem_err(s, &format!("access of {} bytes at", n), p),
        }
    }
    pub fn obj_mut<'a>(&self, s: &'a mut State, p: u64, n: usize) -> R<(&'a mut Obj, usize)> {
        let o = (p >> 32) as usize;
        let off = (p & 0xffff_ffff) as usize;
        let ok = matches!(s.mem.get(o).and_then(|x| x.as_ref()), Some(ob) if off + n <= ob.len() && !ob.ro);
        if !ok {
            return self.mem_err(s, &format!("write of {} bytes at", n), p);
        }
        Ok((Rc::make_mut(s.mem[o].as_mut().unwrap()), off))
    }
    /// n bytes as a scalar of 8n bits
    pub fn rd(&mut self, s: &State, p: u64, n: usize) -> R<Val> {
        let (o, off) = self.obj(s, p, n)?;
        if o.concrete(off, n) {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return Ok(if n <= 8 { Val::C(u64::from_le_bytes(b[..8].try_into().unwrap())) } else { Val::X(Rc::new(u128::from_le_bytes(b))) });
        }
        // runs
        let mut acc: Option<(Val, u32)> = None;
        let mut i = 0;
        while i < n {
            let (id, k) = o.sym[off + i];
            let mut j = i + 1;
            let (v, w);
            if id == NONE {
                while j < n && j - i < 8 && o.sym[off + j].0 == NONE {
                    j += 1
                }
                let mut b = [0u8; 8];
                b[..j - i].copy_from_slice(&o.data[off + i..off + j]);
                w = (j - i) as u32 * 8;
                v = Val::C(u64::from_le_bytes(b));
            } else {
                while j < n && o.sym[off + j].0 == id && o.sym[off + j].1 as usize == k as usize + (j - i) {
                    j += 1
                }
                w = (j - i) as u32 * 8;
                let fw = self.a.nodes[id as usize].w;
                let v0 = Val::E(id);
                let fw8 = (fw + 7) / 8 * 8;
                let v0 = if fw8 != fw { self.a.vzext(&v0, fw, fw8) } else { v0 };
                v = self.a.vextract(&v0, fw8, k as u32 * 8, w);
            }
            acc = Some(match acc {
                None => (v, w),
                Some((l, lw)) => (self.a.vconcat(&v, w, &l, lw), lw + w),
            });
            i = j;
        }
        Ok(acc.unwrap().0)
    }
    pub fn wr(&mut self, s: &mut State, p: u64, n: usize, v: &Val) -> R<()> {
        match v {
            Val::C(c) => {
                let (o, off) = self.obj_mut(s, p, n)?;
                if n <= 8 {
                    o.put(off, &c.to_le_bytes()[..n]);
                } else {
                    o.put(off, &(*c as u128).to_le_bytes()[..n]);
                }
            }
            Val::X(c) => {
                let (o, off) = self.obj_mut(s, p, n)?;
                o.put(off, &c.to_le_bytes()[..n]);
            }
            Val::E(id) => {
                let w = self.a.nodes[*id as usize].w;
                let id = if w != n as u32 * 8 {
                    let e = self.a.vzext(v, w, n as u32 * 8);
                    match e {
                        Val::E(i) => i,
                        o => return self.wr(s, p, n, &o),
                    }
                } else {
                    *id
                };
                let (o, off) = self.obj_mut(s, p, n)?;
                o.put_sym(off, n, id);
            }
            Val::A(_) => unreachable!(),
        }
        Ok(())
    }
    pub fn load(&mut self, s: &State, t: &Ty, p: u64) -> R<Val> {
        match t {
            Ty::Int(w) => {
                let n = t.size();
                let v = self.rd(s, p, n)?;
                if *w as usize == n * 8 {
                    Ok(v)
                } else if let Val::C(c) = v {
                    Ok(Val::C(c & m64(*w)))
                } else {
                    Ok(self.a.vextract(&v, n as u32 * 8, 0, *w))
                }
            }
            Ty::Ptr | Ty::F64 => self.rd(s, p, 8),
            Ty::F32 => self.rd(s, p, 4),
            Ty::Vec(n, e) | Ty::Arr(n, e) => {
                let sz = e.size();
                let mut v = Vec::with_capacity(*n);
                for i in 0..*n {
                    v.push(self.load(s, e, p + (i * sz) as u64)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() {
                    let (o, ft) = t.field(i);
                    v.push(self.load(s, ft, p + o as u64)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => unsup("load type"),
        }
    }
    pub fn store(&mut self, s: &mut State, t: &Ty, p: u64, v: &Val) -> R<()> {
        match (t, v) {
            (Ty::Vec(_, e), Val::A(x)) | (Ty::Arr(_, e), Val::A(x)) => {
                let sz = e.size();
                for (i, y) in x.iter().enumerate() {
                    self.store(s, e, p + (i * sz) as u64, y)?;
                }
                Ok(())
            }
            (Ty::Struct(..), Val::A(x)) => {
                for (i, y) in x.iter().enumerate() {
                    let (o, ft) = t.field(i);
                    self.store(s, ft, p + o as u64, y)?;
                }
                Ok(())
            }
            _ => self.wr(s, p, t.size(), v),
        }
    }
    pub fn read_obj(&self, s: &State, p: u64, n: usize) -> R<Obj> {
        if n == 0 {
            return Ok(Obj::default());
        }
        let (o, off) = self.obj(s, p, n)?;
        Ok(o.slice(off, n))
    }
    pub fn write_obj(&self, s: &mut State, p: u64, src: &Obj) -> R<()> {
        if src.len() == 0 {
            return Ok(());
        }
        let (o, off) = self.obj_mut(s, p, src.len())?;
        o.write_at(off, src);
        Ok(())
    }
    fn copy(&self, s: &mut State, d: u64, p: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (so, soff) = self.obj(s, p, n)?;
        if so.concrete(soff, n) && n <= 64 {
            let mut b = [0u8; 64];
            b[..n].copy_from_slice(&so.data[soff..soff + n]);
            let (o, off) = self.obj_mut(s, d, n)?;
            o.put(off, &b[..n]);
            return Ok(());
        }
        let t = so.slice(soff, n);
        self.write_obj(s, d, &t)
    }
    /// concrete bytes of a C string; forks on symbolic bytes
    pub fn cstr(&mut self, s: &State, p: u64) -> R<Vec<u8>> {
        let mut r = vec![];
        let mut p = p;
        loop {
            let v = self.rd(s, p, 1)?;
            let c = self.conc(s, &v, 8)?;
            if c == 0 {
                return Ok(r);
            }
            r.push(c as u8);
            p += 1;
        }
    }

    // ---------- solver ----------
    fn dom_hash(&mut self, b: &Bits) -> u64 {
        let k = Rc::as_ptr(b) as usize;
        if let Some((r, h)) = self.dhash.get(&k) {
            if Rc::ptr_eq(r, b) {
                return *h;
            }
        }
        let mut h = 0xcbf29ce484222325u64;
        for w in b.iter() {
            h = (h ^ *w).wrapping_mul(0x100000001b3).rotate_left(23);
        }
        self.dhash.insert(k, (b.clone(), h));
        h
    }
    /// is (pc and c==want) satisfiable? returns a full model
    pub fn query(&mut self, s: &State, c: Id, want: bool) -> R<Option<Vec<u16>>> {
        let c = if want { c } else { self.a.not(c) };
        let mut vars = self.a.nodes[c as usize].vars;
        let mut sel: Vec<bool> = vec![false; s.cons.len()];
        loop {
            let mut ch = false;
            for (i, k) in s.cons.iter().enumerate() {
                let v = self.a.nodes[*k as usize].vars;
                if !sel[i] && v & vars != 0 {
                    sel[i] = true;
                    if v & !vars != 0 {
                        vars |= v;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut cs: Vec<Id> = s.cons.iter().zip(&sel).filter(|x| *x.1).map(|x| *x.0).collect();
        cs.sort();
        let vs: Vec<usize> = (0..self.a.vars.len()).filter(|v| vars >> v & 1 != 0).collect();
        let dh: Vec<u64> = vs.iter().map(|v| self.dom_hash(&s.dom[*v])).collect();
        let key = (c, cs, dh);
        let mk = |mm: &Option<Vec<(usize, u16)>>| -> Option<Vec<u16>> {
            mm.as_ref().map(|l| {
                let mut r = (*s.model).clone();
                for (v, x) in l {
                    r[*v] = *x
                }
                r
            })
        };
        if let Some(r) = self.qcache.get(&key) {
            self.st.cached += 1;
            return Ok(mk(r));
        }
        let t0 = std::time::Instant::now();
        if self.dump_slow {
            eprintln!("QLOC {}", self.loc(s));
        }
        let r;
        unsafe {
            let cx = self.a.cx;
            let mut ints: Option<Vec<z3::P>> = Some(vec![]);
            for k in key.1.iter().chain(std::iter::once(&c)) {
                match self.a.i_bool(*k) {
                    Some(p) => ints.as_mut().unwrap().push(p),
                    None => {
                        ints = None;
                        break;
                    }
                }
            }
            let mut res = 0;
            let mut l = vec![];
            for logic in [&b"QF_LIA\0"[..], &b"QF_BV\0"[..]] {
                let int = logic[3] == b'L';
                if int && ints.is_none() {
                    continue;
                }
                let sol = z3::Z3_mk_solver_for_logic(cx, z3::Z3_mk_string_symbol(cx, logic.as_ptr() as *const _));
                z3::Z3_solver_inc_ref(cx, sol);
                let pr = z3::Z3_mk_params(cx);
                z3::Z3_params_inc_ref(cx, pr);
                z3::Z3_params_set_uint(cx, pr, z3::Z3_mk_string_symbol(cx, b"rlimit\0".as_ptr() as *const _), self.rlimit);
                z3::Z3_solver_set_params(cx, sol, pr);
                for v in &vs {
                    let d = s.dom[*v].clone();
                    let p = if int { self.a.i_member(*v, &|i| bit(&d, i)) } else { self.a.z_member(*v, &|i| bit(&d, i)) };
                    z3::Z3_solver_assert(cx, sol, p);
                }
                if int {
                    for p in ints.as_ref().unwrap() {
                        z3::Z3_solver_assert(cx, sol, *p);
                    }
                } else {
                    for k in &key.1 {
                        let p = self.a.z_bool(*k);
                        z3::Z3_solver_assert(cx, sol, p);
                    }
                    let p = self.a.z_bool(c);
                    z3::Z3_solver_assert(cx, sol, p);
                }
                let t1 = std::time::Instant::now();
                res = z3::Z3_solver_check(cx, sol);
                self.st.queries += 1;
                if self.dump_slow && t1.elapsed().as_millis() > 1000 {
                    let z = std::ffi::CStr::from_ptr(z3::Z3_solver_to_string(cx, sol)).to_string_lossy().to_string();
                    eprintln!("slow query {} {:?} res {}\n{}", String::from_utf8_lossy(logic), t1.elapsed(), res, z);
                }
                if res > 0 {
                    let m = z3::Z3_solver_get_model(cx, sol);
                    z3::Z3_model_inc_ref(cx, m);
                    for v in &vs {
                        let mut o = std::ptr::null_mut();
                        let t = if int { self.a.vars[*v].iv } else { self.a.vars[*v].zv };
                        z3::Z3_model_eval(cx, m, t, true, &mut o);
                        let mut x = 0u64;
                        z3::Z3_get_numeral_uint64(cx, o, &mut x);
                        l.push((*v, x as u16));
                    }
                    z3::Z3_model_dec_ref(cx, m);
                }
                z3::Z3_solver_dec_ref(cx, sol);
                if res != 0 {
                    break;
                }
            }
            if res == 0 {
                self.st.unknown += 1;
                self.st.solver_ns += t0.elapsed().as_nanos() as u64;
                return unsup(format!("solver gave no answer at {}", self.loc(s)));
            }
            r = if res < 0 { None } else { Some(l) };
        }
        self.st.solver_ns += t0.elapsed().as_nanos() as u64;
        let out = mk(&r);
        self.qcache.insert(key, r);
        Ok(out)
    }
    /// truth of a condition on this path; asks for a fork when both are possible
    pub fn decide(&mut self, s: &State, c: &Val) -> R<bool> {
        let id = match c {
            Val::C(x) => return Ok(*x & 1 != 0),
            Val::E(i) => *i,
            _ => unreachable!(),
        };
        self.decide_id(s, id)
    }
    pub fn decide_id(&mut self, s: &State, id: Id) -> R<bool> {
        if let Some(v) = self.a.single(id) {
            let t = self.a.tab_of(id).unwrap();
            let (mut any, mut all) = (false, true);
            for i in bits_iter(&s.dom[v]) {
                if t[i] & 1 != 0 { any = true } else { all = false }
                if any && !all {
                    break;
                }
            }
            if any && !all {
                if s.cvars >> v & 1 == 0 {
                    return Err(Stop::Fork(id));
                }
                if let Some(x) = s.known.get(&id) {
                    return Ok(*x != 0);
                }
                let side = t[s.model[v] as usize] & 1 != 0;
                return match self.query(s, id, !side)? {
                    None => Ok(side),
                    Some(m) => {
                        self.next_model = Some(m);
                        Err(Stop::Fork(id))
                    }
                };
            }
            return Ok(any);
        }
        let n = &self.a.nodes[id as usize];
        if n.vars == 0 {
            return Ok(n.cv != 0);
        }
        if let Some(x) = s.known.get(&id) {
            return Ok(*x != 0);
        }
        let side = self.a.eval1(id, &s.model) != 0;
        match self.query(s, id, !side)? {
            None => Ok(side),
            Some(m) => {
                self.next_model = Some(m);
                Err(Stop::Fork(id))
            }
        }
    }
    /// constant value of a scalar on this path; asks for a split otherwise
    pub fn conc(&mut self, s: &State, v: &Val, _w: u32) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::E(id) => {
                if let Some(c) = self.try_conc(s, *id) {
                    return Ok(c);
                }
                Err(Stop::Split(*id))
            }
            _ => unsup("wide concretization"),
        }
    }
    pub fn try_conc(&self, s: &State, id: Id) -> Option<u64> {
        if let Some(v) = self.a.single(id) {
            let t = self.a.tab_of(id)?;
            let mut it = bits_iter(&s.dom[v]);
            let f = t[it.next().unwrap()];
            if it.all(|i| t[i] == f) {
                return Some(f);
            }
            return s.known.get(&id).copied();
        }
        s.known.get(&id).copied()
    }
    /// restrict a state; the caller guarantees feasibility and supplies the model
    pub fn assume(&mut self, s: &mut State, c: Id, want: bool, model: Option<Vec<u16>>) {
        if let Some(v) = self.a.single(c) {
            let t = self.a.tab_of(c).unwrap().clone();
            let mut b = (*s.dom[v]).clone();
            let l: Vec<usize> = bits_iter(&b).collect();
            for i in l {
                if (t[i] & 1 != 0) != want {
                    b[i >> 6] &= !(1 << (i & 63));
                }
            }
            let mut mm = None;
            if !bit(&b, s.model[v] as usize) && model.is_none() {
                mm = bits_iter(&b).next();
                assert!(mm.is_some(), "empty domain");
            }
            s.dom[v] = Rc::new(b);
            if let Some(x) = mm {
                Rc::make_mut(&mut s.model)[v] = x as u16;
            }
        } else {
            let k = if want { c } else { self.a.not(c) };
            s.cons.push(k);
            s.cvars |= self.a.nodes[c as usize].vars;
            Rc::make_mut(&mut s.known).insert(c, want as u64);
            let nc = self.a.not(c);
            Rc::make_mut(&mut s.known).insert(nc, !want as u64);
        }
        if let Some(m) = model {
            s.model = Rc::new(m);
        }
    }
    /// children of a state that asked for a fork
    pub fn fork(&mut self, s: State, c: Id) -> Vec<State> {
        self.st.forks += 1;
        let om = self.next_model.take();
        let side = self.a.eval1(c, &s.model) != 0;
        let mut a = s.clone();
        let mut b = s;
        a.forks += 1;
        b.forks += 1;
        let am = (*a.model).clone();
        self.assume(&mut a, c, side, Some(am));
        // without a solver model the variable is unconstrained by the others
        self.assume(&mut b, c, !side, om);
        vec![b, a]
    }
    pub fn split(&mut self, s: State, e: Id) -> Result<Vec<State>, (State, End)> {
        self.st.forks += 1;
        let w = self.a.nodes[e as usize].w;
        if let Some(v) = self.a.single(e) {
            if let Some(t) = self.a.tab_of(e).cloned() {
                let mut groups: Vec<(u64, Vec<usize>)> = vec![];
                let mut ix: HashMap<u64, usize> = HashMap::new();
                for i in bits_iter(&s.dom[v]) {
                    let k = *ix.entry(t[i]).or_insert_with(|| {
                        groups.push((t[i], vec![]));
                        groups.len() - 1
                    });
                    groups[k].1.push(i);
                }
                if groups.len() > 6000 {
                    let l = self.loc(&s);
                    return Err((s, End::Unsupported(format!("split into {} values at {}", groups.len(), l))));
                }
                let ent = s.cvars >> v & 1 != 0;
                let mut out = vec![];
                for (val, l) in groups.iter().rev() {
                    let mut c = s.clone();
                    c.forks += 1;
                    let mut b = vec![0u64; s.dom[v].len()];
                    for i in l {
                        b[i >> 6] |= 1 << (i & 63);
                    }
                    let inm = l.contains(&(s.model[v] as usize));
                    if !inm {
                        if ent {
                            let k = self.a.mkc(*val as u128, w);
                            let eqc = self.a.eq(e, k);
                            match self.query(&s, eqc, true) {
                                Ok(None) => continue,
                                Ok(Some(m)) => c.model = Rc::new(m),
                                Err(Stop::Done(x)) => return Err((s, x)),
                                Err(_) => unreachable!(),
                            }
                        } else {
                            Rc::make_mut(&mut c.model)[v] = l[0] as u16;
                        }
                    }
                    c.dom[v] = Rc::new(b);
                    out.push(c);
                }
                return Ok(out);
            }
        }
        let val = self.a.eval1(e, &s.model);
        let k = self.a.mkc(val, w);
        let eqc = self.a.eq(e, k);
        let r = self.query(&s, eqc, false);
        let mut out = vec![];
        match r {
            Ok(Some(m)) => {
                let mut b = s.clone();
                b.forks += 1;
                self.assume(&mut b, eqc, false, Some(m));
                out.push(b);
            }
            Ok(None) => {}
            Err(Stop::Done(x)) => return Err((s, x)),
            Err(_) => unreachable!(),
        }
        let mut a = s;
        let am = (*a.model).clone();
        if !out.is_empty() {
            self.assume(&mut a, eqc, true, Some(am));
        }
        Rc::make_mut(&mut a.known).insert(e, val as u64);
        out.push(a);
        Ok(out)
    }

    // ---------- execution ----------
    fn get(&self, fr: &Frame, o: &Op) -> Val {
        match o {
            Op::R(r) => fr.regs[*r as usize].clone(),
            Op::C(c) => Val::C(*c),
            Op::K(k) => cval(k),
        }
    }
    pub fn push_call(&mut self, s: &mut State, f: u32, args: Vec<Val>, dst: u32, norm: u32) -> R<()> {
        let fun = &self.m.funcs[f as usize];
        self.seen[f as usize] = true;
        let mut regs = args;
        regs.resize(fun.nregs.max(regs.len()), Val::C(0));
        if s.frames.len() > 4000 {
            return Err(Stop::Done(End::Abort("stack overflow".into())));
        }
        s.frames.push(Frame { f, b: 0, ip: 0, dst, norm, regs, allocas: vec![] });
        Ok(())
    }
    fn goto(&mut self, s: &mut State, to: u32) {
        let fr = s.frames.last_mut().unwrap();
        let from = fr.b;
        let m = self.m.clone();
        let blk = &m.funcs[fr.f as usize].blocks[to as usize];
        match blk.phis.len() {
            0 => {}
            1 => {
                let (d, mp) = &blk.phis[0];
                let v = self.get(fr, &mp[&from]);
                fr.regs[*d as usize] = v;
            }
            _ => {
                let vals: Vec<Val> = blk.phis.iter().map(|(_, mp)| self.get(fr, &mp[&from])).collect();
                for ((d, _), v) in blk.phis.iter().zip(vals) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.b = to;
        fr.ip = 0;
    }
    /// return from the current function with a value; true when the bottom frame returned
    pub fn do_ret(&mut self, s: &mut State, v: Option<Val>) -> bool {
        let fr = s.frames.pop().unwrap();
        for o in fr.allocas {
            s.dealloc(o);
        }
        if s.frames.is_empty() {
            return true;
        }
        self.finish_call(s, fr.dst, fr.norm, v);
        false
    }
    fn finish_call(&mut self, s: &mut State, dst: u32, norm: u32, v: Option<Val>) {
        let fr = s.frames.last_mut().unwrap();
        if dst != u32::MAX {
            fr.regs[dst as usize] = v.unwrap_or(Val::C(0));
        }
        if norm != u32::MAX {
            self.goto(s, norm);
        } else {
            s.frames.last_mut().unwrap().ip += 1;
        }
    }
    /// run until the program ends, asks for a fork or fails
    pub fn run(&mut self, s: &mut State) -> Stop {
        let m = self.m.clone();
        loop {
            let fr = s.frames.last().unwrap();
            let (f, b) = (fr.f, fr.b);
            let blk = &m.funcs[f as usize].blocks[b as usize];
            // straight-line part
            let depth = s.frames.len();
            let mut n = 0u64;
            let r = loop {
                let ip = s.frames.last().unwrap().ip as usize;
                n += 1;
                match self.step(s, &blk.ins[ip]) {
                    Ok(true) => {
                        let fr = s.frames.last().unwrap();
                        if s.frames.len() != depth || fr.b != b || fr.ip as usize != ip + 1 {
                            break Ok(());
                        }
                    }
                    Ok(false) => break Err(Stop::Done(End::Exit(0))),
                    Err(e) => break Err(e),
                }
            };
            self.st.instrs += n;
            s.steps += n;
            if let Err(e) = r {
                return e;
            }
            if s.steps > self.max_steps {
                return Stop::Done(End::Hang);
            }
        }
    }
    #[inline]
    fn set(&self, s: &mut State, d: u32, v: Val) {
        let fr = s.frames.last_mut().unwrap();
        fr.regs[d as usize] = v;
        fr.ip += 1;
    }
    fn step(&mut self, s: &mut State, i: &In) -> R<bool> {
        let fr = s.frames.last().unwrap();
        match i {
            In::Bin(o, w, 0, a, b, d) => {
                let (x, y) = (self.get(fr, a), self.get(fr, b));
                let v = if let (Val::C(p), Val::C(q), true) = (&x, &y, *w <= 64) {
                    Val::C(expr::cbin(*o, *w, *p, *q))
                } else {
                    self.a.bin(*o, *w, &x, &y)
                };
                self.set(s, *d, v);
            }
            In::Bin(o, w, _, a, b, d) => {
                let (x, y) = (self.get(fr, a), self.get(fr, b));
                let v = self.vec2(&x, &y, |a, x, y| a.bin(*o, *w, x, y));
                self.set(s, *d, v);
            }
            In::Icmp(p, w, 0, a, b, d) => {
                let (x, y) = (self.get(fr, a), self.get(fr, b));
                let v = if let (Val::C(m), Val::C(n), true) = (&x, &y, *w <= 64) {
                    Val::C(expr::ccmp(*p, *w, *m, *n) as u64)
                } else if *w == 64 && self.fsigncmp(*p, &x, &y) {
                    let g = self.fsign(s, &x)?;
                    if *p == Pred::Slt { g } else { self.a.bin(BinOp::Xor, 1, &g, &Val::C(1)) }
                } else {
                    self.a.cmp(*p, *w, &x, &y)
                };
                self.set(s, *d, v);
            }
            In::Icmp(p, w, _, a, b, d) => {
                let (x, y) = (self.get(fr, a), self.get(fr, b));
                let v = self.vec2(&x, &y, |a, x, y| a.cmp(*p, *w, x, y));
                self.set(s, *d, v);
            }
            In::FBin(o, a, b, d) => {
                let (x, y) = (self.get(fr, a), self.get(fr, b));
                let v = self.fbin(s, *o, &x, &y)?;
                self.set(s, *d, v);
            }
            In::FNeg(a, d) => {
                let x = self.get(fr, a);
                let x = self.named(&x);
                let v = match &x {
                    Val::C(c) => Val::C((-f64::from_bits(*c)).to_bits()),
                    _ => self.a.fnode(K::FNeg, &x, None),
                };
                self.set(s, *d, v);
            }
            In::Fcmp(p, a, b, d) => {
                let (x, y) = (self.get(fr, a), self.get(fr, b));
                let v = self.fcmp(s, p, &x, &y)?;
                self.set(s, *d, v);
            }
            In::Select(c, a, b, t, vc, d) => {
                let cv = self.get(fr, c);
                let v = if let (Val::C(k), false) = (&cv, *vc) {
                    self.get(fr, if *k & 1 != 0 { a } else { b })
                } else {
                    let (x, y) = (self.get(fr, a), self.get(fr, b));
                    if *vc {
                        let (Val::A(cc), Val::A(xx), Val::A(yy), Ty::Vec(_, et)) = (&cv, &x, &y, t) else { return unsup("vector select") };
                        let w = et.bits();
                        Val::A(Rc::new((0..cc.len()).map(|i| self.a.ite(&cc[i], &xx[i], &yy[i], w)).collect()))
                    } else {
                        match t {
                            Ty::Int(_) | Ty::F64 => {
                                let w = t.bits();
                                let k = match &cv {
                                    Val::E(id) => self.quick(s, *id),
                                    _ => None,
                                };
                                let (x, y) = if *t == Ty::F64 { (self.named(&x), self.named(&y)) } else { (x, y) };
                                match k {
                                    Some(true) => x,
                                    Some(false) => y,
                                    None => self.a.ite(&cv, &x, &y, w),
                                }
                            }
                            _ => {
                                if self.decide(s, &cv)? { x } else { y }
                            }
                        }
                    }
                };
                self.set(s, *d, v);
            }
            In::Load(t, p, d) => {
                let pv = self.get(fr, p);
                let v = match pv {
                    Val::C(p) => self.load(s, t, p)?,
                    _ => self.load_sym(s, t, &pv)?,
                };
                self.set(s, *d, v);
            }
            In::Store(t, v, p) => {
                let pv = self.get(fr, p);
                let vv = self.get(fr, v);
                let p = self.conc(s, &pv, 64)?;
                self.store(s, t, p, &vv)?;
                s.frames.last_mut().unwrap().ip += 1;
            }
            In::Gep(base, off, ix, d) => {
                let b = self.get(fr, base);
                let v = if ix.is_empty() {
                    match b {
                        Val::C(c) => Val::C(c.wrapping_add(*off)),
                        _ => self.a.bin(BinOp::Add, 64, &b, &Val::C(*off)),
                    }
                } else {
                    let mut acc = match &b {
                        Val::C(c) => Val::C(c.wrapping_add(*off)),
                        _ => self.a.bin(BinOp::Add, 64, &b, &Val::C(*off)),
                    };
                    for (o, w, sc) in ix {
                        let x = self.get(s.frames.last().unwrap(), o);
                        acc = match (&acc, &x) {
                            (Val::C(c), Val::C(i)) => Val::C(c.wrapping_add((sx(*i, *w) as u64).wrapping_mul(*sc))),
                            _ => {
                                let e = self.a.vsext(&x, *w, 64);
                                let e = self.a.bin(BinOp::Mul, 64, &e, &Val::C(*sc));
                                self.a.bin(BinOp::Add, 64, &acc, &e)
                            }
                        };
                    }
                    acc
                };
                self.set(s, *d, v);
            }
            In::Alloca(n, d) => {
                let o = s.alloc(Obj::zero(*n));
                s.frames.last_mut().unwrap().allocas.push(o);
                self.set(s, *d, Val::C(addr(o, 0)));
            }
            In::Br(t) => self.goto(s, *t),
            In::CondBr(c, t, e) => {
                let v = self.get(fr, c);
                let k = self.decide(s, &v)?;
                self.goto(s, if k { *t } else { *e });
            }
            In::Switch(v, def, cases, w) => {
                let x = self.get(fr, v);
                let c = match x {
                    Val::C(c) => c,
                    Val::E(id) => {
                        if let Some(c) = self.try_conc(s, id) {
                            c
                        } else {
                            // partition by target block
                            let mut byt: HashMap<u32, Vec<u64>> = HashMap::new();
                            for (k, t) in cases {
                                byt.entry(*t).or_default().push(*k);
                            }
                            let mut ts: Vec<_> = byt.into_iter().collect();
                            ts.sort();
                            for (t, ks) in ts {
                                let mut acc = Val::C(0);
                                for k in ks {
                                    let e = self.a.cmp(Pred::Eq, *w, &x, &Val::C(k));
                                    acc = self.a.bin(BinOp::Or, 1, &acc, &e);
                                }
                                if self.decide(s, &acc)? {
                                    self.goto(s, t);
                                    return Ok(true);
                                }
                            }
                            self.goto(s, *def);
                            return Ok(true);
                        }
                    }
                    _ => return unsup("wide switch"),
                };
                let t = cases.iter().find(|k| k.0 == c).map(|k| k.1).unwrap_or(*def);
                self.goto(s, t);
            }
            In::Ret(v) => {
                let x = v.as_ref().map(|v| self.get(fr, v));
                if let (1, Some(Val::C(c))) = (s.frames.len(), &x) {
                    s.retval = *c;
                }
                if self.do_ret(s, x) {
                    return Ok(false);
                }
            }
            In::Unreachable => {
                let l = self.loc(s);
                return Err(Stop::Done(End::Abort(format!("unreachable in {}", l))));
            }
            In::Call(c, args, rt, dst, norm) => return self.call(s, c, args, rt, *dst, norm.unwrap_or(u32::MAX)),
            In::Cast(k, ft, tt, a, d) => {
                let x = self.get(fr, a);
                let v = self.cast(s, *k, ft, tt, &x)?;
                self.set(s, *d, v);
            }
            In::ExtractValue(a, ix, d) => {
                let mut x = self.get(fr, a);
                for i in ix {
                    x = match &x {
                        Val::A(v) => v[*i].clone(),
                        _ => return unsup("extractvalue"),
                    };
                }
                self.set(s, *d, x);
            }
            In::InsertValue(a, v, ix, d) => {
                let x = self.get(fr, a);
                let y = self.get(fr, v);
                fn ins(x: Val, ix: &[usize], y: Val) -> Val {
                    if ix.is_empty() {
                        return y;
                    }
                    match x {
                        Val::A(v) => {
                            let mut v = (*v).clone();
                            v[ix[0]] = ins(v[ix[0]].clone(), &ix[1..], y);
                            Val::A(Rc::new(v))
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                self.set(s, *d, ins(x, ix, y));
            }
            In::ExtractElem(a, ix, d) => {
                let x = self.get(fr, a);
                let i = self.get(fr, ix);
                let i = self.conc(s, &i, 64)?;
                let Val::A(v) = &x else { return unsup("extractelement") };
                let r = v[i as usize].clone();
                self.set(s, *d, r);
            }
            In::InsertElem(a, v, ix, d) => {
                let x = self.get(fr, a);
                let y = self.get(fr, v);
                let i = self.get(fr, ix);
                let i = self.conc(s, &i, 64)?;
                let Val::A(v) = &x else { return unsup("insertelement") };
                let mut v = (**v).clone();
                v[i as usize] = y;
                self.set(s, *d, Val::A(Rc::new(v)));
            }
            In::Shuffle(a, b, mask, n, d) => {
                let (Val::A(x), Val::A(y)) = (self.get(fr, a), self.get(fr, b)) else { return unsup("shuffle") };
                let r = mask
                    .iter()
                    .map(|m| if *m < 0 { Val::C(0) } else if (*m as usize) < *n { x[*m as usize].clone() } else { y[*m as usize - *n].clone() })
                    .collect();
                self.set(s, *d, Val::A(Rc::new(r)));
            }
            In::Rmw(o, t, p, v, d) => {
                let p = self.get(fr, p);
                let y = self.get(fr, v);
                let p = self.conc(s, &p, 64)?;
                let x = self.load(s, t, p)?;
                let w = t.bits();
                let n = match o.as_str() {
                    "add" => self.a.bin(BinOp::Add, w, &x, &y),
                    "sub" => self.a.bin(BinOp::Sub, w, &x, &y),
                    "and" => self.a.bin(BinOp::And, w, &x, &y),
                    "or" => self.a.bin(BinOp::Or, w, &x, &y),
                    "xor" => self.a.bin(BinOp::Xor, w, &x, &y),
                    "xchg" => y,
                    _ => return unsup(format!("atomicrmw {}", o)),
                };
                self.store(s, t, p, &n)?;
                self.set(s, *d, x);
            }
            In::CmpXchg(t, p, c, n, d) => {
                let p = self.get(fr, p);
                let (c, n) = (self.get(fr, c), self.get(fr, n));
                let p = self.conc(s, &p, 64)?;
                let x = self.load(s, t, p)?;
                let e = self.a.cmp(Pred::Eq, t.bits(), &x, &c);
                let k = self.decide(s, &e)?;
                if k {
                    self.store(s, t, p, &n)?;
                }
                self.set(s, *d, Val::A(Rc::new(vec![x, Val::C(k as u64)])));
            }
            In::Copy(a, d) => {
                let x = self.get(fr, a);
                self.set(s, *d, x);
            }
            In::Nop => s.frames.last_mut().unwrap().ip += 1,
        }
        Ok(true)
    }
    /// truth by domain only, no solver
    fn quick(&self, s: &State, id: Id) -> Option<bool> {
        if let Some(v) = self.a.single(id) {
            let t = self.a.tab_of(id)?;
            let mut it = bits_iter(&s.dom[v]);
            let f = t[it.next().unwrap()] & 1;
            return if it.all(|i| t[i] & 1 == f) { Some(f != 0) } else { None };
        }
        s.known.get(&id).map(|x| *x != 0)
    }
    fn vec2(&mut self, x: &Val, y: &Val, f: impl Fn(&mut Arena, &Val, &Val) -> Val) -> Val {
        match (x, y) {
            (Val::A(x), Val::A(y)) => Val::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| f(&mut self.a, p, q)).collect())),
            _ => panic!("vector operands"),
        }
    }
    fn load_sym(&mut self, s: &State, t: &Ty, p: &Val) -> R<Val> {
        let Val::E(id) = p else { return unsup("pointer") };
        if let Some(c) = self.try_conc(s, *id) {
            return self.load(s, t, c);
        }
        let scalar = matches!(t, Ty::Int(w) if *w <= 64) || matches!(t, Ty::Ptr | Ty::F64);
        if let (Some(v), true) = (self.a.single(*id), scalar) {
            let tab = self.a.tab_of(*id).unwrap().clone();
            let n = tab.len();
            let mut out = vec![None; n];
            let mut ok = true;
            let mut memo: HashMap<u64, Val> = HashMap::new();
            for i in bits_iter(&s.dom[v]) {
                let val = match memo.get(&tab[i]) {
                    Some(x) => x.clone(),
                    None => {
                        let x = self.load(s, t, tab[i])?;
                        memo.insert(tab[i], x.clone());
                        x
                    }
                };
                match val {
                    Val::C(c) => out[i] = Some(c),
                    Val::E(e) if self.a.single(e) == Some(v) => out[i] = Some(self.a.tab_of(e).unwrap()[i]),
                    _ => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                let fill = out.iter().flatten().next().copied().unwrap();
                let tb: Vec<u64> = out.into_iter().map(|x| x.unwrap_or(fill)).collect();
                return Ok(self.a.from_tab(v, t.bits(), tb));
            }
        }
        Err(Stop::Split(*id))
    }

    // ---------- floats ----------
    /// replace a constant that stands for a formatted symbolic number
    fn named(&self, v: &Val) -> Val {
        if self.tokmap.is_empty() {
            return v.clone();
        }
        if let Val::C(c) = v {
            if let Some(id) = self.tokmap.get(c) {
                return Val::E(*id);
            }
        }
        v.clone()
    }
    fn ann(&mut self, v: &Val) -> Option<F> {
        match v {
            Val::C(c) => self.a.fconst(f64::from_bits(*c)),
            Val::E(i) => self.a.fann(*i),
            _ => None,
        }
    }
    /// a float that depends on one variable but fits no common scale: case split
    fn fsplit(&mut self, s: &State, v: Val) -> R<Val> {
        if let Val::E(id) = v {
            if self.a.single(id).is_some() && self.a.fann(id).is_none() {
                return Ok(Val::C(self.conc(s, &v, 64)?));
            }
        }
        Ok(v)
    }
    fn sing2(&self, x: &Val, y: &Val) -> bool {
        let m = |v: &Val| match v {
            Val::E(i) => self.a.nodes[*i as usize].vars,
            _ => 0,
        };
        let v = m(x) | m(y);
        v & v.wrapping_sub(1) == 0
    }
    fn fbin(&mut self, s: &State, o: FOp, x: &Val, y: &Val) -> R<Val> {
        let x = self.named(x);
        let mut y = self.named(y);
        let k = match o {
            FOp::Add => K::FAdd,
            FOp::Sub => K::FSub,
            FOp::Mul => K::FMul,
            FOp::Div => K::FDiv,
            FOp::Rem => {
                let Val::C(b) = &y else { return unsup("frem") };
                let b = f64::from_bits(*b);
                return match &x {
                    Val::C(a) => Ok(Val::C((f64::from_bits(*a) % b).to_bits())),
                    Val::E(id) if self.a.single(*id).is_some() && self.a.tab_of(*id).is_some() => {
                        let v = self.a.single(*id).unwrap();
                        let t: Vec<u64> = self.a.tab_of(*id).unwrap().iter().map(|c| (f64::from_bits(*c) % b).to_bits()).collect();
                        Ok(self.a.from_tab(v, 64, t))
                    }
                    _ => unsup("frem"),
                };
            }
        };
        if let (Val::C(a), Val::C(b)) = (&x, &y) {
            return Ok(Val::C(expr::ev(k, 64, 0, [64; 3], [*a as u128, *b as u128, 0]) as u64));
        }
        if self.sing2(&x, &y) {
            return Ok(self.a.fnode(k, &x, Some(&y)));
        }
        if k == K::FDiv {
            if let Val::E(_) = y {
                let c = self.conc(s, &y, 64)?;
                y = Val::C(c);
            }
            if let Val::C(c) = y {
                let d = f64::from_bits(c);
                if d == 0.0 {
                    let p = self.fcmp(s, "ogt", &x, &Val::C(0))?;
                    if self.decide(s, &p)? {
                        return Ok(Val::C((1.0 / d).to_bits()));
                    }
                    let p = self.fcmp(s, "olt", &x, &Val::C(0))?;
                    if self.decide(s, &p)? {
                        return Ok(Val::C((-1.0 / d).to_bits()));
                    }
                    return Ok(Val::C(f64::NAN.to_bits()));
                }
                if !d.is_finite() {
                    return Ok(Val::C(if d.is_nan() { c } else { 0 }));
                }
            }
        }
        // operations with infinities / NaN
        for (p, sgn) in [(&x, 1.0), (&y, if k == K::FSub { -1.0 } else { 1.0 })] {
            if let Val::C(c) = p {
                let d = f64::from_bits(*c);
                if !d.is_finite() && k != K::FMul {
                    return Ok(Val::C((d * sgn).to_bits()));
                }
            }
        }
        let (x, y) = (self.fsplit(s, x)?, self.fsplit(s, y)?);
        if let (Val::C(a), Val::C(b)) = (&x, &y) {
            return Ok(Val::C(expr::ev(k, 64, 0, [64; 3], [*a as u128, *b as u128, 0]) as u64));
        }
        let r = self.a.fnode(k, &x, Some(&y));
        if let Val::E(id) = r {
            if self.a.fann(id).is_none() {
                let (p, q) = (self.ann(&x), self.ann(&y));
                return unsup(format!("float {:?} {:?} {:?} at {}", k, p, q, self.loc(s)));
            }
        }
        Ok(r)
    }
    pub fn fcmp(&mut self, s: &State, p: &str, x: &Val, y: &Val) -> R<Val> {
        let x = self.named(x);
        let y = self.named(y);
        let (uno, base) = match p {
            "ord" | "uno" => (p == "uno", "ord"),
            "true" => return Ok(Val::C(1)),
            "false" => return Ok(Val::C(0)),
            _ => (p.starts_with('u'), &p[1..]),
        };
        if let (Val::C(a), Val::C(b)) = (&x, &y) {
            let (a, b) = (f64::from_bits(*a), f64::from_bits(*b));
            let un = a.is_nan() || b.is_nan();
            let r = match base {
                "ord" => un == uno,
                "eq" => (un && uno) || a == b,
                "ne" => (un && uno) || (!un && a != b),
                "lt" => (un && uno) || a < b,
                "le" => (un && uno) || a <= b,
                "gt" => (un && uno) || a > b,
                "ge" => (un && uno) || a >= b,
                _ => return unsup(format!("fcmp {}", p)),
            };
            return Ok(Val::C(r as u64));
        }
        // values that depend on one variable: tables, which may hold infinities and NaN
        let tab = |v: &Val| match v {
            Val::C(c) => Some((None, None, *c)),
            Val::E(id) => Some((Some(self.a.single(*id)?), Some(self.a.tab_of(*id)?.clone()), 0)),
            _ => None,
        };
        if let (Some(p), Some(q)) = (tab(&x), tab(&y)) {
            let v = p.0.or(q.0);
            if v == q.0.or(p.0) {
                let n = p.1.as_ref().or(q.1.as_ref()).unwrap().len();
                let f = |t: &(Option<usize>, Option<Rc<[u64]>>, u64), i: usize| f64::from_bits(t.1.as_ref().map(|t| t[i]).unwrap_or(t.2));
                let mut out = Vec::with_capacity(n);
                for i in 0..n {
                    let (a, b) = (f(&p, i), f(&q, i));
                    let un = a.is_nan() || b.is_nan();
                    out.push(match base {
                        "ord" => un == uno,
                        "eq" => (un && uno) || a == b,
                        "ne" => (un && uno) || (!un && a != b),
                        "lt" => (un && uno) || a < b,
                        "le" => (un && uno) || a <= b,
                        "gt" => (un && uno) || a > b,
                        "ge" => (un && uno) || a >= b,
                        _ => return unsup(format!("fcmp {}", p.2)),
                    } as u64);
                }
                return Ok(self.a.from_tab(v.unwrap(), 1, out));
            }
        }
        let nonfin = |v: &Val| matches!(v, Val::C(c) if !f64::from_bits(*c).is_finite());
        let (k, a, b, neg) = match base {
            "ord" => {
                let isnan = |v: &Val| matches!(v, Val::C(c) if f64::from_bits(*c).is_nan());
                if isnan(&x) || isnan(&y) {
                    return Ok(Val::C(uno as u64));
                }
                return Ok(Val::C(!uno as u64));
            }
            "eq" => (K::FEq, x, y, false),
            "ne" => (K::FEq, x, y, true),
            "lt" => (K::FLt, x, y, false),
            "le" => (K::FLe, x, y, false),
            "gt" => (K::FLt, y, x, false),
            "ge" => (K::FLe, y, x, false),
            _ => return unsup(format!("fcmp {}", p)),
        };
        let r = if nonfin(&a) || nonfin(&b) {
            let g = |v: &Val| match v {
                Val::C(c) => f64::from_bits(*c),
                _ => 0.0,
            };
            let (fa, fb) = (g(&a), g(&b));
            if fa.is_nan() || fb.is_nan() {
                return Ok(Val::C((uno) as u64));
            }
            Val::C(match k {
                K::FEq => 0,
                _ => (fa < fb) as u64,
            })
        } else if self.sing2(&a, &b) {
            self.a.fcmpnode(k, &a, &b)
        } else {
            let (a, b) = (self.fsplit(s, a)?, self.fsplit(s, b)?);
            let (fa, fb) = (self.ann(&a), self.ann(&b));
            let (Some(fa), Some(fb)) = (fa, fb) else { return unsup(format!("fcmp operands at {}", self.loc(s))) };
            let Some((c, tie)) = self.a.f_cmp(k, &fa, &fb) else { return unsup(format!("fcmp precision {:?} {:?} at {}", fa, fb, self.loc(s))) };
            if let Some(t) = tie {
                if self.decide(s, &t)? {
                    return Err(Stop::Done(End::Tie));
                }
            }
            c
        };
        if neg {
            return Ok(self.a.bin(BinOp::Xor, 1, &r, &Val::C(1)));
        }
        Ok(r)
    }
    /// a comparison that looks at the sign bit of a computed float
    fn fsigncmp(&self, p: Pred, x: &Val, y: &Val) -> bool {
        let (Val::E(id), Val::C(c)) = (x, y) else { return false };
        matches!(self.a.nodes[*id as usize].k, K::FAdd | K::FSub | K::FMul | K::FDiv | K::FNeg | K::FAbs | K::FMin | K::FMax | K::FRound | K::SiToFp | K::UiToFp)
            && ((p == Pred::Slt && *c == 0) || (p == Pred::Sgt && *c == u64::MAX))
            && !self.sing2(x, x)
    }
    /// the sign bit of a float; the sign of a zero is not tracked across operations
    fn fsign(&mut self, s: &State, x: &Val) -> R<Val> {
        let x = self.named(x);
        if let Val::C(a) = &x {
            return Ok(Val::C(a >> 63));
        }
        if self.sing2(&x, &x) {
            return Ok(self.a.vextract(&x, 64, 63, 1));
        }
        let z = self.fcmp(s, "oeq", &x, &Val::C(0))?;
        if self.decide(s, &z)? {
            return Err(Stop::Done(End::Tie));
        }
        self.fcmp(s, "olt", &x, &Val::C(0))
    }
    fn f1(&mut self, s: &State, k: K, x: &Val) -> R<Val> {
        let x = self.named(x);
        if let Val::C(a) = &x {
            return Ok(Val::C(expr::ev(k, 64, 0, [64; 3], [*a as u128, 0, 0]) as u64));
        }
        if self.sing2(&x, &x) {
            return Ok(self.a.fnode(k, &x, None));
        }
        if k == K::FRound {
            let Some(fx) = self.ann(&x) else { return unsup("round operand") };
            let Some((_, tie)) = self.a.f_round(&fx) else { return unsup(format!("round precision {:?} at {}", fx, self.loc(s))) };
            if let Some(t) = tie {
                if self.decide(s, &t)? {
                    return Err(Stop::Done(End::Tie));
                }
            }
        }
        let r = self.a.fnode(k, &x, None);
        Ok(r)
    }
    fn cast(&mut self, s: &State, k: Cast, ft: &Ty, tt: &Ty, x: &Val) -> R<Val> {
        Ok(match k {
            Cast::Trunc | Cast::ZExt | Cast::SExt => {
                if let (Ty::Vec(_, fe), Ty::Vec(_, te), Val::A(v)) = (ft, tt, x) {
                    let (fw, tw) = (fe.bits(), te.bits());
                    let mut r = vec![];
                    for y in v.iter() {
                        r.push(self.ext(k, fw, tw, y));
                    }
                    return Ok(Val::A(Rc::new(r)));
                }
                let (fw, tw) = (ft.bits(), tt.bits());
                self.ext(k, fw, tw, x)
            }
            Cast::PtrToInt | Cast::IntToPtr => {
                let (fw, tw) = (ft.bits(), tt.bits());
                if fw == tw { x.clone() } else if fw < tw { self.a.vzext(x, fw, tw) } else { self.a.vextract(x, fw, 0, tw) }
            }
            Cast::BitCast => match (ft, tt) {
                (Ty::Vec(n, e), Ty::Vec(m, g)) => {
                    if n == m {
                        return Ok(x.clone());
                    }
                    let Val::A(v) = x else { return unsup("bitcast") };
                    let (ew, gw) = (e.bits(), g.bits());
                    let mut r = vec![];
                    if gw > ew {
                        let k = (gw / ew) as usize;
                        for c in v.chunks(k) {
                            r.push(self.cat(c, ew));
                        }
                    } else {
                        for y in v.iter() {
                            for j in 0..ew / gw {
                                r.push(self.a.vextract(y, ew, j * gw, gw));
                            }
                        }
                    }
                    Val::A(Rc::new(r))
                }
                (Ty::Vec(_, e), _) => {
                    let Val::A(v) = x else { return unsup("bitcast") };
                    let v = v.clone();
                    self.cat(&v, e.bits())
                }
                (_, Ty::Vec(n, e)) => {
                    let w = ft.bits();
                    let ew = e.bits();
                    Val::A(Rc::new((0..*n as u32).map(|i| self.a.vextract(x, w, i * ew, ew)).collect()))
                }
                _ => x.clone(),
            },
            Cast::SiToFp | Cast::UiToFp => {
                let fw = ft.bits();
                if *tt != Ty::F64 {
                    return unsup("float32");
                }
                let x = &self.trim(s, x, fw);
                match x {
                    Val::C(c) => Val::C(if k == Cast::SiToFp { sx(*c, fw) as f64 } else { *c as f64 }.to_bits()),
                    Val::X(c) => Val::C(if k == Cast::SiToFp { **c as i128 as f64 } else { **c as f64 }.to_bits()),
                    _ => self.a.castnode(if k == Cast::SiToFp { K::SiToFp } else { K::UiToFp }, x, fw, 64),
                }
            }
            Cast::FpExt | Cast::FpTrunc if matches!((ft, tt), (Ty::F32, Ty::F64) | (Ty::F64, Ty::F32)) => {
                let x = self.named(x);
                let g = |c: u64| if k == Cast::FpExt { (f32::from_bits(c as u32) as f64).to_bits() } else { (f64::from_bits(c) as f32).to_bits() as u64 };
                match &x {
                    Val::C(c) => Val::C(g(*c)),
                    Val::E(id) if self.a.single(*id).is_some() && self.a.tab_of(*id).is_some() => {
                        let v = self.a.single(*id).unwrap();
                        let t: Vec<u64> = self.a.tab_of(*id).unwrap().iter().map(|c| g(*c)).collect();
                        self.a.from_tab(v, tt.bits(), t)
                    }
                    _ => return unsup(format!("cast {:?} at {}", k, self.loc(s))),
                }
            }
            Cast::FpToSi | Cast::FpToUi | Cast::FpExt | Cast::FpTrunc => return unsup(format!("cast {:?} at {}", k, self.loc(s))),
        })
    }
    /// entries of a table that this path excludes do not matter: let them continue the pattern
    fn trim(&mut self, s: &State, x: &Val, w: u32) -> Val {
        let Val::E(id) = x else { return x.clone() };
        let Some(v) = self.a.single(*id) else { return x.clone() };
        let Some(t) = self.a.tab_of(*id).cloned() else { return x.clone() };
        let d = s.dom[v].clone();
        let on: Vec<usize> = (0..t.len()).filter(|i| bit(&d, *i)).collect();
        if on.is_empty() || on.len() == t.len() {
            return x.clone();
        }
        let (a, b) = (on[0], on[on.len() - 1]);
        let mut r: Vec<u64> = t.to_vec();
        let step = |i: usize, j: usize| t[j].wrapping_sub(t[i]);
        for i in (0..t.len()).filter(|i| !bit(&d, *i)) {
            r[i] = if i < a {
                if a + 1 < t.len() && bit(&d, a + 1) { t[a].wrapping_sub(step(a, a + 1).wrapping_mul((a - i) as u64)) } else { t[a] }
            } else if i > b {
                if b > 0 && bit(&d, b - 1) { t[b].wrapping_add(step(b - 1, b).wrapping_mul((i - b) as u64)) } else { t[b] }
            } else {
                r[i - 1]
            } & m64(w);
        }
        // keep it within what the original spanned on this path, if extrapolation ran over
        let hi = on.iter().map(|i| t[*i]).max().unwrap();
        let lo = on.iter().map(|i| t[*i]).min().unwrap();
        for (i, e) in r.iter_mut().enumerate() {
            if !bit(&d, i) && (*e > hi || *e < lo) {
                *e = if i < a { t[a] } else { t[b] };
            }
        }
        self.a.from_tab(v, w, r)
    }
    fn ext(&mut self, k: Cast, fw: u32, tw: u32, x: &Val) -> Val {
        match k {
            Cast::Trunc => match x {
                Val::C(c) => Val::C(c & m64(tw)),
                _ => self.a.vextract(x, fw, 0, tw),
            },
            Cast::ZExt => match x {
                Val::C(c) if tw <= 64 => Val::C(*c),
                _ => self.a.vzext(x, fw, tw),
            },
            _ => match x {
                Val::C(c) if tw <= 64 => Val::C(sx(*c, fw) as u64 & m64(tw)),
                _ => self.a.vsext(x, fw, tw),
            },
        }
    }
    fn cat(&mut self, v: &[Val], w: u32) -> Val {
        let mut acc = v[0].clone();
        let mut aw = w;
        for y in &v[1..] {
            acc = self.a.vconcat(y, w, &acc, aw);
            aw += w;
        }
        acc
    }

    // ---------- calls ----------
    fn call(&mut self, s: &mut State, c: &Callee, args: &[(Op, Ty)], rt: &Ty, dst: u32, norm: u32) -> R<bool> {
        let fr = s.frames.last().unwrap();
        let mut av: Vec<Val> = Vec::with_capacity(args.len());
        for (o, _) in args {
            av.push(self.get(fr, o));
        }
        let target = match c {
            Callee::Func(f) => *f,
            Callee::Ext(e) => return self.ext_call(s, *e, av, dst, norm),
            Callee::Intr(n) => {
                let v = self.intr(s, n, av, args, rt)?;
                self.finish_call(s, dst, norm, v);
                return Ok(true);
            }
            Callee::Asm => {
                self.finish_call(s, dst, norm, None);
                return Ok(true);
            }
            Callee::Ind(o) => {
                let p = self.get(fr, o);
                let p = self.conc(s, &p, 64)?;
                let ob = (p >> 32) as u32;
                if p & 0xffff_ffff == 0 && ob >= self.m.fbase && ((ob - self.m.fbase) as usize) < self.m.funcs.len() {
                    ob - self.m.fbase
                } else if p & 0xffff_ffff == 0 && ob >= self.m.ebase && ((ob - self.m.ebase) as usize) < self.m.exts.len() {
                    return self.ext_call(s, ob - self.m.ebase, av, dst, norm);
                } else {
                    return self.mem_err(s, "indirect call of", p);
                }
            }
        };
        match self.hooks[target as usize] {
            Hook::No => {}
            Hook::Panic => {
                let l = self.panic_loc(s, av.last().unwrap());
                self.seen[target as usize] = true;
                return Err(Stop::Done(End::Panic(l)));
            }
            Hook::Memchr | Hook::Memrchr => {
                let n = self.conc(s, &av[2], 64)? as usize;
                let p = self.conc(s, &av[1], 64)?;
                let rev = self.hooks[target as usize] == Hook::Memrchr;
                let r = self.find(s, &av[0], p, n, rev)?;
                self.seen[target as usize] = true;
                let v = Val::A(Rc::new(vec![Val::C(r.is_some() as u64), Val::C(r.unwrap_or(0) as u64)]));
                self.finish_call(s, dst, norm, Some(v));
                return Ok(true);
            }
            Hook::Find => {
                let p = self.conc(s, &av[1], 64)?;
                let e = self.conc(s, &av[2], 64)?;
                let r = self.find(s, &av[0], p, (e - p) as usize, false)?;
                self.seen[target as usize] = true;
                let v = Val::A(Rc::new(vec![Val::C(r.is_some() as u64), Val::C(r.map(|x| p + x as u64).unwrap_or(0))]));
                self.finish_call(s, dst, norm, Some(v));
                return Ok(true);
            }
            Hook::FShort | Hook::FExact => {
                let exact = self.hooks[target as usize] == Hook::FExact;
                let x = self.named(&av[1]);
                if let Val::E(id) = x {
                    if let Some(c) = self.try_conc(s, id) {
                        av[1] = Val::C(c);
                    } else {
                        let neg = self.fcmp(s, "olt", &x, &Val::C(0))?;
                        let neg = self.decide(s, &neg)?;
                        let pos = if neg { self.a.fnode(K::FNeg, &x, None) } else { x };
                        let Val::E(pid) = pos else { return unsup("token") };
                        let prec = if exact { self.conc(s, &av[3], 16)? as i32 } else { -1 };
                        let mk = self.token(s, pid, prec)?;
                        av[1] = Val::C(if neg { -mk } else { mk }.to_bits());
                    }
                }
            }
        }
        self.push_call(s, target, av, dst, norm)?;
        Ok(true)
    }
    fn token(&mut self, s: &mut State, id: Id, prec: i32) -> R<f64> {
        let mut hit = self.tokens.iter().position(|t| t.expr == id && t.prec == prec);
        if hit.is_none() {
            // a number that equals one already printed on this path prints as that one
            if let Some(fx) = self.a.fann(id) {
                if !matches!(fx.kind, FK::Err(_)) {
                    let mut old: Vec<u32> = s.tokens.iter().cloned().collect();
                    old.sort();
                    for k in old {
                        let t = &self.tokens[k as usize];
                        if t.prec != prec || matches!(t.f.kind, FK::Err(_)) {
                            continue;
                        }
                        let tf = t.f.clone();
                        let Some((a, b, ..)) = self.a.common(&fx, &tf) else { continue };
                        let e = self.a.cmp(Pred::Eq, 64, &a, &b);
                        let same = match e {
                            Val::C(c) => c == 1,
                            Val::E(eid) => self.a.eval1(eid, &s.model) == 1 && self.query(s, eid, false)?.is_none(),
                            _ => false,
                        };
                        if same {
                            hit = Some(k as usize);
                            break;
                        }
                    }
                }
            }
        }
        let k = match hit {
            Some(k) => k,
            None => {
                let Some(fx) = self.a.fann(id) else { return unsup(format!("formatting of an unannotated float at {}", self.loc(s))) };
                let k = self.tokens.len();
                let frac = if fx.q == 1 { 0.0 } else if prec == 0 { 0.0 } else if prec == 1 { 0.5 } else { 0.25 };
                let marker = 77700000.0 + k as f64 + frac;
                self.tokens.push(Tok { expr: id, marker, f: fx, prec });
                if prec < 0 {
                    self.tokmap.insert(marker.to_bits(), id);
                    let n = self.a.fnode(K::FNeg, &Val::E(id), None);
                    let Val::E(n) = n else { return unsup("token") };
                    self.tokmap.insert((-marker).to_bits(), n);
                }
                k
            }
        };
        Rc::make_mut(&mut s.tokens).insert(k as u32);
        Ok(self.tokens[k].marker)
    }
    fn panic_loc(&mut self, s: &State, v: &Val) -> String {
        let f = || -> R<String> {
            let Val::C(p) = v else { return unsup("loc") };
            let Val::C(fp) = self.rd(s, *p, 8)? else { return unsup("loc") };
            let Val::C(n) = self.rd(s, *p + 8, 8)? else { return unsup("loc") };
            let Val::C(l) = self.rd(s, *p + 16, 4)? else { return unsup("loc") };
            let o = self.read_obj(s, fp, n as usize)?;
            Ok(format!("{}:{}", String::from_utf8_lossy(&o.data).trim_end_matches('\0'), l))
        };
        let mut f = f;
        f().unwrap_or_else(|_| "?".into())
    }
    fn find(&mut self, s: &State, needle: &Val, p: u64, n: usize, rev: bool) -> R<Option<usize>> {
        if n == 0 {
            return Ok(None);
        }
        let (o, off) = self.obj(s, p, n)?;
        let o = o.clone();
        for k in 0..n {
            let i = if rev { n - 1 - k } else { k };
            if let (Val::C(c), true) = (needle, o.sym.is_empty() || o.sym[off + i].0 == NONE) {
                if o.data[off + i] as u64 == *c {
                    return Ok(Some(i));
                }
                continue;
            }
            let b = self.rd(s, p + i as u64, 1)?;
            let e = self.a.cmp(Pred::Eq, 8, &b, needle);
            if self.decide(s, &e)? {
                return Ok(Some(i));
            }
        }
        Ok(None)
    }
    fn ext_call(&mut self, s: &mut State, e: u32, av: Vec<Val>, dst: u32, norm: u32) -> R<bool> {
        let x = self.exts[e as usize];
        let r = self.libc(s, x, e, &av)?;
        self.finish_call(s, dst, norm, r);
        Ok(true)
    }
    /// lexicographic comparison of memory; eq only: result 0/1
    pub fn cmp_mem(&mut self, s: &State, p: u64, q: u64, n: usize, eq: bool) -> R<Val> {
        if n == 0 {
            return Ok(Val::C(0));
        }
        let (o1, f1) = self.obj(s, p, n)?;
        let (o2, f2) = self.obj(s, q, n)?;
        if o1.concrete(f1, n) && o2.concrete(f2, n) {
            let c = o1.data[f1..f1 + n].cmp(&o2.data[f2..f2 + n]) as i32;
            return Ok(Val::C(c as u32 as u64));
        }
        if eq {
            // concrete mismatch decides immediately
            for i in 0..n {
                let c1 = o1.sym.is_empty() || o1.sym[f1 + i].0 == NONE;
                let c2 = o2.sym.is_empty() || o2.sym[f2 + i].0 == NONE;
                if c1 && c2 && o1.data[f1 + i] != o2.data[f2 + i] {
                    return Ok(Val::C(1));
                }
            }
            let mut acc = Val::C(0);
            for i in 0..n {
                let a = self.rd(s, p + i as u64, 1)?;
                let b = self.rd(s, q + i as u64, 1)?;
                let e = self.a.cmp(Pred::Ne, 8, &a, &b);
                acc = self.a.bin(BinOp::Or, 1, &acc, &e);
            }
            return Ok(self.a.vzext(&acc, 1, 32));
        }
        for i in 0..n {
            let a = self.rd(s, p + i as u64, 1)?;
            let b = self.rd(s, q + i as u64, 1)?;
            let e = self.a.cmp(Pred::Eq, 8, &a, &b);
            if !self.decide(s, &e)? {
                let l = self.a.cmp(Pred::Ult, 8, &a, &b);
                return Ok(Val::C(if self.decide(s, &l)? { 0xffff_ffff } else { 1 }));
            }
        }
        Ok(Val::C(0))
    }
    fn intr(&mut self, s: &mut State, n: &str, av: Vec<Val>, args: &[(Op, Ty)], rt: &Ty) -> R<Option<Val>> {
        let nm = &n[5..];
        if nm.ends_with(".f32") {
            return unsup(format!("{} at {}", nm, self.loc(s)));
        }
        let base = {
            // strip type suffixes: ".i64", ".p0", ".f64", ".v16i8"
            let mut b = nm;
            while let Some(i) = b.rfind('.') {
                let t = &b[i + 1..];
                let c = t.as_bytes()[0];
                if (c == b'i' || c == b'p' || c == b'f' || c == b'v') && t.len() > 1 && t.as_bytes()[1].is_ascii_digit() { b = &b[..i] } else { break }
            }
            b
        };
        let w0 = || match &args[0].1 {
            Ty::Int(w) => *w,
            _ => 64,
        };
        let vecarg = matches!(args.first().map(|a| &a.1), Some(Ty::Vec(..)));
        if vecarg && !base.starts_with("vector.reduce") {
            // elementwise
            let (Ty::Vec(cnt, et), rt2) = (&args[0].1, rt) else { unreachable!() };
            let Ty::Vec(_, rte) = rt2 else { return unsup(format!("vector intrinsic {}", n)) };
            let mut out = vec![];
            let eargs: Vec<(Op, Ty)> = args.iter().map(|(o, t)| (o.clone(), if let Ty::Vec(_, e) = t { (**e).clone() } else { t.clone() })).collect();
            let _ = et;
            for i in 0..*cnt {
                let ev: Vec<Val> = av.iter().map(|v| if let Val::A(x) = v { x[i].clone() } else { v.clone() }).collect();
                let r = self.intr(s, &format!("llvm.{}", base), ev, &eargs, rte)?;
                out.push(r.unwrap());
            }
            return Ok(Some(Val::A(Rc::new(out))));
        }
        Ok(Some(match base {
            "memcpy" | "memmove" => {
                let n = self.conc(s, &av[2], 64)? as usize;
                if n > 0 {
                    let d = self.conc(s, &av[0], 64)?;
                    let p = self.conc(s, &av[1], 64)?;
                    self.copy(s, d, p, n)?;
                }
                return Ok(None);
            }
            "memset" => {
                let n = self.conc(s, &av[2], 64)? as usize;
                if n > 0 {
                    let d = self.conc(s, &av[0], 64)?;
                    let b = self.conc(s, &av[1], 8)? as u8;
                    let (o, off) = self.obj_mut(s, d, n)?;
                    o.data[off..off + n].fill(b);
                    if !o.sym.is_empty() {
                        for x in &mut o.sym[off..off + n] {
                            x.0 = NONE
                        }
                    }
                }
                return Ok(None);
            }
            "trap" => return Err(Stop::Done(End::Abort(format!("trap in {}", self.loc(s))))),
            "x86.sse2.pause" | "prefetch" => return Ok(None),
            "threadlocal.address" => av[0].clone(),
            "is.constant" => Val::C(0),
            "expect" => av[0].clone(),
            "umin" | "umax" | "smin" | "smax" => {
                let w = w0();
                let p = match base {
                    "umin" => Pred::Ult,
                    "umax" => Pred::Ugt,
                    "smin" => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = self.a.cmp(p, w, &av[0], &av[1]);
                self.a.ite(&c, &av[0], &av[1], w)
            }
            "abs" => {
                let w = w0();
                let z = Val::C(0);
                let neg = self.a.bin(BinOp::Sub, w, &z, &av[0]);
                let c = self.a.cmp(Pred::Slt, w, &av[0], &z);
                self.a.ite(&c, &neg, &av[0], w)
            }
            "ucmp" | "scmp" => {
                let w = w0();
                let rw = rt.bits();
                let lt = self.a.cmp(if base == "ucmp" { Pred::Ult } else { Pred::Slt }, w, &av[0], &av[1]);
                let gt = self.a.cmp(if base == "ucmp" { Pred::Ugt } else { Pred::Sgt }, w, &av[0], &av[1]);
                let g = self.a.ite(&gt, &Val::C(1), &Val::C(0), rw);
                self.a.ite(&lt, &Val::C(m64(rw)), &g, rw)
            }
            "uadd.sat" | "usub.sat" | "sadd.sat" | "ssub.sat" => {
                let w = w0();
                let (r, o) = self.ovf(&base[..4], w, &av[0], &av[1]);
                let sat = match base {
                    "uadd.sat" => Val::C(m64(w)),
                    "usub.sat" => Val::C(0),
                    _ => {
                        let c = self.a.cmp(Pred::Slt, w, &av[0], &Val::C(0));
                        self.a.ite(&c, &Val::C(1 << (w - 1)), &Val::C(m64(w) >> 1), w)
                    }
                };
                self.a.ite(&o, &sat, &r, w)
            }
            "uadd.with.overflow" | "usub.with.overflow" | "umul.with.overflow" | "sadd.with.overflow" | "ssub.with.overflow" | "smul.with.overflow" => {
                let w = w0();
                let (r, o) = self.ovf(&base[..4], w, &av[0], &av[1]);
                Val::A(Rc::new(vec![r, o]))
            }
            "fshl" | "fshr" => {
                let w = w0();
                let k = self.conc(s, &av[2], w)? % w as u64;
                if k == 0 {
                    if base == "fshl" { av[0].clone() } else { av[1].clone() }
                } else {
                    let k = if base == "fshl" { k } else { w as u64 - k };
                    let h = self.a.bin(BinOp::Shl, w, &av[0], &Val::C(k));
                    let l = self.a.bin(BinOp::LShr, w, &av[1], &Val::C(w as u64 - k));
                    self.a.bin(BinOp::Or, w, &h, &l)
                }
            }
            "ctlz" | "cttz" | "ctpop" | "bswap" | "bitreverse" => {
                let w = w0();
                let f = |x: u64| -> u64 {
                    match base {
                        "ctlz" => x.leading_zeros() as u64 - (64 - w as u64),
                        "cttz" => if x == 0 { w as u64 } else { x.trailing_zeros() as u64 },
                        "ctpop" => x.count_ones() as u64,
                        "bswap" => x.swap_bytes() >> (64 - w),
                        _ => x.reverse_bits() >> (64 - w),
                    }
                };
                match &av[0] {
                    Val::C(x) => Val::C(f(*x)),
                    Val::X(x) => {
                        let x = **x;
                        let r = match base {
                            "ctlz" => x.leading_zeros() as u128 - (128 - w as u128),
                            "cttz" => if x == 0 { w as u128 } else { x.trailing_zeros() as u128 },
                            "ctpop" => x.count_ones() as u128,
                            "bswap" => x.swap_bytes() >> (128 - w),
                            _ => x.reverse_bits() >> (128 - w),
                        };
                        Val::X(Rc::new(r))
                    }
                    Val::E(id) => {
                        if let (Some(v), true) = (self.a.single(*id), w <= 64) {
                            let t: Vec<u64> = self.a.tab_of(*id).unwrap().iter().map(|x| f(*x)).collect();
                            self.a.from_tab(v, w, t)
                        } else if base == "bswap" {
                            let mut acc: Option<(Val, u32)> = None;
                            for i in 0..w / 8 {
                                let b = self.a.vextract(&av[0], w, i * 8, 8);
                                acc = Some(match acc {
                                    None => (b, 8),
                                    Some((h, hw)) => (self.a.vconcat(&h, hw, &b, 8), hw + 8),
                                });
                            }
                            acc.unwrap().0
                        } else if base == "cttz" {
                            // fork bit by bit
                            for i in 0..w {
                                let b = self.a.vextract(&av[0], w, i, 1);
                                if self.decide(s, &b)? {
                                    return Ok(Some(Val::C(i as u64)));
                                }
                            }
                            Val::C(w as u64)
                        } else if base == "ctlz" {
                            for i in 0..w {
                                let b = self.a.vextract(&av[0], w, w - 1 - i, 1);
                                if self.decide(s, &b)? {
                                    return Ok(Some(Val::C(i as u64)));
                                }
                            }
                            Val::C(w as u64)
                        } else if base == "ctpop" {
                            let mut acc = Val::C(0);
                            for i in 0..w {
                                let b = self.a.vextract(&av[0], w, i, 1);
                                let z = self.a.vzext(&b, 1, w);
                                acc = self.a.bin(BinOp::Add, w, &acc, &z);
                            }
                            acc
                        } else {
                            return unsup(format!("symbolic {}", n));
                        }
                    }
                    _ => return unsup("bit intrinsic"),
                }
            }
            "fabs" => self.f1(s, K::FAbs, &av[0])?,
            "round" => self.f1(s, K::FRound, &av[0])?,
            "minnum" | "minimumnum" | "maxnum" | "maximumnum" => {
                let (x, y) = (self.named(&av[0]), self.named(&av[1]));
                let k = if base.starts_with("min") { K::FMin } else { K::FMax };
                if let (Val::C(a), Val::C(b)) = (&x, &y) {
                    Val::C(expr::ev(k, 64, 0, [64; 3], [*a as u128, *b as u128, 0]) as u64)
                } else if self.sing2(&x, &y) {
                    self.a.fnode(k, &x, Some(&y))
                } else {
                    let (x, y) = (self.fsplit(s, x)?, self.fsplit(s, y)?);
                    if let (Val::C(a), Val::C(b)) = (&x, &y) {
                        return Ok(Some(Val::C(expr::ev(k, 64, 0, [64; 3], [*a as u128, *b as u128, 0]) as u64)));
                    }
                    let r = self.a.fnode(k, &x, Some(&y));
                    if let Val::E(id) = r {
                        if self.a.fann(id).is_none() {
                            let (p, q) = (self.ann(&x), self.ann(&y));
                            return unsup(format!("min/max operands {:?} {:?}", p, q));
                        }
                    }
                    r
                }
            }
            "copysign" => {
                let x = self.f1(s, K::FAbs, &av[0])?;
                let neg = self.fsign(s, &av[1])?;
                match neg {
                    Val::C(0) => x,
                    Val::C(_) => self.f1(s, K::FNeg, &x)?,
                    _ => {
                        if self.decide(s, &neg)? { self.f1(s, K::FNeg, &x)? } else { x }
                    }
                }
            }
            "fma" | "fmuladd" => {
                let m = self.fbin(s, FOp::Mul, &av[0], &av[1])?;
                if let (Val::C(a), Val::C(b), Val::C(c)) = (&av[0], &av[1], &av[2]) {
                    return Ok(Some(Val::C(f64::from_bits(*a).mul_add(f64::from_bits(*b), f64::from_bits(*c)).to_bits())));
                }
                self.fbin(s, FOp::Add, &m, &av[2])?
            }
            "floor" | "ceil" | "trunc" | "rint" | "roundeven" => {
                let x = self.named(&av[0]);
                let g = |c: u64| -> u64 {
                    let v = f64::from_bits(c);
                    match base {
                        "floor" => v.floor(),
                        "ceil" => v.ceil(),
                        "trunc" => v.trunc(),
                        _ => v.round_ties_even(),
                    }
                    .to_bits()
                };
                match &x {
                    Val::C(c) => Val::C(g(*c)),
                    Val::E(id) => {
                        if let Some(v) = self.a.single(*id) {
                            let t: Vec<u64> = self.a.tab_of(*id).unwrap().iter().map(|c| g(*c)).collect();
                            self.a.from_tab(v, 64, t)
                        } else if let Some(fx) = self.a.fann(*id) {
                            if fx.q == 1 && matches!(fx.kind, FK::Exact) { x.clone() } else { self.int_round(s, base, &fx)? }
                        } else {
                            return unsup(format!("symbolic {}", n));
                        }
                    }
                    _ => return unsup("float"),
                }
            }
            "fptoui.sat" | "fptosi.sat" => {
                let x = self.named(&av[0]);
                let w = rt.bits();
                let conv = |c: u64| -> u64 {
                    let v = f64::from_bits(c);
                    if base == "fptoui.sat" {
                        if v.is_nan() || v <= 0.0 { 0 } else if v >= m64(w) as f64 { m64(w) } else { v as u64 }
                    } else {
                        let (lo, hi) = (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1));
                        (if v.is_nan() { 0 } else if v <= lo { (m64(w) ^ (m64(w) >> 1)) as i64 } else if v >= hi { (m64(w) >> 1) as i64 } else { v as i64 }) as u64 & m64(w)
                    }
                };
                match &x {
                    Val::C(c) => Val::C(conv(*c)),
                    Val::E(id) => {
                        if let Some(v) = self.a.single(*id) {
                            let t: Vec<u64> = self.a.tab_of(*id).unwrap().iter().map(|c| conv(*c)).collect();
                            self.a.from_tab(v, w, t)
                        } else {
                            let Some(fx) = self.a.fann(*id) else { return unsup("float to int operand") };
                            if !matches!(fx.kind, FK::Exact) && fx.q != 1 {
                                // fine as long as the truncation is determined
                                let Some(_) = self.a.f_round(&fx) else { return unsup("float to int precision") };
                            }
                            let t = self.int_round(s, "trunc", &fx)?;
                            let Val::E(tid) = t else {
                                let Val::C(c) = t else { return unsup("x") };
                                return Ok(Some(Val::C(conv(c))));
                            };
                            let Some(ft) = self.a.fann(tid) else { return unsup("float to int range") };
                            let num = self.a.bin(BinOp::Mul, 64, &ft.num, &Val::C(ft.p));
                            if base == "fptoui.sat" {
                                let neg = self.a.cmp(Pred::Slt, 64, &num, &Val::C(0));
                                let v = self.a.ite(&neg, &Val::C(0), &num, 64);
                                if w < 64 {
                                    let big = self.a.cmp(Pred::Ugt, 64, &v, &Val::C(m64(w)));
                                    let v = self.a.ite(&big, &Val::C(m64(w)), &v, 64);
                                    self.a.vextract(&v, 64, 0, w)
                                } else {
                                    v
                                }
                            } else if w < 64 {
                                let (hi, lo) = ((m64(w) >> 1) as i64, -((m64(w) >> 1) as i64) - 1);
                                let big = self.a.cmp(Pred::Sgt, 64, &num, &Val::C(hi as u64));
                                let v = self.a.ite(&big, &Val::C(hi as u64), &num, 64);
                                let small = self.a.cmp(Pred::Slt, 64, &v, &Val::C(lo as u64));
                                let v = self.a.ite(&small, &Val::C(lo as u64), &v, 64);
                                self.a.vextract(&v, 64, 0, w)
                            } else {
                                num
                            }
                        }
                    }
                    _ => return unsup("float"),
                }
            }
            "vector.reduce.add" | "vector.reduce.or" | "vector.reduce.and" | "vector.reduce.xor" | "vector.reduce.umax" | "vector.reduce.umin" => {
                let (Val::A(v), Ty::Vec(_, e)) = (&av[0], &args[0].1) else { return unsup("reduce") };
                let w = e.bits();
                let mut acc = v[0].clone();
                for y in &v[1..] {
                    acc = match base {
                        "vector.reduce.add" => self.a.bin(BinOp::Add, w, &acc, y),
                        "vector.reduce.or" => self.a.bin(BinOp::Or, w, &acc, y),
                        "vector.reduce.xor" => self.a.bin(BinOp::Xor, w, &acc, y),
                        "vector.reduce.and" => self.a.bin(BinOp::And, w, &acc, y),
                        _ => {
                            let c = self.a.cmp(if base.ends_with("max") { Pred::Ugt } else { Pred::Ult }, w, &acc, y);
                            self.a.ite(&c, &acc, y, w)
                        }
                    };
                }
                acc
            }
            _ => return unsup(format!("intrinsic {} at {}", n, self.loc(s))),
        }))
    }
    /// floor/ceil/trunc of num*p/q as a float expression
    fn int_round(&mut self, s: &State, base: &str, fx: &F) -> R<Val> {
        let m = self.a.f_max(fx) + self.a.f_err(fx);
        if base == "trunc" && m < 0.999 {
            return Ok(Val::C(0));
        }
        if matches!(fx.kind, FK::Err(_)) {
            let num = self.a.bin(BinOp::Mul, 64, &fx.num, &Val::C(fx.p));
            let r = self.a.bin(BinOp::SRem, 64, &num, &Val::C(fx.q));
            let z = self.a.cmp(Pred::Eq, 64, &r, &Val::C(0));
            if self.decide(s, &z)? {
                return Err(Stop::Done(End::Tie));
            }
        }
        let lim = 1i128 << 60;
        let (lo, hi) = (fx.lo as i128 * fx.p as i128, fx.hi as i128 * fx.p as i128);
        if lo < -lim || hi > lim {
            return unsup("rounding range");
        }
        let num = self.a.bin(BinOp::Mul, 64, &fx.num, &Val::C(fx.p));
        let q = Val::C(fx.q);
        let neg = self.a.cmp(Pred::Slt, 64, &num, &Val::C(0));
        let nn = self.a.bin(BinOp::Sub, 64, &Val::C(0), &num);
        let abs = self.a.ite(&neg, &nn, &num, 64);
        let dn = self.a.bin(BinOp::UDiv, 64, &abs, &q);
        let up0 = self.a.bin(BinOp::Add, 64, &abs, &Val::C(fx.q - 1));
        let up = self.a.bin(BinOp::UDiv, 64, &up0, &q);
        let (pos, ng) = match base {
            "floor" => (dn.clone(), up),
            "ceil" => (up, dn.clone()),
            "trunc" => (dn.clone(), dn),
            _ => return unsup("rounding mode"),
        };
        let nng = self.a.bin(BinOp::Sub, 64, &Val::C(0), &ng);
        let r = self.a.ite(&neg, &nng, &pos, 64);
        let v = self.a.castnode(K::SiToFp, &r, 64, 64);
        if let Val::E(id) = v {
            let (a, b) = ((lo.div_euclid(fx.q as i128)) as i64, (hi.div_euclid(fx.q as i128) + 1) as i64);
            if a.abs() < 1 << 52 && b.abs() < 1 << 52 {
                self.a.set_fann(id, F { num: r, lo: a, hi: b, p: 1, q: 1, kind: FK::Exact });
            }
        }
        Ok(v)
    }
    fn ovf(&mut self, k: &str, w: u32, x: &Val, y: &Val) -> (Val, Val) {
        let op = match &k[1..] {
            "add" => BinOp::Add,
            "sub" => BinOp::Sub,
            _ => BinOp::Mul,
        };
        let r = self.a.bin(op, w, x, y);
        if let (Val::C(a), Val::C(b), true) = (x, y, w <= 64) {
            let sg = k.starts_with('s');
            let o = if sg {
                let (a, b) = (sx(*a, w) as i128, sx(*b, w) as i128);
                let t = match op {
                    BinOp::Add => a + b,
                    BinOp::Sub => a - b,
                    _ => a * b,
                };
                t < -(1i128 << (w - 1)) || t >= 1i128 << (w - 1)
            } else {
                let (a, b) = (*a as u128, *b as u128);
                match op {
                    BinOp::Add => a + b > m64(w) as u128,
                    BinOp::Sub => a < b,
                    _ => a * b > m64(w) as u128,
                }
            };
            return (r, Val::C(o as u64));
        }
        let o = match k {
            "uadd" => self.a.cmp(Pred::Ult, w, &r, x),
            "usub" => self.a.cmp(Pred::Ult, w, x, y),
            "sadd" | "ssub" => {
                // by ranges first
                let rg = |a: &Arena, v: &Val| match v {
                    Val::C(c) => {
                        let t = sx(*c, w);
                        Some((t, t))
                    }
                    Val::E(i) => a.srange(*i),
                    _ => None,
                };
                if let (Some(a), Some(b), true) = (rg(&self.a, x), rg(&self.a, y), w <= 64) {
                    let (lo, hi) = if k == "sadd" { (a.0 as i128 + b.0 as i128, a.1 as i128 + b.1 as i128) } else { (a.0 as i128 - b.1 as i128, a.1 as i128 - b.0 as i128) };
                    if lo >= -(1i128 << (w - 1)) && hi < 1i128 << (w - 1) {
                        return (r, Val::C(0));
                    }
                }
                let sxx = self.a.vsext(x, w, w + 1);
                let syy = self.a.vsext(y, w, w + 1);
                let wide = self.a.bin(op, w + 1, &sxx, &syy);
                let back = self.a.vsext(&r, w, w + 1);
                self.a.cmp(Pred::Ne, w + 1, &wide, &back)
            }
            _ => {
                let sg = k == "smul";
                let rg = |a: &Arena, v: &Val| -> Option<(i128, i128)> {
                    match v {
                        Val::C(c) => {
                            let t = if sg { sx(*c, w) as i128 } else { *c as i128 };
                            Some((t, t))
                        }
                        Val::E(i) => {
                            if sg { a.srange(*i).map(|r| (r.0 as i128, r.1 as i128)) } else { Some((a.nodes[*i as usize].lo as i128, a.nodes[*i as usize].hi as i128)) }
                        }
                        _ => None,
                    }
                };
                if let (Some(a), Some(b), true) = (rg(&self.a, x), rg(&self.a, y), w <= 64) {
                    let c = [a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1];
                    let (lo, hi) = (*c.iter().min().unwrap(), *c.iter().max().unwrap());
                    let (ml, mh) = if sg { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, m64(w) as i128) };
                    if lo >= ml && hi <= mh {
                        return (r, Val::C(0));
                    }
                }
                let (xx, yy, back) = if sg {
                    (self.a.vsext(x, w, 2 * w), self.a.vsext(y, w, 2 * w), self.a.vsext(&r, w, 2 * w))
                } else {
                    (self.a.vzext(x, w, 2 * w), self.a.vzext(y, w, 2 * w), self.a.vzext(&r, w, 2 * w))
                };
                let wide = self.a.bin(BinOp::Mul, 2 * w, &xx, &yy);
                self.a.cmp(Pred::Ne, 2 * w, &wide, &back)
            }
        };
        (r, o)
    }
}
