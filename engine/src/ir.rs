//! Parser for the textual LLVM IR that rustc emits (opaque pointers).
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F64,
    F32,
    Arr(usize, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(usize, Box<Ty>),
    Other,
}
impl Ty {
    pub fn size(&self) -> usize {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = ((*w as usize) + 7) / 8;
                if b > 8 { ((b + 15) / 16) * 16 } else { b.next_power_of_two() }
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) if w < 8 => (n * w as usize + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f {
                    if !p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size()
                }
                if !p {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
        }
    }
    pub fn align(&self) -> usize {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => {
                let b = ((*w as usize) + 7) / 8;
                if b > 8 { 16 } else { b.next_power_of_two() }
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(f, p) => {
                if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) }
            }
        }
    }
    pub fn field(&self, i: usize) -> (usize, &Ty) {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return (o, t);
                    }
                    o += t.size()
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.size(), t),
            _ => panic!("field of {:?}", self),
        }
    }
    /// Bit width of a scalar
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => *n as u32 * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Cst {
    I(u64),
    W(u128),
    A(Vec<Cst>),
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    C(u64),
    K(Box<Cst>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FOp {
    Add, Sub, Mul, Div, Rem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cast {
    Trunc, ZExt, SExt, PtrToInt, IntToPtr, BitCast, SiToFp, UiToFp, FpToSi, FpToUi, FpExt, FpTrunc,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ext(u32),
    Intr(String),
    Ind(Op),
    Asm,
}

#[derive(Clone, Debug)]
pub enum In {
    Bin(BinOp, u32, usize, Op, Op, u32), // op, width, vec n (0 scalar), a, b, dst
    FBin(FOp, Op, Op, u32),
    FNeg(Op, u32),
    Icmp(Pred, u32, usize, Op, Op, u32),
    Fcmp(String, Op, Op, u32),
    Select(Op, Op, Op, Ty, bool, u32),
    Load(Ty, Op, u32),
    Store(Ty, Op, Op),
    Gep(Op, u64, Vec<(Op, u32, u64)>, u32),
    Alloca(usize, u32),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Op, u32, Vec<(u64, u32)>, u32), // value, default, cases, width
    Ret(Option<Op>),
    Unreachable,
    Call(Callee, Vec<(Op, Ty)>, Ty, u32, Option<u32>), // dst u32::MAX if none; invoke: normal label
    Cast(Cast, Ty, Ty, Op, u32),
    ExtractValue(Op, Vec<usize>, u32),
    InsertValue(Op, Op, Vec<usize>, u32),
    ExtractElem(Op, Op, u32),
    InsertElem(Op, Op, Op, u32),
    Shuffle(Op, Op, Vec<i32>, usize, u32),
    Rmw(String, Ty, Op, Op, u32),
    CmpXchg(Ty, Op, Op, Op, u32),
    Copy(Op, u32),
    Nop,
}

pub struct Block {
    pub phis: Vec<(u32, HashMap<u32, Op>)>,
    pub ins: Vec<In>,
}
pub struct Func {
    pub name: String,
    pub nargs: usize,
    pub nregs: usize,
    pub blocks: Vec<Block>,
}
pub struct Global {
    pub name: String,
    pub data: Vec<u8>,
    pub constant: bool,
}
pub struct Module {
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>, // object id = index+1
    pub exts: Vec<String>,
    pub fbase: u32, // object id of function 0
    pub ebase: u32, // object id of external 0
    pub gmap: HashMap<String, u32>,
    pub fmap: HashMap<String, u32>,
}

pub fn addr(obj: u32, off: u64) -> u64 {
    ((obj as u64) << 32).wrapping_add(off)
}

struct Lx<'a> {
    s: &'a [u8],
    p: usize,
}

struct Ctx {
    types: HashMap<String, Ty>,
    gaddr: HashMap<String, u64>,
}

impl<'a> Lx<'a> {
    fn new(s: &'a str) -> Self {
        Lx { s: s.as_bytes(), p: 0 }
    }
    fn ws(&mut self) {
        while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\n' || self.s[self.p] == b'\t') {
            self.p += 1
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.p < self.s.len() { self.s[self.p] } else { 0 }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected {:?} at ...{:?} in {:?}", c as char, self.rest(), String::from_utf8_lossy(&self.s[..self.s.len().min(200)]))
        }
    }
    fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.p.min(self.s.len())..(self.p + 80).min(self.s.len())]).to_string()
    }
    fn ident(&mut self) -> &'a str {
        self.ws();
        let st = self.p;
        while self.p < self.s.len() && matches!(self.s[self.p], b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'_' | b'.' | b'$' | b'-') {
            self.p += 1
        }
        std::str::from_utf8(&self.s[st..self.p]).unwrap()
    }
    fn peek_ident(&mut self) -> &'a str {
        let p = self.p;
        let r = self.ident();
        self.p = p;
        r
    }
    /// name after % or @
    fn name(&mut self) -> String {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            let st = self.p + 1;
            self.p += 1;
            while self.s[self.p] != b'"' {
                self.p += 1
            }
            let r = std::str::from_utf8(&self.s[st..self.p]).unwrap().to_string();
            self.p += 1;
            r
        } else {
            self.ident().to_string()
        }
    }
    fn balanced(&mut self) {
        // at '('
        let mut d = 0;
        let mut q = false;
        loop {
            let c = self.s[self.p];
            self.p += 1;
            if q {
                if c == b'"' {
                    q = false
                }
                continue;
            }
            match c {
                b'"' => q = true,
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    fn num(&mut self) -> i128 {
        let s = self.ident();
        s.parse().unwrap_or_else(|_| panic!("number expected: {:?} {}", s, self.rest()))
    }
    fn is_type(&mut self) -> bool {
        match self.peek() {
            b'{' | b'[' | b'<' | b'%' => true,
            _ => {
                let i = self.peek_ident();
                i == "ptr" || i == "void" || i == "double" || i == "float" || i == "metadata" || i == "label" || i == "token"
                    || i == "half" || i == "fp128" || i == "x86_fp80"
                    || (i.len() > 1 && i.as_bytes()[0] == b'i' && i[1..].bytes().all(|c| c.is_ascii_digit()))
            }
        }
    }
    fn ty(&mut self, cx: &Ctx) -> Ty {
        let t = self.ty0(cx);
        t
    }
    fn ty0(&mut self, cx: &Ctx) -> Ty {
        match self.peek() {
            b'{' => {
                self.p += 1;
                let mut f = vec![];
                while !self.eat(b'}') {
                    f.push(self.ty(cx));
                    self.eat(b',');
                }
                Ty::Struct(f, false)
            }
            b'[' => {
                self.p += 1;
                let n = self.num() as usize;
                assert_eq!(self.ident(), "x");
                let t = self.ty(cx);
                self.expect(b']');
                Ty::Arr(n, Box::new(t))
            }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' {
                    self.p += 1;
                    let mut f = vec![];
                    while !self.eat(b'}') {
                        f.push(self.ty(cx));
                        self.eat(b',');
                    }
                    self.expect(b'>');
                    Ty::Struct(f, true)
                } else {
                    let n = self.num() as usize;
                    assert_eq!(self.ident(), "x");
                    let t = self.ty(cx);
                    self.expect(b'>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            b'%' => {
                self.p += 1;
                let n = self.name();
                cx.types.get(&n).unwrap_or_else(|| panic!("type {}", n)).clone()
            }
            _ => {
                let i = self.ident();
                match i {
                    "ptr" => Ty::Ptr,
                    "void" => Ty::Void,
                    "double" => Ty::F64,
                    "float" => Ty::F32,
                    "metadata" | "label" | "token" | "half" | "fp128" | "x86_fp80" => Ty::Other,
                    _ if i.starts_with('i') => Ty::Int(i[1..].parse().unwrap_or_else(|_| panic!("type {:?} {}", i, self.rest()))),
                    _ => panic!("type {:?} {}", i, self.rest()),
                }
            }
        }
    }
    fn is_value_start(&mut self) -> bool {
        match self.peek() {
            b'%' | b'@' | b'0'..=b'9' | b'-' | b'+' | b'<' | b'[' | b'{' | b'!' => true,
            b'c' if self.p + 1 < self.s.len() && self.s[self.p + 1] == b'"' => true,
            _ => matches!(
                self.peek_ident(),
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint"
                    | "sub" | "add" | "trunc" | "xor" | "bitcast" | "splat" | "asm" | "ptrtoaddr"
            ) || self.peek_ident().starts_with("f0x"),
        }
    }
    fn attrs(&mut self) {
        while !self.is_value_start() {
            let i = self.ident();
            if i.is_empty() {
                if self.peek() == b'"' {
                    self.p += 1;
                    while self.s[self.p] != b'"' {
                        self.p += 1
                    }
                    self.p += 1;
                    if self.eat(b'=') {
                        continue;
                    }
                    continue;
                }
                panic!("attrs: {}", self.rest());
            }
            if self.peek() == b'(' {
                self.balanced();
            } else if i == "align" {
                self.num();
            }
        }
    }
    /// attributes before a return type
    fn ret_attrs(&mut self) {
        while !self.is_type() {
            let i = self.ident();
            if i.is_empty() {
                panic!("ret attrs: {}", self.rest());
            }
            if self.peek() == b'(' {
                self.balanced();
            } else if i == "align" {
                self.num();
            }
        }
    }
}

fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 { v } else { v & ((1u128 << w) - 1) }
}

fn zero(t: &Ty) -> Cst {
    match t {
        Ty::Int(w) if *w > 64 => Cst::W(0),
        Ty::Arr(n, e) | Ty::Vec(n, e) => Cst::A(vec![zero(e); *n]),
        Ty::Struct(f, _) => Cst::A(f.iter().map(zero).collect()),
        _ => Cst::I(0),
    }
}

fn flatten(c: &Cst, t: &Ty, out: &mut [u8]) {
    match (c, t) {
        (Cst::I(v), _) => {
            let n = t.size().min(8);
            out[..n].copy_from_slice(&v.to_le_bytes()[..n])
        }
        (Cst::W(v), _) => {
            let n = t.size().min(16);
            out[..n].copy_from_slice(&v.to_le_bytes()[..n])
        }
        (Cst::A(v), _) => {
            for (i, x) in v.iter().enumerate() {
                let (o, ft) = t.field(i);
                let n = ft.size();
                flatten(x, ft, &mut out[o..o + n]);
            }
        }
    }
}

impl<'a> Lx<'a> {
    /// constant of the given type
    fn cst(&mut self, t: &Ty, cx: &Ctx) -> Cst {
        match self.peek() {
            b'@' => {
                self.p += 1;
                let n = self.name();
                Cst::I(*cx.gaddr.get(&n).unwrap_or_else(|| panic!("global {}", n)))
            }
            b'c' if self.s[self.p + 1] == b'"' => {
                self.p += 2;
                let mut v = vec![];
                while self.s[self.p] != b'"' {
                    if self.s[self.p] == b'\\' {
                        if self.s[self.p + 1] == b'\\' {
                            v.push(Cst::I(b'\\' as u64));
                            self.p += 2;
                            continue;
                        }
                        let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                        v.push(Cst::I(u64::from_str_radix(h, 16).unwrap()));
                        self.p += 3;
                    } else {
                        v.push(Cst::I(self.s[self.p] as u64));
                        self.p += 1;
                    }
                }
                self.p += 1;
                Cst::A(v)
            }
            b'[' | b'{' => {
                let close = if self.s[self.p] == b'[' { b']' } else { b'}' };
                self.p += 1;
                let mut v = vec![];
                while !self.eat(close) {
                    let et = self.ty(cx);
                    v.push(self.cst(&et, cx));
                    self.eat(b',');
                }
                Cst::A(v)
            }
            b'<' => {
                self.p += 1;
                let st = self.eat(b'{');
                let mut v = vec![];
                loop {
                    if st && self.eat(b'}') {
                        self.expect(b'>');
                        break;
                    }
                    if !st && self.eat(b'>') {
                        break;
                    }
                    let et = self.ty(cx);
                    v.push(self.cst(&et, cx));
                    self.eat(b',');
                }
                Cst::A(v)
            }
            _ => {
                let i = self.ident();
                match i {
                    "true" => Cst::I(1),
                    "false" | "null" | "none" => Cst::I(0),
                    "undef" | "poison" | "zeroinitializer" => zero(t),
                    "splat" => {
                        self.expect(b'(');
                        let et = self.ty(cx);
                        let c = self.cst(&et, cx);
                        self.expect(b')');
                        if let Ty::Vec(n, _) = t { Cst::A(vec![c; *n]) } else { panic!() }
                    }
                    "getelementptr" => {
                        while self.peek() != b'(' {
                            let i = self.ident();
                            if i == "inrange" {
                                self.balanced();
                            }
                        }
                        self.expect(b'(');
                        let bt = self.ty(cx);
                        self.expect(b',');
                        self.ty(cx);
                        let base = match self.cst(&Ty::Ptr, cx) {
                            Cst::I(v) => v,
                            _ => panic!(),
                        };
                        let mut off = 0u64;
                        let mut cur = bt;
                        let mut first = true;
                        while self.eat(b',') {
                            let it = self.ty(cx);
                            let ix = match self.cst(&it, cx) {
                                Cst::I(v) => v,
                                _ => panic!(),
                            };
                            let ix = sx(ix, it.bits());
                            if first {
                                off = off.wrapping_add((ix as u64).wrapping_mul(cur.size() as u64));
                                first = false;
                            } else {
                                let (o, ft) = cur.field(0);
                                let _ = o;
                                match &cur {
                                    Ty::Struct(..) => {
                                        let (o, ft) = cur.field(ix as usize);
                                        off = off.wrapping_add(o as u64);
                                        cur = ft.clone();
                                    }
                                    _ => {
                                        off = off.wrapping_add((ix as u64).wrapping_mul(ft.size() as u64));
                                        cur = ft.clone();
                                    }
                                }
                            }
                        }
                        self.expect(b')');
                        Cst::I(base.wrapping_add(off))
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                        while self.peek() != b'(' {
                            self.ident();
                        }
                        self.expect(b'(');
                        let ft = self.ty(cx);
                        let c = self.cst(&ft, cx);
                        assert_eq!(self.ident(), "to");
                        let tt = self.ty(cx);
                        self.expect(b')');
                        match c {
                            Cst::I(v) => Cst::I(mask(v as u128, tt.bits()) as u64),
                            c => c,
                        }
                    }
                    "sub" | "add" | "xor" => {
                        while self.peek() != b'(' {
                            self.ident();
                        }
                        self.expect(b'(');
                        let ft = self.ty(cx);
                        let a = self.cst(&ft, cx);
                        self.expect(b',');
                        let ft = self.ty(cx);
                        let b = self.cst(&ft, cx);
                        self.expect(b')');
                        match (a, b) {
                            (Cst::I(a), Cst::I(b)) => Cst::I(
                                mask(
                                    match i {
                                        "sub" => a.wrapping_sub(b),
                                        "add" => a.wrapping_add(b),
                                        _ => a ^ b,
                                    } as u128,
                                    ft.bits(),
                                ) as u64,
                            ),
                            _ => panic!(),
                        }
                    }
                    _ => {
                        if matches!(t, Ty::F64 | Ty::F32) {
                            let mut s = i.to_string();
                            // exponent sign '+' is not an ident char
                            if self.p < self.s.len() && self.s[self.p] == b'+' {
                                self.p += 1;
                                s.push('+');
                                s.push_str(self.ident());
                            }
                            match s.as_str() {
                                "+qnan" | "qnan" => return Cst::I(0x7ff8000000000000),
                                "-qnan" => return Cst::I(0xfff8000000000000),
                                "+inf" | "inf" => return Cst::I(f64::INFINITY.to_bits()),
                                "-inf" => return Cst::I(f64::NEG_INFINITY.to_bits()),
                                _ => {}
                            }
                            let h = s.strip_prefix("f0x").or(s.strip_prefix("0x"));
                            if let Some(h) = h {
                                let v = u64::from_str_radix(h, 16).unwrap();
                                return Cst::I(v);
                            }
                            let f: f64 = s.parse().unwrap_or_else(|_| panic!("float {:?}", s));
                            return Cst::I(if matches!(t, Ty::F32) { (f as f32).to_bits() as u64 } else { f.to_bits() });
                        }
                        let w = t.bits();
                        if let Ok(v) = i.parse::<i128>() {
                            let m = mask(v as u128, w);
                            if w > 64 { Cst::W(m) } else { Cst::I(m as u64) }
                        } else if let Ok(v) = i.parse::<u128>() {
                            if w > 64 { Cst::W(v) } else { Cst::I(v as u64) }
                        } else {
                            panic!("constant {:?} {}", i, self.rest())
                        }
                    }
                }
            }
        }
    }
}

pub fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) }
}

struct FnCx<'c> {
    cx: &'c Ctx,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}
impl<'c> FnCx<'c> {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn op(&mut self, lx: &mut Lx, t: &Ty) -> Op {
        if lx.peek() == b'%' {
            lx.p += 1;
            let n = lx.name();
            return Op::R(self.reg(&n));
        }
        match lx.cst(t, self.cx) {
            Cst::I(v) => Op::C(v),
            c => Op::K(Box::new(c)),
        }
    }
    fn tyop(&mut self, lx: &mut Lx) -> (Op, Ty) {
        let t = lx.ty(self.cx);
        if lx.peek() == b'!' || matches!(t, Ty::Other) {
            // metadata argument: skip to , or )
            let mut d = 0;
            while lx.p < lx.s.len() {
                let c = lx.s[lx.p];
                if c == b'(' {
                    d += 1
                }
                if d == 0 && (c == b',' || c == b')') {
                    break;
                }
                if c == b')' {
                    d -= 1
                }
                lx.p += 1
            }
            return (Op::C(0), Ty::Other);
        }
        lx.attrs();
        let o = self.op(lx, &t);
        (o, t)
    }
    fn label(&mut self, lx: &mut Lx) -> u32 {
        assert_eq!(lx.ident(), "label");
        lx.expect(b'%');
        let n = lx.name();
        *self.labels.get(&n).unwrap_or_else(|| panic!("label {}", n))
    }
}

const FLAGS: &[&str] = &[
    "nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "inbounds", "nusw", "volatile", "atomic",
];
fn skip_flags(lx: &mut Lx) {
    loop {
        let i = lx.peek_ident();
        if FLAGS.contains(&i) {
            lx.ident();
        } else {
            return;
        }
    }
}

pub fn parse(text: &str) -> Module {
    let mut cx = Ctx { types: HashMap::new(), gaddr: HashMap::new() };
    let lines: Vec<&str> = text.lines().collect();
    // pass 1: names
    let mut gnames: Vec<(String, usize)> = vec![];
    let mut fnames: Vec<(String, usize)> = vec![];
    let mut enames: Vec<String> = vec![];
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('@') {
            let mut lx = Lx::new(l);
            lx.p = 1;
            let n = lx.name();
            gnames.push((n, i));
        } else if l.starts_with('%') {
            let mut lx = Lx::new(l);
            lx.p = 1;
            let n = lx.name();
            lx.expect(b'=');
            assert_eq!(lx.ident(), "type");
            if lx.peek_ident() != "opaque" {
                let t = lx.ty(&cx);
                cx.types.insert(n, t);
            }
        } else if l.starts_with("define") {
            let at = l.find(" @").unwrap();
            let mut lx = Lx::new(l);
            lx.p = at + 2;
            fnames.push((lx.name(), i));
            while !lines[i].starts_with('}') {
                i += 1
            }
        } else if l.starts_with("declare") {
            let at = l.find(" @").unwrap();
            let mut lx = Lx::new(l);
            lx.p = at + 2;
            enames.push(lx.name());
        }
        i += 1;
    }
    // external globals are declared with "external"; they still get an object
    let mut gmap = HashMap::new();
    let mut fmap = HashMap::new();
    for (k, (n, _)) in gnames.iter().enumerate() {
        cx.gaddr.insert(n.clone(), addr(k as u32 + 1, 0));
        gmap.insert(n.clone(), k as u32);
    }
    let fbase = gnames.len() as u32 + 1;
    for (k, (n, _)) in fnames.iter().enumerate() {
        cx.gaddr.insert(n.clone(), addr(fbase + k as u32, 0));
        fmap.insert(n.clone(), k as u32);
    }
    let ebase = fbase + fnames.len() as u32;
    let mut emap = HashMap::new();
    for (k, n) in enames.iter().enumerate() {
        cx.gaddr.insert(n.clone(), addr(ebase + k as u32, 0));
        emap.insert(n.clone(), k as u32);
    }
    // aliases
    for (n, li) in &gnames {
        let l = lines[*li];
        if l.contains(" alias ") {
            let at = l.rfind('@').unwrap();
            let mut lx = Lx::new(l);
            lx.p = at + 1;
            let tgt = lx.name();
            let a = cx.gaddr[&tgt];
            cx.gaddr.insert(n.clone(), a);
        }
    }
    let mut globals = vec![];
    for (n, li) in &gnames {
        let l = lines[*li];
        let mut lx = Lx::new(l);
        lx.p = 1;
        lx.name();
        lx.expect(b'=');
        let mut constant = false;
        let mut external = false;
        let mut alias = false;
        loop {
            let i = lx.ident();
            match i {
                "constant" => {
                    constant = true;
                    break;
                }
                "global" => break,
                "alias" => {
                    alias = true;
                    break;
                }
                "external" | "extern_weak" => external = true,
                "" => panic!("global {}", l),
                _ => {
                    if lx.peek() == b'(' {
                        lx.balanced()
                    }
                }
            }
        }
        if alias {
            globals.push(Global { name: n.clone(), data: vec![], constant: true });
            continue;
        }
        let t = lx.ty(&cx);
        let mut data = vec![0u8; t.size()];
        if !external {
            let c = lx.cst(&t, &cx);
            flatten(&c, &t, &mut data);
        }
        globals.push(Global { name: n.clone(), data, constant });
    }
    let mut funcs = vec![];
    for (n, li) in &fnames {
        funcs.push(parse_fn(n, &lines, *li, &cx, &fmap, &emap));
    }
    Module { funcs, globals, exts: enames, fbase, ebase, gmap, fmap }
}

fn parse_fn(name: &str, lines: &[&str], start: usize, cx: &Ctx, fmap: &HashMap<String, u32>, emap: &HashMap<String, u32>) -> Func {
    let mut f = FnCx { cx, regs: HashMap::new(), labels: HashMap::new() };
    // header params
    let l = lines[start];
    let at = l.find(" @").unwrap();
    let mut lx = Lx::new(l);
    lx.p = at + 2;
    lx.name();
    lx.expect(b'(');
    let mut nargs = 0;
    let mut unnamed = 0;
    while !lx.eat(b')') {
        if lx.peek() == b'.' {
            lx.p += 3;
            continue;
        }
        lx.ty(cx);
        // attributes then %name
        while lx.peek() != b'%' {
            let i = lx.ident();
            if i.is_empty() {
                panic!("param {}", lx.rest())
            }
            if lx.peek() == b'(' {
                lx.balanced()
            } else if i == "align" {
                lx.num();
            }
        }
        lx.p += 1;
        let n = lx.name();
        if n.bytes().all(|c| c.is_ascii_digit()) {
            unnamed += 1
        }
        let r = f.reg(&n);
        assert_eq!(r as usize, nargs);
        nargs += 1;
        lx.eat(b',');
    }
    // collect blocks (label, logical lines)
    let mut blocks: Vec<(String, Vec<String>)> = vec![];
    let mut i = start + 1;
    while !lines[i].starts_with('}') {
        let l = lines[i];
        i += 1;
        if l.is_empty() || l.starts_with(';') {
            continue;
        }
        if !l.starts_with(' ') {
            // label
            let mut lx = Lx::new(l);
            let n = lx.name();
            blocks.push((n, vec![]));
            continue;
        }
        if blocks.is_empty() {
            blocks.push((format!("{}", unnamed), vec![]));
        }
        let t = l.trim_start();
        if t.starts_with("#dbg") || t.starts_with(';') {
            continue;
        }
        let cur = &mut blocks.last_mut().unwrap().1;
        let ind = l.len() - t.len();
        if ind > 2 || t.starts_with(']') {
            // continuation
            if t.starts_with("cleanup") || t.starts_with("filter") || t.starts_with("catch") {
                continue;
            }
            let last = cur.last_mut().unwrap();
            last.push(' ');
            last.push_str(t);
        } else {
            cur.push(t.to_string());
        }
    }
    for (k, (n, _)) in blocks.iter().enumerate() {
        f.labels.insert(n.clone(), k as u32);
    }
    let mut out = vec![];
    for (_, ls) in &blocks {
        let mut b = Block { phis: vec![], ins: vec![] };
        for l in ls {
            parse_in(l, &mut f, &mut b, fmap, emap);
        }
        out.push(b);
    }
    Func { name: name.to_string(), nargs, nregs: f.regs.len(), blocks: out }
}

fn parse_in(l: &str, f: &mut FnCx, b: &mut Block, fmap: &HashMap<String, u32>, emap: &HashMap<String, u32>) {
    let cx = f.cx;
    let mut lx = Lx::new(l);
    let mut dst = u32::MAX;
    if lx.peek() == b'%' {
        lx.p += 1;
        let n = lx.name();
        dst = f.reg(&n);
        lx.expect(b'=');
    }
    let op = lx.ident();
    let bin = |o: &str| -> Option<BinOp> {
        Some(match o {
            "add" => BinOp::Add,
            "sub" => BinOp::Sub,
            "mul" => BinOp::Mul,
            "udiv" => BinOp::UDiv,
            "sdiv" => BinOp::SDiv,
            "urem" => BinOp::URem,
            "srem" => BinOp::SRem,
            "and" => BinOp::And,
            "or" => BinOp::Or,
            "xor" => BinOp::Xor,
            "shl" => BinOp::Shl,
            "lshr" => BinOp::LShr,
            "ashr" => BinOp::AShr,
            _ => return None,
        })
    };
    let ins = if let Some(bo) = bin(op) {
        skip_flags(&mut lx);
        let t = lx.ty(cx);
        let a = f.op(&mut lx, &t);
        lx.expect(b',');
        let c = f.op(&mut lx, &t);
        match &t {
            Ty::Vec(n, e) => In::Bin(bo, e.bits(), *n, a, c, dst),
            _ => In::Bin(bo, t.bits(), 0, a, c, dst),
        }
    } else {
        match op {
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                skip_flags(&mut lx);
                let t = lx.ty(cx);
                let a = f.op(&mut lx, &t);
                lx.expect(b',');
                let c = f.op(&mut lx, &t);
                let o = match op {
                    "fadd" => FOp::Add,
                    "fsub" => FOp::Sub,
                    "fmul" => FOp::Mul,
                    "fdiv" => FOp::Div,
                    _ => FOp::Rem,
                };
                if t == Ty::F32 { In::Cast(Cast::FpToUi, t.clone(), t, a, dst) } else { In::FBin(o, a, c, dst) } // the former is not supported
            }
            "fneg" => {
                skip_flags(&mut lx);
                let t = lx.ty(cx);
                let a = f.op(&mut lx, &t);
                if t == Ty::F32 { In::Cast(Cast::FpToUi, t.clone(), t, a, dst) } else { In::FNeg(a, dst) }
            }
            "icmp" => {
                skip_flags(&mut lx);
                let p = match lx.ident() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => panic!("icmp {}", x),
                };
                let t = lx.ty(cx);
                let a = f.op(&mut lx, &t);
                lx.expect(b',');
                let c = f.op(&mut lx, &t);
                match &t {
                    Ty::Vec(n, e) => In::Icmp(p, e.bits(), *n, a, c, dst),
                    _ => In::Icmp(p, t.bits(), 0, a, c, dst),
                }
            }
            "fcmp" => {
                skip_flags(&mut lx);
                let p = lx.ident().to_string();
                let t = lx.ty(cx);
                let a = f.op(&mut lx, &t);
                lx.expect(b',');
                let c = f.op(&mut lx, &t);
                if t == Ty::F32 { In::Cast(Cast::FpToUi, t.clone(), t, a, dst) } else { In::Fcmp(p, a, c, dst) }
            }
            "select" => {
                skip_flags(&mut lx);
                let ct = lx.ty(cx);
                let c = f.op(&mut lx, &ct);
                lx.expect(b',');
                let (a, t) = f.tyop(&mut lx);
                lx.expect(b',');
                let (bb, _) = f.tyop(&mut lx);
                In::Select(c, a, bb, t, matches!(ct, Ty::Vec(..)), dst)
            }
            "load" => {
                skip_flags(&mut lx);
                let t = lx.ty(cx);
                lx.expect(b',');
                let (p, _) = f.tyop(&mut lx);
                In::Load(t, p, dst)
            }
            "store" => {
                skip_flags(&mut lx);
                let (v, t) = f.tyop(&mut lx);
                lx.expect(b',');
                let (p, _) = f.tyop(&mut lx);
                In::Store(t, v, p)
            }
            "getelementptr" => {
                skip_flags(&mut lx);
                let bt = lx.ty(cx);
                lx.expect(b',');
                let (base, _) = f.tyop(&mut lx);
                let mut off = 0u64;
                let mut v = vec![];
                let mut cur = bt;
                let mut first = true;
                while lx.eat(b',') {
                    if lx.peek() == b'!' {
                        break;
                    }
                    let it = lx.ty(cx);
                    let ix = f.op(&mut lx, &it);
                    let scale;
                    if first {
                        scale = cur.size() as u64;
                        first = false;
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let k = if let Op::C(k) = ix { k } else { panic!() };
                                let (o, ft) = cur.field(k as usize);
                                off = off.wrapping_add(o as u64);
                                cur = ft.clone();
                                continue;
                            }
                            _ => {
                                let ft = cur.field(0).1.clone();
                                scale = ft.size() as u64;
                                cur = ft;
                            }
                        }
                    }
                    match ix {
                        Op::C(k) => off = off.wrapping_add((sx(k, it.bits()) as u64).wrapping_mul(scale)),
                        o => v.push((o, it.bits(), scale)),
                    }
                }
                In::Gep(base, off, v, dst)
            }
            "alloca" => {
                let t = lx.ty(cx);
                let mut n = 1;
                if lx.eat(b',') && lx.peek_ident() != "align" && lx.is_type() {
                    let (o, _) = f.tyop(&mut lx);
                    if let Op::C(k) = o {
                        n = k as usize
                    } else {
                        panic!("dynamic alloca")
                    }
                }
                In::Alloca(t.size() * n, dst)
            }
            "br" => {
                if lx.peek_ident() == "label" {
                    In::Br(f.label(&mut lx))
                } else {
                    let (c, _) = f.tyop(&mut lx);
                    lx.expect(b',');
                    let x = f.label(&mut lx);
                    lx.expect(b',');
                    let y = f.label(&mut lx);
                    In::CondBr(c, x, y)
                }
            }
            "switch" => {
                let (v, t) = f.tyop(&mut lx);
                lx.expect(b',');
                let d = f.label(&mut lx);
                lx.expect(b'[');
                let mut cs = vec![];
                while !lx.eat(b']') {
                    let ct = lx.ty(cx);
                    let c = match lx.cst(&ct, cx) {
                        Cst::I(v) => v,
                        _ => panic!("wide switch"),
                    };
                    lx.expect(b',');
                    cs.push((c, f.label(&mut lx)));
                }
                In::Switch(v, d, cs, t.bits())
            }
            "ret" => {
                if lx.peek_ident() == "void" {
                    In::Ret(None)
                } else {
                    let (v, _) = f.tyop(&mut lx);
                    In::Ret(Some(v))
                }
            }
            "unreachable" | "resume" => In::Unreachable,
            "landingpad" => In::Nop,
            "fence" => In::Nop,
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op == "tail" || op == "musttail" || op == "notail" {
                    lx.ident();
                }
                skip_flags(&mut lx);
                lx.ret_attrs();
                let rt = lx.ty(cx);
                if lx.peek() == b'(' {
                    lx.balanced();
                }
                let callee = match lx.peek() {
                    b'@' => {
                        lx.p += 1;
                        let n = lx.name();
                        if n.starts_with("llvm.") {
                            Callee::Intr(n)
                        } else if let Some(k) = fmap.get(&n) {
                            Callee::Func(*k)
                        } else if let Some(k) = emap.get(&n) {
                            Callee::Ext(*k)
                        } else {
                            // alias
                            Callee::Ind(Op::C(cx.gaddr[&n]))
                        }
                    }
                    b'%' => Callee::Ind(f.op(&mut lx, &Ty::Ptr)),
                    _ => {
                        if lx.peek_ident() == "asm" {
                            while lx.peek() != b'(' || lx.s[lx.p - 1] != b'"' {
                                lx.p += 1
                            }
                            Callee::Asm
                        } else {
                            Callee::Ind(f.op(&mut lx, &Ty::Ptr))
                        }
                    }
                };
                lx.expect(b'(');
                let mut args = vec![];
                while !lx.eat(b')') {
                    args.push(f.tyop(&mut lx));
                    lx.eat(b',');
                }
                let mut normal = None;
                if op == "invoke" {
                    let rest = lx.rest_all();
                    let k = rest.find(" to label ").or(rest.find("to label ")).unwrap();
                    let mut l2 = Lx::new(&rest[k..]);
                    assert_eq!(l2.ident(), "to");
                    normal = Some(f.label(&mut l2));
                }
                if let Callee::Intr(n) = &callee {
                    if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.assume") || n.starts_with("llvm.dbg") {
                        return;
                    }
                }
                In::Call(callee, args, rt, dst, normal)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "sitofp" | "uitofp" | "fptosi" | "fptoui" | "fpext" | "fptrunc" | "ptrtoaddr" => {
                skip_flags(&mut lx);
                let (v, ft) = f.tyop(&mut lx);
                assert_eq!(lx.ident(), "to");
                let tt = lx.ty(cx);
                let k = match op {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt,
                    "inttoptr" => Cast::IntToPtr,
                    "bitcast" => Cast::BitCast,
                    "sitofp" => Cast::SiToFp,
                    "uitofp" => Cast::UiToFp,
                    "fptosi" => Cast::FpToSi,
                    "fptoui" => Cast::FpToUi,
                    "fpext" => Cast::FpExt,
                    _ => Cast::FpTrunc,
                };
                In::Cast(k, ft, tt, v, dst)
            }
            "phi" => {
                skip_flags(&mut lx);
                let t = lx.ty(cx);
                let mut m = HashMap::new();
                loop {
                    lx.expect(b'[');
                    let v = f.op(&mut lx, &t);
                    lx.expect(b',');
                    lx.expect(b'%');
                    let n = lx.name();
                    lx.expect(b']');
                    m.insert(f.labels[&n], v);
                    if !lx.eat(b',') || lx.peek() == b'!' {
                        break;
                    }
                }
                b.phis.push((dst, m));
                return;
            }
            "extractvalue" => {
                let (v, _) = f.tyop(&mut lx);
                let mut ix = vec![];
                while lx.eat(b',') {
                    if lx.peek() == b'!' {
                        break;
                    }
                    ix.push(lx.num() as usize)
                }
                In::ExtractValue(v, ix, dst)
            }
            "insertvalue" => {
                let (v, _) = f.tyop(&mut lx);
                lx.expect(b',');
                let (e, _) = f.tyop(&mut lx);
                let mut ix = vec![];
                while lx.eat(b',') {
                    if lx.peek() == b'!' {
                        break;
                    }
                    ix.push(lx.num() as usize)
                }
                In::InsertValue(v, e, ix, dst)
            }
            "extractelement" => {
                let (v, _) = f.tyop(&mut lx);
                lx.expect(b',');
                let (e, _) = f.tyop(&mut lx);
                In::ExtractElem(v, e, dst)
            }
            "insertelement" => {
                let (v, _) = f.tyop(&mut lx);
                lx.expect(b',');
                let (e, _) = f.tyop(&mut lx);
                lx.expect(b',');
                let (i, _) = f.tyop(&mut lx);
                In::InsertElem(v, e, i, dst)
            }
            "shufflevector" => {
                let (a, t) = f.tyop(&mut lx);
                lx.expect(b',');
                let (c, _) = f.tyop(&mut lx);
                lx.expect(b',');
                let mt = lx.ty(cx);
                let m = lx.cst(&mt, cx);
                let m = if let Cst::A(v) = m {
                    v.iter().map(|c| if let Cst::I(k) = c { *k as i32 } else { 0 }).collect()
                } else {
                    panic!()
                };
                let n = if let Ty::Vec(n, _) = t { n } else { panic!() };
                In::Shuffle(a, c, m, n, dst)
            }
            "atomicrmw" => {
                skip_flags(&mut lx);
                let o = lx.ident().to_string();
                let (p, _) = f.tyop(&mut lx);
                lx.expect(b',');
                let (v, t) = f.tyop(&mut lx);
                In::Rmw(o, t, p, v, dst)
            }
            "cmpxchg" => {
                if lx.peek_ident() == "weak" {
                    lx.ident();
                }
                skip_flags(&mut lx);
                let (p, _) = f.tyop(&mut lx);
                lx.expect(b',');
                let (c, t) = f.tyop(&mut lx);
                lx.expect(b',');
                let (n, _) = f.tyop(&mut lx);
                In::CmpXchg(t, p, c, n, dst)
            }
            "freeze" => {
                let (v, _) = f.tyop(&mut lx);
                In::Copy(v, dst)
            }
            _ => panic!("instruction {:?}: {}", op, l),
        }
    };
    b.ins.push(ins);
}

impl<'a> Lx<'a> {
    fn rest_all(&self) -> String {
        String::from_utf8_lossy(&self.s[self.p..]).to_string()
    }
}
