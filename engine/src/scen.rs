//! Scenario runner: symbolic inputs in, per-path outcomes out.
use crate::exec::*;
use crate::expr::{FK, Val};
use crate::ir::{addr, Module};
use crate::json::J;
use crate::mem::*;
use crate::os::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;

fn latin(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}
fn unlatin(b: &[u8]) -> String {
    b.iter().map(|c| *c as char).collect()
}
fn js(s: &str) -> J {
    J::Str(s.to_string())
}
fn jo(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
fn ji(i: i64) -> J {
    J::Num(i as f64)
}

pub struct Ctx {
    pub m: Arc<Module>,
    pub hooks: Arc<Vec<Hook>>,
    pub exts: Arc<Vec<X>>,
}

struct Scn<'a> {
    j: &'a J,
    vars: HashMap<String, usize>,
    base: Vec<Option<Rc<Obj>>>,
    init: u32,
    main: u32,
}

/// object with the content of a list of segments, for a fixed length class
fn build(x: &mut Exec, sc: &Scn, segs: &J, dom: &[Bits]) -> Obj {
    let mut o = Obj::default();
    let l: Vec<&J> = match segs {
        J::Arr(v) => v.iter().collect(),
        s => vec![s],
    };
    for g in l {
        match g {
            J::Str(s) => o.push_bytes(&latin(s)),
            _ => {
                let v = sc.vars[g.get("v").unwrap().s()];
                let t: Vec<Vec<u8>> = g.get("t").unwrap().arr().iter().map(|e| latin(e.s())).collect();
                assert_eq!(t.len(), x.a.vars[v].n, "table size of {}", x.a.vars[v].name);
                let first = bits_iter(&dom[v]).next().unwrap();
                let n = t[first].len();
                let at = o.len();
                o.resize(at + n);
                for k in 0..n {
                    let tab: Vec<u64> = (0..t.len()).map(|i| if bit(&dom[v], i) { assert_eq!(t[i].len(), n); t[i][k] as u64 } else { t[first][k] as u64 }).collect();
                    let val = x.a.from_tab(v, 8, tab);
                    match val {
                        Val::C(c) => o.put(at + k, &[c as u8]),
                        Val::E(id) => o.put_sym(at + k, 1, id),
                        _ => unreachable!(),
                    }
                }
            }
        }
    }
    o
}

fn seg_tabs<'a>(segs: &'a J, out: &mut Vec<(&'a str, Vec<usize>)>) {
    let l: Vec<&J> = match segs {
        J::Arr(v) => v.iter().collect(),
        s => vec![s],
    };
    for g in l {
        if let J::Obj(_) = g {
            let t: Vec<usize> = g.get("t").unwrap().arr().iter().map(|e| e.s().chars().count()).collect();
            out.push((g.get("v").unwrap().s(), t));
        }
    }
}

fn start(x: &mut Exec, sc: &Scn, s: &mut State) {
    let run = &sc.j.get("runs").unwrap().arr()[s.run];
    s.mem = sc.base.clone();
    s.free.clear();
    s.frames.clear();
    s.steps = 0;
    s.phase = 0;
    let errno = s.alloc(Obj::zero(16));
    s.os.errno = addr(errno, 0);
    s.os.cwd = run.gs("cwd", "/w");
    s.os.out = Rc::new(Obj::default());
    s.os.err = Rc::new(Obj::default());
    s.os.events = Rc::new(vec![]);
    s.os.tty = run.gi("tty", 0) as u32;
    s.os.seed = run.gi("seed", sc.j.gi("seed", 1)) as u64;
    s.os.counts = [0; 3];
    let k = |i: u8| Some(Fd { path: String::new(), kind: i, pos: 0, flags: 2 });
    s.os.fds = vec![k(0), k(1), k(2)];
    s.os.clock = match run.get("clock") {
        None => Val::C(1_600_000_000),
        Some(c @ J::Obj(_)) => {
            let v = sc.vars[c.get("v").unwrap().s()];
            let t: Vec<u64> = c.get("t").unwrap().arr().iter().map(|e| e.i() as u64).collect();
            x.a.from_tab(v, 64, t)
        }
        Some(c) => Val::C(c.i() as u64),
    };
    let mut fs = vec![];
    if let Some(f) = run.get("faults") {
        for f in f.arr() {
            let cond = match f.get("if") {
                None => Val::C(1),
                Some(c) => {
                    let v = sc.vars[c.get("v").unwrap().s()];
                    let is = c.gi("is", 1) as usize;
                    let n = x.a.vars[v].n;
                    x.a.from_tab(v, 1, (0..n).map(|i| (i == is) as u64).collect())
                }
            };
            fs.push(Fault { op: f.gs("op", "write"), path: f.gs("path", ""), nth: f.gi("nth", 0) as u32, errno: f.gi("errno", 28) as i32, keep: f.gi("keep", 0) as usize, cond });
        }
    }
    s.os.faults = Rc::new(fs);
    let dom = s.dom.clone();
    let mut env = vec![];
    if let Some(e) = run.get("env") {
        for kv in e.arr() {
            let mut o = build(x, sc, &kv.arr()[1], &dom);
            o.push_bytes(&[0]);
            let p = s.alloc(o);
            env.push((kv.arr()[0].s().to_string(), Val::C(addr(p, 0))));
        }
    }
    s.os.env = Rc::new(env);
    let argv = run.get("argv").unwrap().arr();
    let tab = s.alloc(Obj::zero(8 * (argv.len() + 2)));
    for (i, a) in argv.iter().enumerate() {
        let mut o = build(x, sc, a, &dom);
        o.push_bytes(&[0]);
        let p = s.alloc(o);
        let _ = x.wr(s, addr(tab, 8 * i as u64), 8, &Val::C(addr(p, 0)));
    }
    s.argc = argv.len() as u64;
    s.argv = addr(tab, 0);
    let (c, v) = (s.argc, s.argv);
    let _ = x.push_call(s, sc.init, vec![Val::C(c), Val::C(v), Val::C(v + 8 * c + 8)], u32::MAX, u32::MAX);
}

/// The bytes of the output that depend on several variables but have only one value on this path
/// (the two encodings of a character that was chosen by a branch, say): asked of the solver, many at once.
fn settled(x: &mut Exec, s: &State, terms: &[(String, u32)]) -> HashMap<u32, u8> {
    let mut left: Vec<(u32, u64)> = vec![];
    let mut memo = HashMap::new();
    for (_, id) in terms {
        if !left.iter().any(|l| l.0 == *id) {
            let v = x.a.eval(*id, &s.model, &mut memo) as u64;
            left.push((*id, v));
        }
    }
    for _ in 0..24 {
        if left.is_empty() {
            break;
        }
        let mut all: Option<u32> = None;
        for (id, v) in &left {
            let c = x.a.mkc(*v as u128, 8);
            let e = x.a.eq(*id, c);
            all = Some(match all {
                None => e,
                Some(a) => x.a.and1(a, e),
            });
        }
        match x.query(s, all.unwrap(), false) {
            Ok(None) => return left.into_iter().map(|(i, v)| (i, v as u8)).collect(),
            Ok(Some(m)) => {
                let mut memo = HashMap::new();
                let n = left.len();
                left.retain(|(id, v)| x.a.eval(*id, &m, &mut memo) as u64 == *v);
                if left.len() == n {
                    break;
                }
            }
            Err(_) => break,
        }
    }
    HashMap::new()
}

fn emit_obj(x: &mut Exec, o: &Obj, dom: &[Bits], fixed: &HashMap<u32, u8>, terms: &mut Vec<(String, u32)>) -> J {
    let mut out: Vec<J> = vec![];
    let n = o.len();
    let mut i = 0;
    while i < n {
        if o.sym.is_empty() || o.sym[i].0 == NONE {
            let st = i;
            while i < n && (o.sym.is_empty() || o.sym[i].0 == NONE) {
                i += 1
            }
            out.push(js(&unlatin(&o.data[st..i])));
            continue;
        }
        // run of bytes over one variable
        let byte = |x: &mut Exec, i: usize| -> Val {
            let (id, k) = o.sym[i];
            let w = x.a.nodes[id as usize].w;
            x.a.vextract(&Val::E(id), w, k as u32 * 8, 8.min(w))
        };
        let b = byte(x, i);
        match b {
            Val::C(c) => {
                out.push(js(&unlatin(&[c as u8])));
                i += 1;
            }
            Val::E(id) => {
                if let Some(v) = x.a.single(id) {
                    let mut cols: Vec<Rc<[u64]>> = vec![x.a.tab_of(id).unwrap().clone()];
                    i += 1;
                    while i < n && o.sym[i].0 != NONE {
                        let Val::E(id2) = byte(x, i) else { break };
                        if x.a.single(id2) != Some(v) {
                            break;
                        }
                        cols.push(x.a.tab_of(id2).unwrap().clone());
                        i += 1;
                    }
                    let nn = x.a.vars[v].n;
                    let rows: Vec<J> = (0..nn)
                        .map(|r| if bit(&dom[v], r) { js(&unlatin(&cols.iter().map(|c| c[r] as u8).collect::<Vec<_>>())) } else { J::Null })
                        .collect();
                    // constant over the domain?
                    let mut vals = rows.iter().filter(|r| !matches!(r, J::Null));
                    let f = vals.next().unwrap().s().to_string();
                    if vals.all(|r| r.s() == f) {
                        out.push(js(&f));
                    } else {
                        out.push(jo(vec![("v", js(&x.a.vars[v].name.clone())), ("t", J::Arr(rows))]));
                    }
                } else if let Some(c) = fixed.get(&id) {
                    out.push(js(&unlatin(&[*c])));
                    i += 1;
                } else {
                    let nm = format!("byte{}", terms.len());
                    terms.push((nm.clone(), id));
                    out.push(jo(vec![("term", js(&nm))]));
                    i += 1;
                }
            }
            _ => unreachable!(),
        }
    }
    // merge adjacent literals
    let mut m: Vec<J> = vec![];
    for j in out {
        if let (Some(J::Str(a)), J::Str(b)) = (m.last_mut(), &j) {
            a.push_str(b);
            continue;
        }
        m.push(j);
    }
    J::Arr(m)
}

fn emit(x: &mut Exec, s: &State, end: &End) -> J {
    let mut terms: Vec<(String, u32)> = vec![];
    let mut fixed = HashMap::new();
    for r in s.results.iter() {
        for o in [&r.out, &r.err].into_iter().chain(r.files.values().map(|f| &**f)) {
            emit_obj(x, o, &s.dom, &fixed, &mut terms);
        }
    }
    if !terms.is_empty() {
        fixed = settled(x, s, &terms);
        terms.clear();
    }
    let mut runs = vec![];
    for (ri, r) in s.results.iter().enumerate() {
        let mut files = vec![];
        // each run is compared with what the run before it left behind
        let before = if ri == 0 { &s.base } else { &s.results[ri - 1].files };
        for (p, b) in before {
            if !r.files.contains_key(p) && b.len() > 0 {
                files.push((p.clone(), jo(vec![("same", ji(0)), ("base", ji(b.len() as i64)), ("rest", J::Arr(vec![]))])));
            }
        }
        for (p, o) in &r.files {
            let none = Obj::default();
            let b: &Obj = before.get(p).map(|b| &**b).unwrap_or(&none);
            let at = |o: &Obj, i: usize| -> (u8, (u32, u8)) { if o.sym.is_empty() || o.sym[i].0 == NONE { (o.data[i], (NONE, 0)) } else { (0, o.sym[i]) } };
            let mut k = 0;
            while k < b.len() && k < o.len() && at(b, k) == at(o, k) {
                k += 1
            }
            let rest = o.slice(k, o.len() - k);
            files.push((p.clone(), jo(vec![("same", ji(k as i64)), ("base", ji(b.len() as i64)), ("rest", emit_obj(x, &rest, &s.dom, &fixed, &mut terms))])));
        }
        runs.push(jo(vec![
            ("end", js(&end_name(&r.end))),
            ("out", emit_obj(x, &r.out, &s.dom, &fixed, &mut terms)),
            ("err", emit_obj(x, &r.err, &s.dom, &fixed, &mut terms)),
            ("files", J::Obj(files)),
            ("events", J::Arr(r.events.iter().map(|e| js(e)).collect())),
            ("cwd", js(&r.cwd)),
        ]));
    }
    let mut dom = vec![];
    let mut model = vec![];
    let mut smt = String::new();
    for v in 0..x.a.vars.len() {
        let nm = x.a.vars[v].name.clone();
        let n = x.a.vars[v].n;
        let mut rs = vec![];
        let mut i = 0;
        while i < n {
            if bit(&s.dom[v], i) {
                let st = i;
                while i < n && bit(&s.dom[v], i) {
                    i += 1
                }
                rs.push(J::Arr(vec![ji(st as i64), ji(i as i64 - 1)]));
            } else {
                i += 1
            }
        }
        dom.push((nm.clone(), J::Arr(rs)));
        model.push((nm.clone(), ji(s.model[v] as i64)));
        smt.push_str(&format!("(declare-const |{}| (_ BitVec 16))\n", nm));
        let d = s.dom[v].clone();
        let p = x.a.z_member(v, &|i| bit(&d, i));
        smt.push_str(&format!("(assert {})\n", x.a.z_string(p)));
    }
    for c in &s.cons {
        let p = x.a.z_bool(*c);
        smt.push_str(&format!("(assert {})\n", x.a.z_string(p)));
    }
    let mut toks = vec![];
    let mut tk: Vec<u32> = s.tokens.iter().copied().collect();
    tk.sort();
    for k in tk {
        let t = &x.tokens[k as usize];
        let (f, mk, prec, expr) = (t.f.clone(), t.marker, t.prec, t.expr);
        let nm = format!("tok{}", k);
        let id = x.a.id(&f.num, 64);
        let p = x.a.z_bv(id);
        smt.push_str(&format!("(declare-const {} (_ BitVec 64))\n(assert (= {} {}))\n", nm, nm, x.a.z_string(p)));
        let (kind, e) = match f.kind {
            FK::Exact => ("exact", 0.0),
            FK::CR => ("cr", 0.0),
            FK::Err(e) => ("err", e),
        };
        let mv = f64::from_bits(x.a.eval1(expr, &s.model) as u64);
        toks.push(jo(vec![
            ("marker", js(&format!("{}", mk))),
            ("name", js(&nm)),
            ("p", js(&f.p.to_string())),
            ("q", js(&f.q.to_string())),
            ("lo", js(&f.lo.to_string())),
            ("hi", js(&f.hi.to_string())),
            ("kind", js(kind)),
            ("err", J::Num(e)),
            ("prec", ji(prec as i64)),
            ("model", js(&format!("{}", mv))),
        ]));
    }
    for (nm, id) in &terms {
        let p = x.a.z_bv(*id);
        smt.push_str(&format!("(declare-const {} (_ BitVec 8))\n(assert (= {} {}))\n", nm, nm, x.a.z_string(p)));
    }
    jo(vec![
        ("status", js(&end_name(end))),
        ("runs", J::Arr(runs)),
        ("dom", J::Obj(dom)),
        ("model", J::Obj(model)),
        ("ncons", ji(s.cons.len() as i64)),
        ("smt", js(&smt)),
        ("tokens", J::Arr(toks)),
        ("steps", ji(s.steps as i64)),
        ("forks", ji(s.forks as i64)),
    ])
}

pub fn end_name(e: &End) -> String {
    match e {
        End::Exit(c) => format!("exit {}", c),
        End::Panic(l) => format!("panic {}", l),
        End::Abort(l) => format!("abort {}", l),
        End::MemErr(l) => format!("memory {}", l),
        End::Hang => "hang".into(),
        End::Tie => "tie".into(),
        End::Unsupported(l) => format!("unsupported {}", l),
    }
}

pub fn base_mem(m: &Module) -> Vec<Option<Rc<Obj>>> {
    let mut v: Vec<Option<Rc<Obj>>> = vec![None];
    for g in &m.globals {
        let mut o = Obj::bytes(&g.data);
        o.ro = g.constant;
        v.push(Some(Rc::new(o)));
    }
    let n = (m.ebase as usize + m.exts.len()).max(v.len()) + 1;
    v.resize(n, None);
    v
}

/// is the time for the whole process (SF_ENGINE_SECS) used up?
pub fn over() -> bool {
    static START: std::sync::OnceLock<(std::time::Instant, u64)> = std::sync::OnceLock::new();
    let (t, n) = START.get_or_init(|| (std::time::Instant::now(), std::env::var("SF_ENGINE_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(1 << 40)));
    t.elapsed().as_secs() > *n
}

pub fn run(cx: &Ctx, j: &J, base: &Vec<Option<Rc<Obj>>>) -> J {
    let t0 = std::time::Instant::now();
    let mut x = Exec::new(cx.m.clone(), cx.hooks.clone(), cx.exts.clone());
    x.max_steps = j.gi("max_steps", 60_000_000) as u64;
    x.trace = j.gi("trace", 0) != 0;
    let max_paths = j.gi("max_paths", 20000) as usize;
    let max_secs = j.gi("max_secs", 800) as u64;
    let mut vars = HashMap::new();
    let mut dom: Vec<Bits> = vec![];
    if let Some(vs) = j.get("vars") {
        for v in vs.arr() {
            let n = v.gi("n", 1) as usize;
            let k = x.a.new_var(v.get("name").unwrap().s(), n);
            vars.insert(v.get("name").unwrap().s().to_string(), k);
            let mut b = vec![0u64; (n + 63) / 64];
            match v.get("dom") {
                Some(d) => {
                    for i in d.arr() {
                        let i = i.i() as usize;
                        b[i >> 6] |= 1 << (i & 63);
                    }
                }
                None => {
                    for i in 0..n {
                        b[i >> 6] |= 1 << (i & 63);
                    }
                }
            }
            dom.push(Rc::new(b));
        }
    }
    let init = cx.m.funcs.iter().position(|f| f.name.contains("ARGV_INIT_ARRAY12init_wrapper")).expect("init_wrapper") as u32;
    let main = cx.m.fmap["main"];
    let sc = Scn { j, vars, base: base.clone(), init, main };
    // length classes
    let mut tabs = vec![];
    for f in j.get("files").map(|f| f.arr()).unwrap_or(&[]) {
        seg_tabs(f.get("segs").unwrap(), &mut tabs);
    }
    for r in j.get("runs").unwrap().arr() {
        for a in r.get("argv").unwrap().arr() {
            seg_tabs(a, &mut tabs);
        }
        for e in r.get("env").map(|e| e.arr()).unwrap_or(&[]) {
            seg_tabs(&e.arr()[1], &mut tabs);
        }
    }
    let mut classes: Vec<Vec<Bits>> = vec![dom.clone()];
    for v in 0..dom.len() {
        let nm = x.a.vars[v].name.clone();
        let ts: Vec<&Vec<usize>> = tabs.iter().filter(|t| t.0 == nm).map(|t| &t.1).collect();
        let mut groups: BTreeMap<Vec<usize>, Vec<usize>> = BTreeMap::new();
        for i in bits_iter(&dom[v]) {
            groups.entry(ts.iter().map(|t| t[i]).collect()).or_default().push(i);
        }
        if groups.len() > 1 {
            let mut nc = vec![];
            for c in &classes {
                for g in groups.values() {
                    let mut b = vec![0u64; dom[v].len()];
                    for i in g {
                        b[i >> 6] |= 1 << (i & 63);
                    }
                    let mut c2 = c.clone();
                    c2[v] = Rc::new(b);
                    nc.push(c2);
                }
            }
            classes = nc;
        }
    }
    let mut work: Vec<State> = vec![];
    for c in classes {
        let mut files = BTreeMap::new();
        let mut dirs: BTreeSet<String> = BTreeSet::new();
        dirs.insert("/".into());
        let mut add_dir = |p: &str| {
            let mut cur = String::new();
            for k in p.split('/').filter(|k| !k.is_empty()) {
                cur = format!("{}/{}", cur, k);
                dirs.insert(cur.clone());
            }
        };
        add_dir("/w");
        for d in j.get("dirs").map(|f| f.arr()).unwrap_or(&[]) {
            add_dir(d.s());
        }
        for f in j.get("files").map(|f| f.arr()).unwrap_or(&[]) {
            let p = f.get("path").unwrap().s().to_string();
            add_dir(&p[..p.rfind('/').unwrap()]);
            let o = build(&mut x, &sc, f.get("segs").unwrap(), &c);
            files.insert(p, Rc::new(o));
        }
        let model: Vec<u16> = c.iter().map(|b| bits_iter(b).next().unwrap() as u16).collect();
        let e = Rc::new(Obj::default());
        let base = Rc::new(files.clone());
        let mut s = State {
            base,
            frames: vec![],
            mem: vec![],
            free: vec![],
            dom: c,
            cons: vec![],
            cvars: 0,
            known: Rc::new(HashMap::new()),
            model: Rc::new(model),
            os: Os {
                files,
                dirs: Rc::new(dirs),
                cwd: "/w".into(),
                env: Rc::new(vec![]),
                fds: vec![],
                out: e.clone(),
                err: e,
                events: Rc::new(vec![]),
                clock: Val::C(0),
                seed: 1,
                errno: 0,
                tty: 0,
                faults: Rc::new(vec![]),
                counts: [0; 3],
            },
            steps: 0,
            forks: 0,
            run: 0,
            results: vec![],
            tokens: Rc::new(HashSet::new()),
            phase: 0,
            argc: 0,
            argv: 0,
            retval: 0,
        };
        start(&mut x, &sc, &mut s);
        work.push(s);
    }
    let nruns = j.get("runs").unwrap().arr().len();
    let mut paths: Vec<J> = vec![];
    let mut incomplete = String::new();
    let mut forkat: HashMap<String, u64> = HashMap::new();
    let stop_on = j.gi("stop_on_crash", 0) != 0;
    while let Some(mut s) = work.pop() {
        if paths.len() >= max_paths {
            incomplete = format!("path limit {}", max_paths);
            break;
        }
        if over() {
            incomplete = "the time for all scenarios is used up".into();
            break;
        }
        if t0.elapsed().as_secs() > max_secs {
            incomplete = format!("time limit {} s", max_secs);
            break;
        }
        let mut end = match x.run(&mut s) {
            Stop::Fork(c) => {
                if x.trace {
                    *forkat.entry(x.loc(&s)).or_default() += 1;
                }
                work.extend(x.fork(s, c));
                continue;
            }
            Stop::Split(e) => {
                if x.trace {
                    *forkat.entry(format!("split {}", x.loc(&s))).or_default() += 1;
                }
                match x.split(s, e) {
                    Ok(v) => {
                        work.extend(v);
                        continue;
                    }
                    Err((s2, e)) => {
                        s = s2;
                        e
                    }
                }
            }
            Stop::Done(e) => e,
        };
        if s.frames.is_empty() {
            if s.phase == 0 {
                s.phase = 1;
                let (c, v) = (s.argc, s.argv);
                let _ = x.push_call(&mut s, sc.main, vec![Val::C(c), Val::C(v)], u32::MAX, u32::MAX);
                work.push(s);
                continue;
            }
            end = End::Exit(s.retval as i32);
        }
        let rr = RunResult {
            end: end.clone(),
            out: (*s.os.out).clone(),
            err: (*s.os.err).clone(),
            files: s.os.files.clone(),
            events: (*s.os.events).clone(),
            cwd: s.os.cwd.clone(),
        };
        s.results.push(Rc::new(rr));
        if let End::Exit(_) = end {
            if s.run + 1 < nruns {
                s.run += 1;
                start(&mut x, &sc, &mut s);
                work.push(s);
                continue;
            }
        }
        s.mem = vec![];
        let p = emit(&mut x, &s, &end);
        paths.push(p);
        if stop_on && !matches!(end, End::Exit(_)) {
            break;
        }
    }
    let mut fl: Vec<(String, u64)> = forkat.into_iter().collect();
    fl.sort_by_key(|x| std::cmp::Reverse(x.1));
    let funcs: Vec<J> = x.seen.iter().enumerate().filter(|f| *f.1).map(|(i, _)| js(&cx.m.funcs[i].name)).collect();
    x.st.paths = paths.len() as u64;
    jo(vec![
        ("name", js(&j.gs("name", ""))),
        ("paths", J::Arr(paths)),
        ("incomplete", js(&incomplete)),
        (
            "stats",
            jo(vec![
                ("instrs", ji(x.st.instrs as i64)),
                ("queries", ji(x.st.queries as i64)),
                ("cached", ji(x.st.cached as i64)),
                ("solver_s", J::Num(x.st.solver_ns as f64 / 1e9)),
                ("forks", ji(x.st.forks as i64)),
                ("nodes", ji(x.a.nodes.len() as i64)),
                ("wall_s", J::Num(t0.elapsed().as_secs_f64())),
            ]),
        ),
        ("forkat", J::Arr(fl.into_iter().take(12).map(|(k, v)| J::Arr(vec![js(&k), ji(v as i64)])).collect())),
        ("funcs", J::Arr(funcs)),
    ])
}
