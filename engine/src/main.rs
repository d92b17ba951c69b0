mod exec;
mod expr;
mod ir;
mod json;
mod mem;
mod os;
mod scen;
mod z3;
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: sfsym MODULE.ll SCENARIOS.json OUT.jsonl [threads]");
        std::process::exit(2);
    }
    let nt: usize = a.get(4).map(|s| s.parse().unwrap()).unwrap_or(8);
    scen::over();
    let t = std::fs::read_to_string(&a[1]).unwrap();
    let m = Arc::new(ir::parse(&t));
    drop(t);
    let hooks = Arc::new(exec::hooks(&m));
    let exts = Arc::new(m.exts.iter().map(|n| os::x_of(n)).collect::<Vec<_>>());
    let js = Arc::new(json::parse(&std::fs::read_to_string(&a[2]).unwrap()));
    let n = js.arr().len();
    let next = Arc::new(AtomicUsize::new(0));
    let out = Arc::new(Mutex::new(std::fs::File::create(&a[3]).unwrap()));
    std::panic::set_hook(Box::new(|i| { if std::env::var("SF_PANIC").is_ok() { eprintln!("{}\n{}", i, std::backtrace::Backtrace::force_capture()); } }));
    let mut hs = vec![];
    for _ in 0..nt.min(n) {
        let (m, hooks, exts, js, next, out) = (m.clone(), hooks.clone(), exts.clone(), js.clone(), next.clone(), out.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    let cx = scen::Ctx { m: m.clone(), hooks, exts };
                    let base = scen::base_mem(&m);
                    loop {
                        let k = next.fetch_add(1, Ordering::SeqCst);
                        if k >= js.arr().len() {
                            break;
                        }
                        let j = &js.arr()[k];
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| scen::run(&cx, j, &base)));
                        let r = match r {
                            Ok(r) => r,
                            Err(e) => {
                                let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                                json::J::Obj(vec![("name".into(), json::J::Str(j.gs("name", ""))), ("error".into(), json::J::Str(msg))])
                            }
                        };
                        let mut s = String::new();
                        r.write(&mut s);
                        s.push('\n');
                        out.lock().unwrap().write_all(s.as_bytes()).unwrap();
                    }
                })
                .unwrap(),
        );
    }
    for h in hs {
        h.join().unwrap();
    }
}
