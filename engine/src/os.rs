//! Model of the C library and kernel calls the binary makes.
use crate::exec::*;
use crate::expr::Val;
use crate::ir::addr;
use crate::mem::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

macro_rules! xs {
    ($($n:ident),* $(,)?) => {
        #[allow(non_camel_case_types)]
        #[derive(Clone, Copy, PartialEq, Debug)]
        pub enum X { $($n,)* Unknown }
        pub fn x_of(s: &str) -> X { match s { $(stringify!($n) => X::$n,)* _ => X::Unknown } }
    };
}
xs!(
    malloc, calloc, realloc, free, posix_memalign, bcmp, memcmp, strlen, memcpy, memmove, memset, memchr,
    open64, read, write, writev, close, lseek64, statx, fstat64, stat64, lstat64, readlink, realpath, getcwd, chdir,
    getenv, clock_gettime, getrandom, syscall, ioctl, isatty, poll, sigaction, signal, sigaltstack, sysconf,
    mmap64, mprotect, munmap, __errno_location, __xpg_strerror_r, __cxa_thread_atexit_impl, exit, _exit, abort, fcntl, dup,
    gettid, getauxval, getpid, pthread_self, pthread_getattr_np, pthread_attr_getguardsize, pthread_attr_getstack,
    pthread_attr_destroy, pthread_key_create, pthread_key_delete, pthread_setspecific, pthread_getspecific,
    rename, unlink, ftruncate64, mkdir, fsync, fdatasync, fchmod, chmod, copy_file_range, sendfile64, splice, getuid, flock,
    access, rmdir, symlink, link, setenv, unsetenv, nanosleep, sched_yield, pread64, pwrite64, utimensat, futimens,
);

#[derive(Clone)]
pub struct Fd {
    pub path: String,
    pub kind: u8, // 0 stdin 1 stdout 2 stderr 3 file 4 dir
    pub pos: usize,
    pub flags: u32,
}

#[derive(Clone)]
pub struct Os {
    pub files: BTreeMap<String, Rc<Obj>>,
    pub dirs: Rc<BTreeSet<String>>,
    pub cwd: String,
    pub env: Rc<Vec<(String, Val)>>, // value: pointer
    pub fds: Vec<Option<Fd>>,
    pub out: Rc<Obj>,
    pub err: Rc<Obj>,
    pub events: Rc<Vec<String>>,
    pub clock: Val,
    pub seed: u64,
    pub errno: u64,
    pub tty: u32,
    pub faults: Rc<Vec<Fault>>,
    pub counts: [u32; 3],
}
#[derive(Clone)]
pub struct Fault {
    pub op: String,
    pub path: String,
    pub nth: u32,
    pub errno: i32,
    pub keep: usize,
    pub cond: Val,
}

pub fn norm(cwd: &str, p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("{}/{}", cwd, p) };
    let mut v: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}

const ENOENT: i32 = 2;
const EBADF: i32 = 9;
const EEXIST: i32 = 17;
const ENOTDIR: i32 = 20;
const EISDIR: i32 = 21;
const ENOTTY: i32 = 25;
const ENOSYS: i32 = 38;

impl Exec {
    fn fail(&mut self, s: &mut State, e: i32) -> R<Option<Val>> {
        let p = s.os.errno;
        self.wr(s, p, 4, &Val::C(e as u64))?;
        Ok(Some(Val::C(0xffff_ffff)))
    }
    fn fail64(&mut self, s: &mut State, e: i32) -> R<Option<Val>> {
        self.fail(s, e)?;
        Ok(Some(Val::C(u64::MAX)))
    }
    fn path(&mut self, s: &State, v: &Val) -> R<String> {
        let p = self.conc(s, v, 64)?;
        let b = self.cstr(s, p)?;
        Ok(String::from_utf8_lossy(&b).to_string())
    }
    /// walk the components: a missing directory makes the whole path fail
    fn walk(&self, s: &State, p: &str) -> Result<String, i32> {
        if p.is_empty() {
            return Err(ENOENT);
        }
        let mut cur = if p.starts_with('/') { String::new() } else { if s.os.cwd == "/" { String::new() } else { s.os.cwd.clone() } };
        let comps: Vec<&str> = p.split('/').filter(|c| !c.is_empty()).collect();
        let trailing = p.ends_with('/') || p.ends_with("/.");
        for (i, c) in comps.iter().enumerate() {
            let here = if cur.is_empty() { "/".to_string() } else { cur.clone() };
            if !s.os.dirs.contains(&here) {
                return Err(if s.os.files.contains_key(&here) { ENOTDIR } else { ENOENT });
            }
            match *c {
                "." => {}
                ".." => {
                    let k = cur.rfind('/').unwrap_or(0);
                    cur.truncate(k);
                }
                c => {
                    cur = format!("{}/{}", cur, c);
                }
            }
            let _ = i;
        }
        if cur.is_empty() {
            cur = "/".into();
        }
        if trailing && s.os.files.contains_key(&cur) {
            return Err(ENOTDIR);
        }
        Ok(cur)
    }
    fn event(&self, s: &mut State, e: String) {
        Rc::make_mut(&mut s.os.events).push(e);
    }
    fn fault(&mut self, s: &mut State, op: &str, path: &str) -> R<Option<(i32, usize)>> {
        let fs = s.os.faults.clone();
        if fs.is_empty() {
            return Ok(None);
        }
        for f in fs.iter() {
            if f.op == op && (f.path.is_empty() || f.path == path) {
                let k = match op {
                    "open" => 0,
                    "read" => 1,
                    _ => 2,
                };
                if s.os.counts[k] != f.nth {
                    continue;
                }
                if self.decide(s, &f.cond)? {
                    return Ok(Some((f.errno, f.keep)));
                }
            }
        }
        Ok(None)
    }
    fn count(&self, s: &mut State, op: &str, path: &str) {
        let fs = s.os.faults.clone();
        if fs.iter().any(|f| f.op == op && (f.path.is_empty() || f.path == path)) {
            let k = match op {
                "open" => 0,
                "read" => 1,
                _ => 2,
            };
            s.os.counts[k] += 1;
        }
    }
    fn put_stat(&mut self, s: &mut State, p: u64, dir: bool, size: usize, chr: bool) -> R<()> {
        self.write_obj(s, p, &Obj::zero(144))?;
        self.wr(s, p, 8, &Val::C(1))?;
        self.wr(s, p + 8, 8, &Val::C(size as u64 + 1000))?;
        self.wr(s, p + 16, 8, &Val::C(1))?;
        self.wr(s, p + 24, 4, &Val::C(if chr { 0o20666 } else if dir { 0o40755 } else { 0o100644 }))?;
        self.wr(s, p + 48, 8, &Val::C(size as u64))?;
        self.wr(s, p + 56, 8, &Val::C(4096))?;
        Ok(())
    }
    fn new_fd(&self, s: &mut State, f: Fd) -> u64 {
        for (i, x) in s.os.fds.iter_mut().enumerate() {
            if x.is_none() {
                *x = Some(f);
                return i as u64;
            }
        }
        s.os.fds.push(Some(f));
        s.os.fds.len() as u64 - 1
    }
    fn do_write(&mut self, s: &mut State, fd: usize, data: Obj) -> R<Result<u64, i32>> {
        let Some(Some(f)) = s.os.fds.get(fd).cloned() else { return Ok(Err(EBADF)) };
        let mut n = data.len();
        let mut data = data;
        match f.kind {
            1 | 2 => {
                let o = if f.kind == 1 { &mut s.os.out } else { &mut s.os.err };
                let l = o.len();
                Rc::make_mut(o).write_at(l, &data);
            }
            3 => {
                if f.flags & 3 == 0 {
                    return Ok(Err(EBADF));
                }
                let ft = self.fault(s, "write", &f.path)?;
                self.count(s, "write", &f.path);
                if let Some((e, keep)) = ft {
                    if e < 0 {
                        return Err(Stop::Done(End::Exit(99)));
                    }
                    if keep == 0 {
                        self.event(s, format!("write-fault {}", f.path));
                        return Ok(Err(e));
                    }
                    n = n.min(keep);
                    data = data.slice(0, n);
                }
                let Some(o) = s.os.files.get_mut(&f.path) else { return Ok(Ok(n as u64)) };
                let at = if f.flags & 0x400 != 0 { o.len() } else { f.pos };
                Rc::make_mut(o).write_at(at, &data);
                s.os.fds[fd].as_mut().unwrap().pos = at + n;
                self.event(s, format!("write {} {} {}", f.path, at, n));
            }
            _ => return Ok(Err(EBADF)),
        }
        Ok(Ok(n as u64))
    }
    fn do_read(&mut self, s: &mut State, fd: usize, p: u64, n: usize, at: Option<usize>) -> R<Option<Val>> {
        let Some(Some(f)) = s.os.fds.get(fd).cloned() else { return self.fail64(s, EBADF) };
        match f.kind {
            0 => Ok(Some(Val::C(0))),
            3 => {
                if f.flags & 3 == 1 {
                    return self.fail64(s, EBADF);
                }
                let ft = self.fault(s, "read", &f.path)?;
                self.count(s, "read", &f.path);
                if let Some((e, _)) = ft {
                    return self.fail64(s, e);
                }
                let Some(o) = s.os.files.get(&f.path).cloned() else { return Ok(Some(Val::C(0))) };
                let pos = at.unwrap_or(f.pos).min(o.len());
                let k = n.min(o.len() - pos);
                let d = o.slice(pos, k);
                self.write_obj(s, p, &d)?;
                if at.is_none() {
                    s.os.fds[fd].as_mut().unwrap().pos = pos + k;
                }
                Ok(Some(Val::C(k as u64)))
            }
            4 => self.fail64(s, EISDIR),
            _ => self.fail64(s, EBADF),
        }
    }
    pub fn libc(&mut self, s: &mut State, x: X, e: u32, av: &[Val]) -> R<Option<Val>> {
        macro_rules! c {
            ($i:expr) => {
                self.conc(s, &av[$i], 64)?
            };
        }
        let ok = Ok(Some(Val::C(0)));
        match x {
            X::malloc => {
                let n = c!(0) as usize;
                let o = s.alloc(Obj::zero(n));
                Ok(Some(Val::C(addr(o, 0))))
            }
            X::calloc => {
                let n = (c!(0) * c!(1)) as usize;
                let o = s.alloc(Obj::zero(n));
                Ok(Some(Val::C(addr(o, 0))))
            }
            X::realloc => {
                let n = c!(1) as usize;
                let p = c!(0);
                if p == 0 {
                    let o = s.alloc(Obj::zero(n));
                    return Ok(Some(Val::C(addr(o, 0))));
                }
                let (o, _) = self.obj_mut(s, p, 0)?;
                o.resize(n);
                Ok(Some(Val::C(p)))
            }
            X::free => {
                let p = c!(0);
                if p != 0 {
                    let (_, off) = self.obj(s, p, 0)?;
                    if off != 0 || p >> 32 <= self.m.globals.len() as u64 {
                        return Err(Stop::Done(End::MemErr(format!("free {:x}", p))));
                    }
                    s.dealloc((p >> 32) as u32);
                }
                Ok(None)
            }
            X::posix_memalign => {
                let n = c!(2) as usize;
                let p = c!(0);
                let o = s.alloc(Obj::zero(n));
                self.wr(s, p, 8, &Val::C(addr(o, 0)))?;
                ok
            }
            X::bcmp | X::memcmp => {
                let n = c!(2) as usize;
                if n == 0 {
                    return ok;
                }
                let (p, q) = (c!(0), c!(1));
                Ok(Some(self.cmp_mem(s, p, q, n, x == X::bcmp)?))
            }
            X::memcpy | X::memmove => {
                let n = c!(2) as usize;
                let (d, p) = (c!(0), c!(1));
                let o = self.read_obj(s, p, n)?;
                self.write_obj(s, d, &o)?;
                Ok(Some(Val::C(d)))
            }
            X::memset => {
                let n = c!(2) as usize;
                let (d, b) = (c!(0), c!(1));
                self.write_obj(s, d, &Obj::bytes(&vec![b as u8; n]))?;
                Ok(Some(Val::C(d)))
            }
            X::strlen => {
                let p = c!(0);
                let v = self.cstr(s, p)?;
                Ok(Some(Val::C(v.len() as u64)))
            }
            X::open64 => {
                let p = self.path(s, &av[0])?;
                let fl = c!(1) as u32;
                let full = match self.walk(s, &p) {
                    Ok(f) => f,
                    Err(e) => return self.fail(s, e),
                };
                let ft = self.fault(s, "open", &full)?;
                self.count(s, "open", &full);
                if let Some((e, _)) = ft {
                    return self.fail(s, e);
                }
                if s.os.dirs.contains(&full) {
                    if fl & 3 != 0 {
                        return self.fail(s, EISDIR);
                    }
                    let fd = self.new_fd(s, Fd { path: full, kind: 4, pos: 0, flags: fl });
                    return Ok(Some(Val::C(fd)));
                }
                if !s.os.files.contains_key(&full) {
                    if fl & 0x40 == 0 {
                        return self.fail(s, ENOENT);
                    }
                    s.os.files.insert(full.clone(), Rc::new(Obj::default()));
                    self.event(s, format!("create {}", full));
                } else if fl & 0xc0 == 0xc0 {
                    return self.fail(s, EEXIST);
                }
                if fl & 0x200 != 0 && fl & 3 != 0 {
                    s.os.files.insert(full.clone(), Rc::new(Obj::default()));
                    self.event(s, format!("truncate {}", full));
                }
                let fd = self.new_fd(s, Fd { path: full, kind: 3, pos: 0, flags: fl });
                Ok(Some(Val::C(fd)))
            }
            X::read => {
                let (fd, p, n) = (c!(0) as usize, c!(1), c!(2) as usize);
                self.do_read(s, fd, p, n, None)
            }
            X::pread64 => {
                let (fd, p, n, at) = (c!(0) as usize, c!(1), c!(2) as usize, c!(3) as usize);
                self.do_read(s, fd, p, n, Some(at))
            }
            X::write => {
                let (fd, p, n) = (c!(0) as usize, c!(1), c!(2) as usize);
                let d = self.read_obj(s, p, n)?;
                match self.do_write(s, fd, d)? {
                    Ok(n) => Ok(Some(Val::C(n))),
                    Err(e) => self.fail64(s, e),
                }
            }
            X::writev => {
                let (fd, p, n) = (c!(0) as usize, c!(1), c!(2) as usize);
                let mut all = Obj::default();
                for i in 0..n {
                    let b = self.rd(s, p + 16 * i as u64, 8)?;
                    let l = self.rd(s, p + 16 * i as u64 + 8, 8)?;
                    let (b, l) = (self.conc(s, &b, 64)?, self.conc(s, &l, 64)? as usize);
                    let d = self.read_obj(s, b, l)?;
                    let k = all.len();
                    all.write_at(k, &d);
                }
                match self.do_write(s, fd, all)? {
                    Ok(n) => Ok(Some(Val::C(n))),
                    Err(e) => self.fail64(s, e),
                }
            }
            X::close => {
                let fd = c!(0) as usize;
                if fd < s.os.fds.len() {
                    s.os.fds[fd] = None;
                }
                ok
            }
            X::dup => {
                let fd = c!(0) as usize;
                let Some(Some(f)) = s.os.fds.get(fd).cloned() else { return self.fail(s, EBADF) };
                let n = self.new_fd(s, f);
                Ok(Some(Val::C(n)))
            }
            X::fcntl => {
                let fd = c!(0) as usize;
                let cmd = c!(1);
                let Some(Some(f)) = s.os.fds.get(fd).cloned() else { return self.fail(s, EBADF) };
                match cmd {
                    1030 | 0 => {
                        let n = self.new_fd(s, f);
                        Ok(Some(Val::C(n)))
                    }
                    1 => Ok(Some(Val::C(1))),
                    3 => Ok(Some(Val::C(f.flags as u64))),
                    _ => ok,
                }
            }
            X::lseek64 => {
                let (fd, o, w) = (c!(0) as usize, c!(1) as i64, c!(2));
                let Some(Some(f)) = s.os.fds.get(fd).cloned() else { return self.fail64(s, EBADF) };
                let sz = s.os.files.get(&f.path).map(|o| o.len()).unwrap_or(0) as i64;
                let np = match w {
                    0 => o,
                    1 => f.pos as i64 + o,
                    _ => sz + o,
                };
                if f.kind != 3 || np < 0 {
                    return self.fail64(s, 29);
                }
                s.os.fds[fd].as_mut().unwrap().pos = np as usize;
                Ok(Some(Val::C(np as u64)))
            }
            X::ftruncate64 => {
                let (fd, n) = (c!(0) as usize, c!(1) as usize);
                let Some(Some(f)) = s.os.fds.get(fd).cloned() else { return self.fail(s, EBADF) };
                self.event(s, format!("ftruncate {} {}", f.path, n));
                if let Some(o) = s.os.files.get_mut(&f.path) {
                    Rc::make_mut(o).resize(n);
                }
                ok
            }
            X::statx | X::copy_file_range | X::splice => {
                if x == X::statx { self.fail(s, ENOSYS) } else { self.fail64(s, ENOSYS) }
            }
            X::sendfile64 => self.fail64(s, ENOSYS),
            X::fstat64 => {
                let fd = c!(0) as usize;
                let p = c!(1);
                let Some(Some(f)) = s.os.fds.get(fd).cloned() else { return self.fail(s, EBADF) };
                let sz = s.os.files.get(&f.path).map(|o| o.len()).unwrap_or(0);
                self.put_stat(s, p, f.kind == 4, sz, f.kind < 3)?;
                ok
            }
            X::stat64 | X::lstat64 => {
                let p = self.path(s, &av[0])?;
                let b = c!(1);
                let full = match self.walk(s, &p) {
                    Ok(f) => f,
                    Err(e) => return self.fail(s, e),
                };
                let dir = s.os.dirs.contains(&full);
                if !dir && !s.os.files.contains_key(&full) {
                    return self.fail(s, ENOENT);
                }
                let sz = s.os.files.get(&full).map(|o| o.len()).unwrap_or(0);
                self.put_stat(s, b, dir, sz, false)?;
                ok
            }
            X::access => {
                let p = self.path(s, &av[0])?;
                match self.walk(s, &p) {
                    Ok(f) if s.os.dirs.contains(&f) || s.os.files.contains_key(&f) => ok,
                    Ok(_) => self.fail(s, ENOENT),
                    Err(e) => self.fail(s, e),
                }
            }
            X::readlink => self.fail64(s, 22),
            X::realpath => {
                let p = self.path(s, &av[0])?;
                match self.walk(s, &p) {
                    Ok(f) if s.os.dirs.contains(&f) || s.os.files.contains_key(&f) => {
                        let mut b = f.into_bytes();
                        b.push(0);
                        let dst = c!(1);
                        if dst != 0 {
                            self.write_obj(s, dst, &Obj::bytes(&b))?;
                            return Ok(Some(Val::C(dst)));
                        }
                        let o = s.alloc(Obj::bytes(&b));
                        Ok(Some(Val::C(addr(o, 0))))
                    }
                    Ok(_) => {
                        self.fail(s, ENOENT)?;
                        ok
                    }
                    Err(e) => {
                        self.fail(s, e)?;
                        ok
                    }
                }
            }
            X::getcwd => {
                let (p, n) = (c!(0), c!(1) as usize);
                let mut b = s.os.cwd.clone().into_bytes();
                b.push(0);
                if b.len() > n {
                    self.fail(s, 34)?;
                    return ok;
                }
                self.write_obj(s, p, &Obj::bytes(&b))?;
                Ok(Some(Val::C(p)))
            }
            X::chdir => {
                let p = self.path(s, &av[0])?;
                match self.walk(s, &p) {
                    Ok(f) if s.os.dirs.contains(&f) => {
                        s.os.cwd = f;
                        ok
                    }
                    Ok(f) => {
                        let e = if s.os.files.contains_key(&f) { ENOTDIR } else { ENOENT };
                        self.fail(s, e)
                    }
                    Err(e) => self.fail(s, e),
                }
            }
            X::rename => {
                let a = self.path(s, &av[0])?;
                let b = self.path(s, &av[1])?;
                let (a, b) = match (self.walk(s, &a), self.walk(s, &b)) {
                    (Ok(a), Ok(b)) => (a, b),
                    (Err(e), _) | (_, Err(e)) => return self.fail(s, e),
                };
                let Some(o) = s.os.files.remove(&a) else { return self.fail(s, ENOENT) };
                s.os.files.insert(b.clone(), o);
                self.event(s, format!("rename {} {}", a, b));
                ok
            }
            X::unlink => {
                let a = self.path(s, &av[0])?;
                let a = match self.walk(s, &a) {
                    Ok(a) => a,
                    Err(e) => return self.fail(s, e),
                };
                if s.os.files.remove(&a).is_none() {
                    return self.fail(s, ENOENT);
                }
                self.event(s, format!("unlink {}", a));
                ok
            }
            X::mkdir => {
                let a = self.path(s, &av[0])?;
                match self.walk(s, &a) {
                    Ok(a) => {
                        if s.os.dirs.contains(&a) || s.os.files.contains_key(&a) {
                            return self.fail(s, EEXIST);
                        }
                        Rc::make_mut(&mut s.os.dirs).insert(a.clone());
                        self.event(s, format!("mkdir {}", a));
                        ok
                    }
                    Err(e) => self.fail(s, e),
                }
            }
            X::getenv => {
                let p = c!(0);
                let b = self.cstr(s, p)?;
                let k = String::from_utf8_lossy(&b).to_string();
                for (n, v) in s.os.env.iter() {
                    if *n == k {
                        return Ok(Some(v.clone()));
                    }
                }
                ok
            }
            X::clock_gettime => {
                let k = c!(0);
                let p = c!(1);
                let v = if k == 0 { s.os.clock.clone() } else { Val::C(1000) };
                self.wr(s, p, 8, &v)?;
                self.wr(s, p + 8, 8, &Val::C(0))?;
                ok
            }
            X::getrandom => {
                let (p, n) = (c!(0), c!(1) as usize);
                let mut b = vec![];
                while b.len() < n {
                    s.os.seed = s.os.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    b.extend_from_slice(&(s.os.seed ^ (s.os.seed >> 29)).to_le_bytes());
                }
                b.truncate(n);
                self.write_obj(s, p, &Obj::bytes(&b))?;
                Ok(Some(Val::C(n as u64)))
            }
            X::isatty => {
                let fd = c!(0);
                if s.os.tty > 0 && fd <= 2 { Ok(Some(Val::C(1))) } else {
                    self.fail(s, ENOTTY)?;
                    ok
                }
            }
            X::ioctl => {
                let fd = c!(0);
                if s.os.tty > 0 && fd <= 2 {
                    if c!(1) == 0x5413 {
                        let p = c!(2);
                        let t = s.os.tty as u64;
                        self.wr(s, p, 8, &Val::C(50 | t << 16))?;
                    }
                    return ok;
                }
                self.fail(s, ENOTTY)
            }
            X::poll => ok,
            X::sigaction => {
                let o = c!(2);
                if o != 0 {
                    self.write_obj(s, o, &Obj::zero(152))?;
                    self.wr(s, o, 8, &Val::C(1))?;
                }
                ok
            }
            X::signal | X::sigaltstack | X::mprotect | X::munmap | X::fsync | X::fdatasync | X::fchmod | X::chmod | X::flock | X::sched_yield | X::nanosleep | X::futimens => ok,
            X::sysconf => Ok(Some(Val::C(if c!(0) == 30 { 4096 } else if c!(0) == 70 { 1024 } else { u64::MAX }))),
            X::getauxval => ok,
            X::mmap64 => {
                let n = c!(1) as usize;
                let o = s.alloc(Obj::zero(n));
                Ok(Some(Val::C(addr(o, 0))))
            }
            X::__errno_location => Ok(Some(Val::C(s.os.errno))),
            X::__xpg_strerror_r => {
                let e = c!(0) as i32;
                let (p, n) = (c!(1), c!(2) as usize);
                let m = match e {
                    2 => "No such file or directory".to_string(),
                    5 => "Input/output error".to_string(),
                    13 => "Permission denied".to_string(),
                    17 => "File exists".to_string(),
                    20 => "Not a directory".to_string(),
                    21 => "Is a directory".to_string(),
                    22 => "Invalid argument".to_string(),
                    25 => "Inappropriate ioctl for device".to_string(),
                    28 => "No space left on device".to_string(),
                    _ => format!("Unknown error {}", e),
                };
                let mut b = m.into_bytes();
                b.truncate(n - 1);
                b.push(0);
                self.write_obj(s, p, &Obj::bytes(&b))?;
                ok
            }
            X::__cxa_thread_atexit_impl => ok,
            X::exit | X::_exit => {
                let k = c!(0) as u32 as i32;
                Err(Stop::Done(End::Exit(k)))
            }
            X::abort => Err(Stop::Done(End::Abort(format!("abort in {}", self.loc(s))))),
            X::gettid | X::getpid => Ok(Some(Val::C(4242))),
            X::getuid => Ok(Some(Val::C(1000))),
            X::pthread_self => Ok(Some(Val::C(1))),
            X::pthread_key_create => {
                let p = c!(0);
                self.wr(s, p, 4, &Val::C(1))?;
                ok
            }
            X::pthread_key_delete | X::pthread_setspecific | X::pthread_getspecific | X::pthread_attr_destroy => ok,
            X::pthread_getattr_np | X::pthread_attr_getguardsize | X::pthread_attr_getstack => Ok(Some(Val::C(1))),
            X::syscall => {
                let n = c!(0);
                match n {
                    318 => self.libc(s, X::getrandom, e, &av[1..]),
                    202 => ok,
                    _ => self.fail64(s, ENOSYS),
                }
            }
            _ => {
                let n = self.m.exts[e as usize].clone();
                unsup(format!("external function {}", n))
            }
        }
    }
}
