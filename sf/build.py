"""Builds everything a check needs from the current working tree of /repo: the LLVM IR that is executed
symbolically, the real binary for replays, the engine, and the LD_PRELOAD shim."""
import fcntl, glob, os, shutil, subprocess, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(ROOT, '.build')
REPO = os.environ.get('SF_REPO', '/repo')
if REPO != '/repo':
    B = os.environ['SF_BUILD']


class BuildError(Exception):
    pass


def _env(**k):
    e = dict(os.environ)
    for d in list(e):
        if d.startswith('CARGO_PROFILE') or d in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS'):
            del e[d]
    e.update(PATH='/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + e.get('PATH', ''),
             HOME=e.get('HOME', '/root'), RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
             CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0')
    e.update(k)
    return e


def _run(cmd, env, what):
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('%s failed:\n%s' % (what, p.stdout[-4000:]))


def _engine():
    _run(['cargo', 'build', '--release', '--offline', '--manifest-path', ROOT + '/engine/Cargo.toml'],
         _env(CARGO_TARGET_DIR=B + '/engine'), 'building the engine')


def _ir():
    d = B + '/ir'
    for p in glob.glob(d + '/release/deps/silverfox-*') + glob.glob(d + '/release/.fingerprint/silverfox-*'):
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    _run(['cargo', 'rustc', '--release', '--offline', '--bin', 'silverfox', '--manifest-path', REPO + '/Cargo.toml', '--', '--emit=llvm-ir'],
         _env(CARGO_TARGET_DIR=d, CARGO_PROFILE_RELEASE_LTO='fat', CARGO_PROFILE_RELEASE_OPT_LEVEL='1', CARGO_PROFILE_RELEASE_PANIC='abort',
              CARGO_PROFILE_RELEASE_CODEGEN_UNITS='1', CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS='true',
              CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS='true'),
         'compiling /repo to LLVM IR')
    l = glob.glob(d + '/release/deps/silverfox-*.ll')
    if len(l) != 1:
        raise BuildError('expected one .ll file, found %r' % l)
    shutil.copy(l[0], B + '/silverfox.ll.new')
    os.replace(B + '/silverfox.ll.new', B + '/silverfox.ll')


def _native():
    _run(['cargo', 'build', '--offline', '--bin', 'silverfox', '--manifest-path', REPO + '/Cargo.toml'],
         _env(CARGO_TARGET_DIR=B + '/native', CARGO_PROFILE_DEV_DEBUG='line-tables-only'), 'building /repo')


def _shim():
    _run(['cc', '-O1', '-shared', '-fPIC', '-o', B + '/shim.so.new', ROOT + '/native/shim.c', '-ldl'], _env(), 'building the shim')
    os.replace(B + '/shim.so.new', B + '/shim.so')  # a check that runs at the same time keeps a whole file


def build():
    os.makedirs(B, exist_ok=True)
    lock = open(B + '/lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    errs = []

    def go(f):
        try:
            f()
        except Exception as e:
            errs.append(e)
    jobs = [_ir, _native, _engine, _shim]
    if os.environ.get('SF_NOBUILD'):
        jobs = []
    ts = [threading.Thread(target=go, args=(f,)) for f in jobs]
    [t.start() for t in ts]
    [t.join() for t in ts]
    fcntl.flock(lock, fcntl.LOCK_UN)
    if errs:
        raise errs[0]
    return dict(ir=B + '/silverfox.ll', bin=B + '/native/debug/silverfox', engine=B + '/engine/release/sfsym', shim=B + '/shim.so', secs=time.time() - t0)


if __name__ == '__main__':
    print(build())
