"""Runs the real binary on one concrete instance of a scenario, in a scratch directory of its own."""
import os, re, shutil, subprocess, tempfile
from .core import Run, P

TMP = '/dev/shm' if os.path.isdir('/dev/shm') else None


def run(sc, idx, tools, timeout=10):
    top = tempfile.mkdtemp(prefix='sfr', dir=TMP)
    try:
        os.makedirs(top + '/w')
        for d in sc.dirs:
            os.makedirs(top + d, exist_ok=True)
        base = {}
        for p, segs in sc.files:
            os.makedirs(os.path.dirname(top + p), exist_ok=True)
            base[p] = sc.concrete(segs, idx).encode('utf-8')
            with open(top + p, 'wb') as f:
                f.write(base[p])
        res = []
        for r in sc.runs:
            fix = lambda s: re.sub(r'(^|(?<==))/w/', lambda m: top + '/w/', s)
            argv = [tools['bin']] + [fix(sc.concrete(a, idx)) for a in r['argv'][1:]]
            env = {k: fix(sc.concrete(v, idx)) for k, v in r['env']}
            env.update(VF_CLOCK=str(sc.clock_of(r, idx)), VF_SEED=str(sc.seed_of(r)), VF_TTY=str(r['tty']), LD_PRELOAD=tools['shim'])
            fl = []
            for f in r['faults']:
                c = f.get('if')
                if c is None or idx[c[0].name] == c[1]:
                    fl.append('%s:%s:%d:%d:%d' % (f['op'], f['path'], f.get('nth', 0), f.get('errno', 28), f.get('keep', 0)))
            if fl:
                env['VF_FAULT'] = ','.join(fl)
            try:
                p = subprocess.run(argv, env=env, cwd=top + r['cwd'], stdin=subprocess.DEVNULL, capture_output=True, timeout=timeout)
                out, err, rc = p.stdout, p.stderr, p.returncode
            except subprocess.TimeoutExpired as e:
                out, err, rc = e.stdout or b'', e.stderr or b'', 'hang'
            out, err = (x.decode('utf-8', 'replace').replace(top, '') for x in (out, err))
            if rc == 'hang':
                end = 'hang'
            elif rc == 101:
                m = re.search(r'panicked at (\S+?):(\d+)', err)
                end = 'panic ' + (m.group(1) + ':' + m.group(2) if m else '?')
            elif rc < 0:
                end = 'abort signal %d' % -rc
            else:
                end = 'exit %d' % rc
            files, now = {}, {}
            for d, _, fs in os.walk(top):
                for f in fs:
                    full = os.path.join(d, f)
                    p = full[len(top):]
                    with open(full, 'rb') as h:
                        c = h.read()
                    now[p] = c
                    b = base.get(p, b'')
                    k = len(os.path.commonprefix([b, c]))
                    files[p] = (k, len(b), c[k:].decode('utf-8', 'replace'))
            for p in base:
                if p not in now and base[p]:
                    files[p] = (0, len(base[p]), '')
            base = now      # each run is compared with what the run before it left behind
            res.append(Run(end, out, err, files))
            if not end.startswith('exit'):
                break
        return res
    finally:
        shutil.rmtree(top, ignore_errors=True)


def dump(sc, idx, where):
    """writes the concrete instance to a directory, with a script that shows it"""
    os.makedirs(where, exist_ok=True)
    for p, segs in sc.files:
        os.makedirs(os.path.dirname(where + p), exist_ok=True)
        with open(where + p, 'wb') as f:
            f.write(sc.concrete(segs, idx).encode('utf-8'))
    for d in sc.dirs:
        os.makedirs(where + d, exist_ok=True)
    cmds = []
    for r in sc.runs:
        cmds.append(dict(argv=['silverfox'] + [sc.concrete(a, idx) for a in r['argv'][1:]], env={k: sc.concrete(v, idx) for k, v in r['env']},
                         cwd=r['cwd'], unix_time=sc.clock_of(r, idx), terminal_width=r['tty'],
                         faults=[{k: v for k, v in f.items() if k != 'if'} for f in r['faults'] if f.get('if') is None or idx[f['if'][0].name] == f['if'][1]]))
    return cmds
