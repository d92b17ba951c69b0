"""python3-vt -m sf.check PROPERTY [quick|thorough]"""
import importlib, json, math, multiprocessing, os, random, re, shutil, subprocess, sys, tempfile, time, traceback
import z3
from . import build, native
from .core import P, Sc, solver, OutOfRange, Bad, Run, PU

ROOT = build.ROOT
EV = os.path.join(ROOT, 'evidence') if build.REPO == '/repo' else build.B + '/evidence'
REPRO_TRIES = 4


def judge(p):
    """evaluates the property on a path; the obligations end up in p.obl"""
    try:
        if p.sc.opts_ok is not None and not p.sc.opts_ok(p):
            return
        crashed = [r for r in p.runs if r.crashed]
        if crashed:
            p.must(False, 'the run ended with: %s' % crashed[0].end)
            return
        p.sc.spec(p)
    except Bad as e:
        p.must(False, str(e))


def native_verdict(sc, idx, tools):
    p = P(sc, idx=idx, native=native.run(sc, idx, tools))
    judge(p)
    bad = []
    for c, m in p.obl:
        s = z3.simplify(c)
        if not z3.is_true(s):
            bad.append(m)
    return p, bad


def toks(s):
    return s.split()


def same_text(a, b):
    a, b = toks(a), toks(b)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x == y:
            continue
        nx, ny = re.split(r'(-?\d+(?:\.\d+)?)', x), re.split(r'(-?\d+(?:\.\d+)?)', y)
        if len(nx) != len(ny):
            return False
        for u, v in zip(nx, ny):
            if u == v:
                continue
            try:
                fu, fv = float(u), float(v)
            except ValueError:
                return False
            if abs(fu - fv) > 1.1e-8 + 1e-12 * abs(fu):
                return False
    return True


def concretise(p, path, text, model):
    def sub(m):
        t = [t for t in path['tokens'] if t['marker'] == m.group(0)]
        if not t:
            return m.group(0)
        v = float(t[0]['model'])
        return repr(abs(v)) if 'e' not in repr(abs(v)) else '%.10f' % abs(v)
    out = ''
    zm = None
    for c in text:
        k = ord(c) - PU
        if 0 <= k < len(p.syms):
            v, t = p.syms[k]
            if v is None:
                if zm is None:
                    s = z3.Solver()
                    s.add(p.asserts)
                    s.add([p.bv[x] == model[x] for x in model])
                    s.check()
                    zm = s.model()
                out += chr(zm.eval(t, model_completion=True).as_long())
            else:
                out += t[model[v]]
        else:
            out += c
    return re.sub(r'777\d{5}(?:\.25)?', sub, out)


def shown(v, i):
    return v.text[i] if v.text else str(v.vals[i]) if v.vals else i


def decide(p, r, tools):
    """judges one path (or one case of it) and asks the solver; -> a counterexample that the real binary does not share"""
    sc = p.sc
    try:
        judge(p)
    except OutOfRange:
        r['problems'].append('a value left the range of 64-bit integers')
        return None
    r['labels'] = sorted(set(r['labels']) | p.labels)
    r['obligations'] += len(p.obl)
    todo = []
    for c, m in p.obl:
        n = z3.simplify(z3.Not(c))
        if z3.is_false(n):
            r['discharged'] += 1
            continue
        todo.append((n, m))
    cands = []
    if todo:
        tries = 0
        cs = [z3.Or([n for n, _ in todo])]
        while tries < REPRO_TRIES:
            idx = p.eng().sat(cs, 120000, True)
            if idx == 'unsat':
                if tries == 0:
                    r['discharged'] += len(todo)
                break
            if idx == 'unknown':
                r['problems'].append('the solver gave up')
                break
            fix = [(p.bv[k], z3.BitVecVal(idx[k], 16)) for k in sc.vars]
            msgs = [msg for n, msg in todo if not z3.is_false(z3.simplify(z3.substitute(n, fix)))]
            cands.append((idx, msgs))
            tries += 1
            np, bad = native_verdict(sc, idx, tools)
            if bad:
                r['violations'].append(dict(idx=idx, messages=msgs, real=bad, ends=[x.end for x in np.runs], out=[x.out[-1500:] for x in np.runs], err=[x.err[-800:] for x in np.runs]))
                break
            cs.append(z3.Or([p.bv[k] != idx[k] for k in sc.vars]) if sc.vars else z3.BoolVal(False))
    r['queries'] += sum(p.eng().queries.values()) if p._eng else 0
    if cands and not r['violations']:
        return dict(idx=cands[0][0], messages=cands[0][1])
    return None


def do_path(sc, path, tools, validate):
    """-> dict(kind, ...)"""
    st = path['status']
    r = dict(status=st, queries=0, solver_s=0.0, obligations=0, discharged=0, labels=[], validated=0, steps=path['steps'], forks=path['forks'], samples=[], problems=[], violations=[], unconfirmed=[])
    if st.startswith('unsupported') or st == 'tie':
        return r
    p = P(sc, path=path)
    t0 = time.time()
    u = decide(p, r, tools)
    if u and p.syms:
        # the property may not have expected this text to be symbolic: decide it case by case
        first, todo, n = u, p.split(), 0
        ok = bool(todo)
        while todo and ok and not r['violations']:
            n += 1
            q = P(sc, path=path, fix=todo.pop())
            u = decide(q, r, tools)
            if u:
                more = q.split()
                if not more or n > 400 or time.time() - t0 > 120:
                    ok = False
                todo += more
        if ok or r['violations']:
            u = None
        else:
            u = first
    if u:
        r['unconfirmed'].append(u)
    r['solver_s'] = time.time() - t0
    if validate and not r['violations']:
        model = path['model']
        nat = native.run(sc, model, tools)
        ok = len(nat) == len(p.runs)
        why = 'number of runs'
        for a, b in zip(p.runs, nat):
            if not ok:
                break
            if a.end.split()[0] != b.end.split()[0]:
                ok, why = False, 'ends with %s, really %s' % (a.end, b.end)
            elif a.crashed:
                pass
            else:
                for x, y, w in [(a.out, b.out, 'stdout'), (a.err, b.err, 'stderr')]:
                    cx = concretise(p, path, x, model)
                    if not same_text(cx, y):
                        ok, why = False, '%s: engine %r, real %r' % (w, cx[-600:], y[-600:])
                for f in set(a.files) | set(b.files):
                    if f not in a.files or f not in b.files:
                        ok, why = False, 'file %s exists on one side only' % f
                    else:
                        x, y = a.files[f], b.files[f]
                        if (x[0] == x[1]) != (y[0] == y[1]) or not same_text(concretise(p, path, x[2], model), y[2]):
                            ok, why = False, 'file %s: engine %r, real %r' % (f, x, y)
        r['validated'] = 1
        if not ok:
            np, bad = native_verdict(sc, model, tools)
            if bad:
                r['violations'].append(dict(idx=model, messages=bad, real=bad, ends=[x.end for x in np.runs], out=[x.out[-1500:] for x in np.runs], err=[x.err[-800:] for x in np.runs]))
            else:
                r['problems'].append('the engine and the real binary disagree: ' + why + ' ' + json.dumps(model))
    if len(sc.vars) <= 12:
        r['samples'] = [dict(scenario=sc.name, status=st, variables={k: shown(sc.vars[k], path['model'][k]) for k in list(sc.vars)[:8]})]
    return r


_SC = {}
_TOOLS = None


def _work(a):
    name, lines, validate = a
    out = []
    sc = _SC[name]
    for l, v in zip(lines, validate):
        try:
            out.append(do_path(sc, l, _TOOLS, v))
        except Exception:
            out.append(dict(status='oracle error', error=traceback.format_exc()))
    return name, out


def load(pid, tier):
    m = importlib.import_module('props.' + pid.lower())
    scs = m.scenarios(tier)
    names = set()
    for s in scs:
        assert s.name not in names, s.name
        names.add(s.name)
        s.opts_ok = s.data.get('filter')
    return m, scs


def main():
    global _SC, _TOOLS
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    only = sys.argv[3] if len(sys.argv) > 3 else None
    t00 = time.time()
    os.makedirs(EV, exist_ok=True)
    try:
        tools = build.build()
    except build.BuildError as e:
        print('CANNOT BUILD: %s' % e)
        sys.exit(2)
    _TOOLS = tools
    m, scs = load(pid, tier)
    if only:
        scs = [s for s in scs if re.search(only, s.name)]
    _SC = {s.name: s for s in scs}
    wd = tempfile.mkdtemp(prefix='sfc')
    rc = 2
    try:
        rc = go(pid, tier, m, scs, tools, wd, t00)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    sys.exit(rc)


def go(pid, tier, m, scs, tools, wd, t00):
    # a changed tree may need far more paths than this one: stay within the time of a run
    esecs, osecs = (420, 330) if tier == 'quick' else (6 * 3600, 3 * 3600)
    with open(wd + '/s.json', 'w') as f:
        json.dump([dict(dict(max_secs=200 if tier == 'quick' else 3600), **s.json()) for s in scs], f)
    t1 = time.time()
    eng = subprocess.Popen([tools['engine'], tools['ir'], wd + '/s.json', wd + '/o.jsonl', '8'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, SF_ENGINE_SECS=str(esecs)))
    eout = eng.communicate()[0]
    if eng.returncode:
        print('ENGINE FAILED: %s' % eout[-2000:])
        return 2
    eng_s = time.time() - t1
    agg = dict(paths=0, queries=0, solver_s=0.0, obligations=0, discharged=0, validated=0, ties=0, unsupported=0, steps=0, forks=0)
    funcs, labels, samples, problems, viol, per, unconf, notes = set(), {}, [], [], [], [], [], []
    estats = dict(queries=0, cached=0, solver_s=0.0, forks=0, instrs=0, nodes=0)
    ctx, pers = multiprocessing.get_context('fork'), {}
    t2 = time.time()
    maxval = int(os.environ.get('SF_VALIDATE', '40' if tier == 'quick' else '400'))
    with ctx.Pool(8) as pool:
        jobs = []
        with open(wd + '/o.jsonl') as f:
            for l in f:
                d = json.loads(l)
                if 'error' in d:
                    problems.append('%s: engine error: %s' % (d.get('name'), d['error']))
                    continue
                ps = d['paths']
                step = max(1, len(ps) // maxval)
                val = [i % step == 0 for i in range(len(ps))]
                for k in range(0, len(ps), 8):
                    jobs.append((d['name'], ps[k:k + 8], val[k:k + 8]))
                funcs.update(d['funcs'])
                for k in estats:
                    estats[k] += d['stats'].get(k, 0)
                stx = {}
                for p in ps:
                    stx[p['status'].split(' ')[0]] = stx.get(p['status'].split(' ')[0], 0) + 1
                per.append(dict(scenario=d['name'], paths=len(ps), ends=stx, seconds=round(d['stats']['wall_s'], 2), incomplete=d['incomplete']))
                if d['incomplete']:
                    notes.append('%s: exploration stopped early: %s' % (d['name'], d['incomplete']))
        concl = {s.name: 0 for s in scs}
        random.Random(1).shuffle(jobs)
        it = pool.imap_unordered(_work, jobs)
        for done in range(len(jobs)):
            try:
                name, rs = it.next(timeout=max(1, t2 + osecs - time.time()))
            except multiprocessing.TimeoutError:
                notes.append('%d of %d groups of paths were not judged in time' % (len(jobs) - done, len(jobs)))
                if done * 4 < len(jobs) * 3:
                    problems += ['%s: not judged in time' % s.name for s in scs]
                pool.terminate()
                break
            for r in rs:
                if 'error' in r:
                    problems.append('%s: %s' % (name, r['error']))
                    continue
                agg['paths'] += 1
                pers[name] = pers.get(name, 0) + r.get('solver_s', 0)
                if r['status'] == 'tie':
                    agg['ties'] += 1
                    continue
                if r['status'].startswith('unsupported'):
                    agg['unsupported'] += 1
                    notes.append('%s: %s' % (name, r['status']))
                    continue
                concl[name] += 1
                for k in ('queries', 'solver_s', 'obligations', 'discharged', 'validated', 'steps', 'forks'):
                    agg[k] += r[k]
                for l in r['labels']:
                    labels[l] = labels.get(l, 0) + 1
                if len(samples) < 6 and r['samples'] and not any(x['scenario'] == name for x in samples):
                    samples += r['samples']
                problems += ['%s: %s' % (name, x) for x in r['problems']]
                for v in r['violations']:
                    viol.append((name, v))
                unconf += [(name, v) for v in r['unconfirmed']]
    post_s = time.time() - t2
    for n, c in concl.items():
        if c == 0 and not getattr(_SC[n], 'optional', False) and not any(x.startswith(n + ':') for x in problems):
            problems.append('%s: no path could be decided (%s)' % (n, '; '.join(x for x in notes if x.startswith(n + ':'))[:300]))
    for x in per:
        x['judging_s'] = round(pers.get(x['scenario'], 0), 2)
    # findings
    known = load_known(pid)
    new, seen = [], {}
    for name, v in viol:
        k = match_known(known, _SC[name], name, v)
        if k:
            seen[k['what']] = 1
        else:
            new.append((name, v))
    for k in seen:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    rep = None
    if new:
        name, v = min(new, key=lambda x: len(json.dumps(x[1]['idx'])))
        sc = _SC[name]
        d = os.path.join(EV, 'replay', pid)
        shutil.rmtree(d, ignore_errors=True)
        cmds = native.dump(sc, v['idx'], d)
        rep = os.path.join(d, 'replay.json')
        with open(rep, 'w') as f:
            json.dump(dict(property=pid, tier=tier, scenario=name, choice=v['idx'], solver_says=v['messages'], real_binary_says=v['real'], runs=cmds, ends=v['ends'], stdout=v['out'], stderr=v['err'],
                           rerun='cd /verif && python3-vt -m sf.replay %s' % rep), f, indent=1)
    mangled = sorted({nice(f) for f in funcs})
    mine = [f for f in mangled if f.startswith('silverfox::')]
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking',
              coverage=dict(
                  states=agg['paths'], transitions=estats['forks'] + agg['paths'],
                  traces_validated_against_impl=agg['validated'], samples=samples or [dict(note='no sample')],
                  explanation='Symbolic execution of the LLVM IR of the silverfox binary (whole program, standard library included), compiled from the working tree of /repo by this run. states = feasible paths explored to their end, transitions = forks and path ends.',
                  bounds=m.BOUNDS, outside=getattr(m, 'OUTSIDE', ''),
                  scenarios=len(scs), variables=sum(len(s.vars) for s in scs),
                  inputs_covered='%.3g' % sum(math.prod(v.n for v in s.vars.values()) for s in scs),
                  obligations=agg['obligations'], discharged=agg['discharged'],
                  path_queries=estats['queries'], path_queries_cached=estats['cached'], path_solver_s=round(estats['solver_s'], 2),
                  property_queries=agg['queries'], property_solver_s=round(agg['solver_s'], 2),
                  instructions_executed=estats['instrs'], ties_excluded=agg['ties'], unsupported_paths=agg['unsupported'],
                  witnesses=labels, functions_encoded=len(mangled), silverfox_functions=mine, per_scenario=per,
                  notes=notes[:40], problems=problems[:20], unconfirmed=[dict(scenario=n, **v) for n, v in unconf[:5]],
                  build_s=round(tools['secs'], 1), engine_s=round(eng_s, 1), oracle_s=round(post_s, 1)),
              wall_s=round(time.time() - t00, 1))
    with open(os.path.join(EV, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d scenarios, %d paths, %d obligations (%d discharged), %d+%d queries, %d replays agree; build %.0fs engine %.1fs oracle %.1fs' % (
        pid, tier, len(scs), agg['paths'], agg['obligations'], agg['discharged'], estats['queries'], agg['queries'], agg['validated'], tools['secs'], eng_s, post_s))
    if agg['ties'] or notes:
        print('  excluded: %d ties; %s' % (agg['ties'], '; '.join(notes[:5])[:600]))
    if os.environ.get('SF_LABELS'):
        print('  labels', labels)
    if new:
        name, v = new[0]
        for name, v in new[:3]:
            print('  %s: %s | real binary: %s | %s' % (name, v['messages'][:2], v['real'][:2], {k: shown(_SC[name].vars[k], i) for k, i in list(v['idx'].items())[:10]}))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    # what could not be decided is reported and left out of the claim; too much of it is no answer at all
    hit = set()
    for n, v in unconf:
        hit.add(n)
    for x in problems:
        hit.add(x.split(':')[0])
    for n, v in unconf[:3]:
        print('UNCONFIRMED %s: %s %s (the solver\'s counterexample does not fail on the real binary)' % (n, v['messages'][:2], v['idx']))
    for x in problems[:5]:
        print('UNDECIDED ' + x[:1500])
    if len(hit) * 4 > len(scs) or os.environ.get('SF_STRICT') and hit:
        return 2
    return 0


_NICE = {}


def nice(s):
    """a readable path out of a v0-mangled name"""
    m = re.findall(r'(?<!\d)(\d+)_?([A-Za-z_][A-Za-z0-9_]*)', s)
    parts = []
    i = 0
    while i < len(s):
        g = re.match(r'(\d+)_?', s[i:])
        if g and int(g.group(1)) and i + g.end() + int(g.group(1)) <= len(s):
            n = int(g.group(1))
            k = s[i + g.end():i + g.end() + n]
            if re.fullmatch(r'[A-Za-z_][A-Za-z0-9_]*', k):
                parts.append(k)
                i += g.end() + n
                continue
        i += 1
    if not s.startswith('_R'):
        return s
    if 'silverfox' in parts[:4] or (parts and parts[0] == 'silverfox'):
        parts = parts[parts.index('silverfox'):]
    return '::'.join(parts[:5])


def load_known(pid):
    p = os.path.join(ROOT, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == pid and k['status'] == 'open']


def match_known(known, sc, name, v):
    for k in known:
        if re.fullmatch(k['scenario'], name) and any(re.search(k['message'], x) for x in v['real']):
            return k
    return None


if __name__ == '__main__':
    main()
