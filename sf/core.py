"""Scenarios (inputs with symbolic holes), the oracle's view of an explored path, and exact arithmetic on it."""
import datetime, math, re
from fractions import Fraction
import z3

LIM = 1 << 61
EPOCH = datetime.date(1970, 1, 1)


class OutOfRange(Exception):
    pass


class Bad(Exception):
    """an output that does not have the form the property talks about"""


# ---------------------------------------------------------------- numbers

class Q:
    """The number e/d: e is an int or a 64-bit term known to lie in [lo, hi]; err is an absolute error bound."""
    __slots__ = ('e', 'd', 'lo', 'hi', 'err')

    def __init__(self, e, d=1, lo=None, hi=None, err=0.0):
        if isinstance(e, Fraction):
            d = d * e.denominator
            e = e.numerator
        self.e, self.d, self.err = e, d, err
        self.lo = e if lo is None else lo
        self.hi = e if hi is None else hi
        if max(abs(self.lo), abs(self.hi)) >= LIM:
            raise OutOfRange()

    @staticmethod
    def of(x):
        if isinstance(x, Q):
            return x
        if isinstance(x, (int, Fraction)):
            return Q(Fraction(x))
        raise TypeError(x)

    def _scale(self, k):
        if k == 1:
            return self.e
        return self.e * k if isinstance(self.e, int) else self.e * z3.BitVecVal(k, 64)

    def _al(self, o):
        o = Q.of(o)
        d = self.d * o.d // math.gcd(self.d, o.d)
        a, b = d // self.d, d // o.d
        if max(abs(self.lo), abs(self.hi)) * a >= LIM or max(abs(o.lo), abs(o.hi)) * b >= LIM:
            raise OutOfRange()
        return self._scale(a), o._scale(b), d, (self.lo * a, self.hi * a), (o.lo * b, o.hi * b), self.err + o.err

    def __add__(self, o):
        a, b, d, x, y, err = self._al(o)
        return Q(a + b, d, x[0] + y[0], x[1] + y[1], err)
    __radd__ = __add__

    def __neg__(self):
        return Q(-self.e, self.d, -self.hi, -self.lo, self.err)

    def __sub__(self, o):
        return self + (-Q.of(o))

    def __rsub__(self, o):
        return Q.of(o) + (-self)

    def __mul__(self, o):
        o = Q.of(o)
        c = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi]
        if max(map(abs, c)) >= LIM:
            raise OutOfRange()
        a, b = self.e, o.e
        if isinstance(a, int) and not isinstance(b, int):
            a = z3.BitVecVal(a, 64)
        if isinstance(b, int) and not isinstance(a, int):
            b = z3.BitVecVal(b, 64)
        return Q(a * b, self.d * o.d, min(c), max(c), self.err * max(abs(o.lo), abs(o.hi)) / o.d + o.err * max(abs(self.lo), abs(self.hi)) / self.d)
    __rmul__ = __mul__

    def __truediv__(self, k):
        k = Fraction(k)
        return self * Q(1 / k)

    def _cmp(self, o, f):
        a, b, d, _, _, _ = self._al(o)
        if isinstance(a, int) and isinstance(b, int):
            return z3.BoolVal(f(a, b))
        if isinstance(a, int):
            a = z3.BitVecVal(a, 64)
        if isinstance(b, int):
            b = z3.BitVecVal(b, 64)
        return f(a, b)

    # exact comparisons (signed)
    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def same(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def differs(self, o):
        return z3.Not(self.same(o))

    def near(self, o, tol=Fraction(2, 10 ** 8)):
        """equal up to tol and up to the error bounds of both sides"""
        t = Fraction(tol) + Fraction(self.err + Q.of(o).err)
        d = self - o
        n = math.floor(t * d.d)     # integers at scale d.d
        if isinstance(d.e, int):
            return z3.BoolVal(abs(d.e) <= n)
        if n == 0:
            return d.e == 0
        return z3.And(d.e <= n, d.e >= -n)

    def const(self):
        if isinstance(self.e, int):
            return Fraction(self.e, self.d)
        s = z3.simplify(self.e)
        if z3.is_bv_value(s):
            return Fraction(s.as_signed_long(), self.d)
        return None

    def __repr__(self):
        c = self.const()
        return str(c) if c is not None else 'sym[%s..%s]/%d' % (self.lo, self.hi, self.d)


def ite(c, a, b):
    a, b = Q.of(a), Q.of(b)
    if isinstance(c, bool):
        return a if c else b
    x, y, d, r, s, err = a._al(b)
    if isinstance(x, int):
        x = z3.BitVecVal(x, 64)
    if isinstance(y, int):
        y = z3.BitVecVal(y, 64)
    return Q(z3.If(c, x, y), d, min(r[0], s[0]), max(r[1], s[1]), max(a.err, b.err))


def qmin(a, b):
    return ite(Q.of(a) < b, a, b)


def qmax(a, b):
    return ite(Q.of(a) < b, b, a)


def qabs(a):
    return ite(Q.of(a) < 0, -Q.of(a), a)


def qsum(l):
    r = Q(0)
    for x in l:
        r = r + x
    return r


def solver(ms):
    s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'bit-blast', 'sat').solver()
    s.set('timeout', ms)
    return s


# ---------------------------------------------------------------- scenarios

class Var:
    """A symbolic choice among n indices. text: one string per index (may be None); vals: one number per index"""

    def __init__(self, name, n, text=None, vals=None):
        self.name, self.n, self.text, self.vals = name, n, text, vals

    def seg(self):
        return {'v': self.name, 't': self.text}

    def as_text(self, f):
        """a segment with a different rendering, f(index)"""
        return {'v': self.name, 't': [f(i) for i in range(self.n)]}


def intvar(name, lo, hi, width=None, scale=1, sign=False, fmt=None):
    """an amount lo/scale..hi/scale in steps of 1/scale; fixed-width text, so that the shape needs no forks"""
    vals = [Fraction(k, scale) for k in range(lo, hi + 1)]
    dec = len(str(scale)) - 1 if scale > 1 else 0

    def t(k):
        a = abs(k)
        w = width or len(str(max(abs(lo), abs(hi)) // scale))
        s = '%0*d' % (w, a // scale)
        if dec:
            s += '.%0*d' % (dec, a % scale)
        if lo < 0 or sign:
            s = ('-' if k < 0 else '0') + s
        return s
    return Var(name, hi - lo + 1, [fmt(k) if fmt else t(k) for k in range(lo, hi + 1)], vals)


def choice(name, texts, vals=None):
    return Var(name, len(texts), list(texts), vals)


def ts(d, secs=43200):
    return (d - EPOCH).days * 86400 + secs


class Sc:
    """One scenario: files with holes, a sequence of runs of silverfox, and the property as a function of a path."""

    def __init__(self, name, spec=None, seed=1, **opts):
        self.name, self.spec, self.seed, self.opts = name, spec, seed, opts
        self.vars, self.files, self.runs, self.dirs = {}, [], [], []
        self.data = {}

    def add(self, *vs):
        for v in vs:
            assert v.name not in self.vars or self.vars[v.name] is v, v.name
            self.vars[v.name] = v
        return vs[0] if len(vs) == 1 else vs

    def _segs(self, parts):
        out = []

        def go(p):
            if isinstance(p, (list, tuple)):
                for q in p:
                    go(q)
            elif isinstance(p, Var):
                self.add(p)
                go(p.seg())
            elif isinstance(p, dict):
                assert p['v'] in self.vars, p['v']
                out.append(p)
            elif p != '':
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
        go(parts)
        return out

    def file(self, path, *parts):
        self.files.append((path, self._segs(parts)))
        return self

    def run(self, *argv, clock=datetime.date(2020, 9, 13), tty=0, env=(), cwd='/w', faults=(), seed=None):
        """clock: a date, or a Var whose vals are dates (or unix times)"""
        tz = [('TZ', 'VRF0')]
        self.runs.append(dict(argv=[self._segs([a]) for a in ('silverfox',) + argv], clock=clock, tty=tty,
                              env=[(k, self._segs([v])) for k, v in list(env) + tz], cwd=cwd, faults=list(faults), seed=seed))
        if isinstance(clock, Var):
            self.add(clock)
        for f in faults:
            if isinstance(f.get('if'), tuple):
                self.add(f['if'][0])
        return self

    def clock_of(self, run, idx):
        c = run['clock']
        if isinstance(c, Var):
            c = c.vals[idx[c.name]]
        return ts(c) if isinstance(c, datetime.date) else c

    def seed_of(self, run):
        return run['seed'] if run['seed'] is not None else self.seed

    def json(self):
        def lat(segs):
            o = []
            for s in segs:
                if isinstance(s, str):
                    o.append(s.encode('utf-8').decode('latin-1'))
                else:
                    o.append({'v': s['v'], 't': [x.encode('utf-8').decode('latin-1') for x in s['t']]})
            return o
        runs = []
        for r in self.runs:
            c = r['clock']
            if isinstance(c, Var):
                ck = {'v': c.name, 't': [ts(x) if isinstance(x, datetime.date) else x for x in c.vals]}
            else:
                ck = ts(c) if isinstance(c, datetime.date) else c
            fs = []
            for f in r['faults']:
                f = dict(f)
                if isinstance(f.get('if'), tuple):
                    f['if'] = {'v': f['if'][0].name, 'is': f['if'][1]}
                fs.append(f)
            runs.append(dict(argv=[lat(a) for a in r['argv']], env=[[k, lat(v)] for k, v in r['env']], cwd=r['cwd'], clock=ck,
                             tty=r['tty'], faults=fs, seed=self.seed_of(r)))
        d = dict(name=self.name, vars=[dict(name=v.name, n=v.n) for v in self.vars.values()],
                 files=[dict(path=p, segs=lat(s)) for p, s in self.files], dirs=self.dirs, runs=runs, seed=self.seed)
        d.update(self.opts)
        return d

    def concrete(self, segs, idx):
        return ''.join(s if isinstance(s, str) else s['t'][idx[s['v']]] for s in segs)


# ---------------------------------------------------------------- a path, as the oracle sees it

PU = 0xE000
NUM = re.compile(r'-?(?:\d+(?:\.\d+)?|inf|NaN)')


def unl(s):
    return s.encode('latin-1').decode('utf-8', 'replace')


class Run:
    """out, err: text in which every symbolic stretch is one private-use character (see P.syms)"""

    def __init__(self, end, out, err, files):
        self.end, self.out, self.err, self.files = end, out, err, files

    @property
    def ok(self):
        return self.end.startswith('exit') and self.err == ''

    @property
    def crashed(self):
        return not self.end.startswith('exit')


class P:
    """One explored path (symbolic), or one run of the real binary (all variables fixed)."""

    def __init__(self, sc, idx=None, path=None, native=None, fix=None):
        self.sc = sc
        self.fix = fix or {}    # {variable: its indices} and {byte term: its value}, where a path is split into cases
        self.obl = []      # (condition that must hold, message)
        self.labels = set()
        self.syms = []
        self.toks = {}
        self.when = []
        self._eng = None
        self.tokb = {}
        if path is not None:
            self.idx = None
            self.dom = {k: [i for a, b in r for i in range(a, b + 1)] for k, r in path['dom'].items()}
            self.asserts = z3.parse_smt2_string(path['smt'])
            self.bv = {k: z3.BitVec(k, 16) for k in sc.vars}
            if self.fix:
                self.asserts = list(self.asserts)
                for k, f in self.fix.items():
                    if k in sc.vars:
                        self.asserts.append(self.among(sc.vars[k], f))
                        self.dom[k] = [i for i in self.dom[k] if i in f]
                    else:
                        self.asserts.append(z3.BitVec(k, 8) == f)
            for t in path['tokens']:
                p, q = Fraction(t['p']), Fraction(t['q'])
                k = p / q
                lo, hi = int(t['lo']), int(t['hi'])
                e = z3.BitVec(t['name'], 64)
                n = k.numerator
                self.tokb[t['name']] = (lo, hi)
                err = t['err'] if t['kind'] == 'err' else 0.0
                if t['kind'] == 'cr':
                    err = max(abs(lo), abs(hi)) * float(k) * 2 ** -52
                self.toks[t['marker']] = Q(e * z3.BitVecVal(n, 64) if n != 1 else e, k.denominator, lo * n, hi * n, err)
            self.runs = []
            for r in path['runs']:
                fl = {}
                for f, c in r['files'].items():
                    fl[f] = (c['same'], c['base'], self._flat(c['rest']))
                self.runs.append(Run(r['end'], self._flat(r['out']), self._flat(r['err']), fl))
        else:
            self.idx = idx
            self.dom = {k: [idx[k]] for k in sc.vars}
            self.asserts = []
            self.bv = {k: z3.BitVecVal(idx[k], 16) for k in sc.vars}
            self.runs = native

    def _flat(self, segs):
        o = ''
        for s in segs:
            if isinstance(s, str):
                o += s
            elif s.get('v') in self.fix:
                o += s['t'][self.dom[s['v']][0]]
            elif s.get('term') in self.fix:
                o += chr(self.fix[s['term']])
            else:
                o += chr(PU + len(self.syms))
                if 'v' in s:
                    self.syms.append((s['v'], [None if x is None else unl(x) for x in s['t']]))
                else:
                    self.syms.append((None, z3.BitVec(s['term'], 8)))
        try:
            return o.encode('latin-1').decode('utf-8', 'replace')
        except UnicodeEncodeError:
            # keep the private-use characters, decode the stretches between them
            r, cur = '', b''
            for c in o:
                if ord(c) >= PU:
                    r += cur.decode('utf-8', 'replace') + c
                    cur = b''
                else:
                    cur += c.encode('latin-1')
            return r + cur.decode('utf-8', 'replace')

    # ---- values

    def vals(self, var):
        return self.dom[var.name]

    def num(self, var, table=None):
        """the number that a variable stands for on this path"""
        t = table if table is not None else var.vals
        dom = self.dom[var.name]
        fr = {i: Fraction(t[i]) for i in dom}
        d = 1
        for f in fr.values():
            d = d * f.denominator // math.gcd(d, f.denominator)
        n = {i: int(f * d) for i, f in fr.items()}
        lo, hi = min(n.values()), max(n.values())
        if lo == hi:
            return Q(lo, d)
        b = z3.ZeroExt(48, self.bv[var.name])
        # affine in the index over the domain?
        step = None
        if len(dom) > 1:
            i0, i1 = dom[0], dom[1]
            if (n[i1] - n[i0]) % (i1 - i0) == 0:
                step = (n[i1] - n[i0]) // (i1 - i0)
                if any(n[i] != n[i0] + step * (i - i0) for i in dom):
                    step = None
        if step is not None:
            e = b * z3.BitVecVal(step, 64) + z3.BitVecVal(n[dom[0]] - step * dom[0], 64)
        else:
            # runs that are affine
            groups = []
            for i in dom:
                if len(groups) and len(groups[-1]) >= 2:
                    g = groups[-1]
                    s = Fraction(n[g[1]] - n[g[0]], g[1] - g[0])
                    if s.denominator == 1 and n[i] == n[g[0]] + s * (i - g[0]):
                        g.append(i)
                        continue
                    groups.append([i])
                elif len(groups) and (n[i] - n[groups[-1][0]]) % (i - groups[-1][0]) == 0:
                    groups[-1].append(i)
                else:
                    groups.append([i])
            e = None
            for g in reversed(groups):
                if len(g) == 1:
                    x = z3.BitVecVal(n[g[0]], 64)
                else:
                    s = (n[g[1]] - n[g[0]]) // (g[1] - g[0])
                    x = b * z3.BitVecVal(s, 64) + z3.BitVecVal(n[g[0]] - s * g[0], 64)
                e = x if e is None else z3.If(z3.ULE(self.bv[var.name], g[-1]), x, e)
        return Q(e, d, lo, hi)

    def is_(self, var, i):
        if i not in self.dom[var.name]:
            return z3.BoolVal(False)
        if len(self.dom[var.name]) == 1:
            return z3.BoolVal(True)
        return self.bv[var.name] == i

    def among(self, var, idxs):
        idxs = [i for i in idxs if i in set(self.dom[var.name])]
        if len(idxs) == len(self.dom[var.name]):
            return z3.BoolVal(True)
        if not idxs:
            return z3.BoolVal(False)
        rs, st = [], None
        for i in sorted(idxs):
            if st is not None and i == rs[-1][1] + 1:
                rs[-1][1] = i
            else:
                rs.append([i, i])
                st = 1
        b = self.bv[var.name]
        return z3.Or([z3.And(z3.UGE(b, a), z3.ULE(b, c)) if a != c else b == a for a, c in rs])

    def number(self, s):
        """the number written as s in an output (a marker stands for a symbolic value)"""
        neg = s.startswith('-')
        t = s[1:] if neg else s
        if t in self.toks:
            q = self.toks[t]
        elif re.fullmatch(r'\d+(\.\d+)?', t):
            q = Q(Fraction(t))
        else:
            return None
        return -q if neg else q

    def split(self):
        """the cases of a path whose outputs have symbolic text: the first such stretch takes each of its values"""
        if not self.syms:
            return []
        v, t = self.syms[0]
        if v is None:
            vals, s = [], z3.Solver()
            s.add(list(self.asserts))
            while len(vals) < 40 and s.check() == z3.sat:
                vals.append(s.model().eval(t, model_completion=True).as_long())
                s.add(t != vals[-1])
            if len(vals) == 40:
                return []
            return [dict(self.fix, **{t.decl().name(): x}) for x in vals]
        groups = {}
        for i in self.dom[v]:
            groups.setdefault(tuple(x[1][i] for x in self.syms if x[0] == v), []).append(i)
        return [dict(self.fix, **{v: g}) for g in groups.values()]

    # ---- text with symbolic stretches

    def parts(self, text):
        return [self.syms[ord(c) - PU] if PU <= ord(c) < PU + len(self.syms) else c for c in text]

    def has_sym(self, text):
        return any(PU <= ord(c) < PU + len(self.syms) for c in text)

    def text_is(self, text, var, expected):
        """condition: the text equals expected[index of var]; var None: a plain string"""
        ps = self.parts(text)
        vs = {p[0] for p in ps if not isinstance(p, str)}
        if None in vs:
            return self._bytes_are(ps, var, expected)
        if var is not None:
            vs.add(var.name)
        if not vs:
            return z3.BoolVal(text == expected)
        if len(vs) == 1:
            v = self.sc.vars[next(iter(vs))]
            good = []
            for i in self.dom[v.name]:
                got = ''.join(p if isinstance(p, str) else p[1][i] for p in ps)
                if got == (expected if var is None else expected[i]):
                    good.append(i)
            return self.among(v, good)
        # two or more variables: split over the expected one
        conds = []
        for i in self.dom[var.name]:
            conds.append(z3.Implies(self.is_(var, i), self._pieces(ps, expected[i], {var.name: i})))
        return z3.And(conds)

    def _pieces(self, ps, want, fixed):
        pos, cond = 0, []
        for p in ps:
            if isinstance(p, str):
                if want[pos:pos + len(p)] != p:
                    return z3.BoolVal(False)
                pos += len(p)
            else:
                v = self.sc.vars[p[0]]
                if v.name in fixed:
                    s = p[1][fixed[v.name]]
                    if want[pos:pos + len(s)] != s:
                        return z3.BoolVal(False)
                    pos += len(s)
                else:
                    n = len(p[1][self.dom[v.name][0]])
                    cond.append(self.among(v, [i for i in self.dom[v.name] if p[1][i] == want[pos:pos + n]]))
                    pos += n
        if pos != len(want):
            return z3.BoolVal(False)
        return z3.And(cond) if cond else z3.BoolVal(True)

    def _bytes_are(self, ps, var, expected):
        def one(want, fixed):
            w = want.encode('utf-8')
            pos, cond = 0, []
            for p in ps:
                if isinstance(p, str):
                    b = p.encode('utf-8')
                    if w[pos:pos + len(b)] != b:
                        return z3.BoolVal(False)
                    pos += len(b)
                elif p[0] is None:
                    if pos >= len(w):
                        return z3.BoolVal(False)
                    cond.append(p[1] == w[pos])
                    pos += 1
                else:
                    v = self.sc.vars[p[0]]
                    if v.name in fixed:
                        b = p[1][fixed[v.name]].encode('utf-8')
                        if w[pos:pos + len(b)] != b:
                            return z3.BoolVal(False)
                        pos += len(b)
                    else:
                        n = len(p[1][self.dom[v.name][0]].encode('utf-8'))
                        cond.append(self.among(v, [i for i in self.dom[v.name] if p[1][i].encode('utf-8') == w[pos:pos + n]]))
                        pos += n
            if pos != len(w):
                return z3.BoolVal(False)
            return z3.And(cond) if cond else z3.BoolVal(True)
        if var is None:
            return one(expected, {})
        return z3.And([z3.Implies(self.is_(var, i), one(expected[i], {var.name: i})) for i in self.dom[var.name]])

    # ---- obligations

    def must(self, cond, msg):
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        if self.when:
            cond = z3.Implies(z3.And(self.when), cond)
        self.obl.append((cond, msg))

    def possible(self, *conds):
        """can these conditions hold together on this path? (solver query)"""
        c = z3.simplify(z3.And(*conds, *self.when)) if conds or self.when else z3.BoolVal(True)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.eng().sat([c], 20000) != 'unsat'

    def eng(self):
        if self._eng is None:
            from .lia import Engine
            self.doms = {k: set(v) for k, v in self.dom.items()}
            self._eng = Engine(self)
        return self._eng

    def given(self, *conds):
        return Given(self, conds)

    def reach(self, label):
        self.labels.add(label)


class Given:
    def __init__(self, p, conds):
        self.p, self.conds = p, list(conds)

    def __enter__(self):
        self.p.when += self.conds

    def __exit__(self, *a):
        del self.p.when[len(self.p.when) - len(self.conds):]
