"""Bit-vector terms that provably do not wrap around, as integer terms: sums then cancel instead of being bit-blasted.
64-bit terms are read as signed, narrower ones as unsigned; every step keeps exact bounds and gives up (Cannot) when
the bit-vector operation could differ from the integer one."""
import z3


class Cannot(Exception):
    pass


K = z3


class Tr:
    def __init__(self, bounds):
        self.bounds = bounds        # name -> (lo, hi)
        self.vars = {}
        self.memo = {}
        self.keep = []

    def var(self, name):
        if name not in self.vars:
            self.vars[name] = z3.Int('i!' + name)
        return self.vars[name]

    def limits(self):
        out = []
        for n, v in self.vars.items():
            lo, hi = self.bounds[n]
            out += [v >= lo, v <= hi]
        return out

    def bool(self, e):
        k = ('b', e.get_id())
        if k in self.memo:
            return self.memo[k]
        r = self._bool(e)
        self.memo[k] = r
        self.keep.append(e)
        return r

    def _bool(self, e):
        if z3.is_true(e) or z3.is_false(e):
            return e
        if not z3.is_app(e):
            raise Cannot()
        k = e.decl().kind()
        c = e.children()
        if k == z3.Z3_OP_AND:
            return z3.And([self.bool(x) for x in c])
        if k == z3.Z3_OP_OR:
            return z3.Or([self.bool(x) for x in c])
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.bool(c[0]))
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.bool(c[0]), self.bool(c[1]))
        if k == z3.Z3_OP_XOR:
            return z3.Xor(self.bool(c[0]), self.bool(c[1]))
        if k == z3.Z3_OP_ITE:
            return z3.If(self.bool(c[0]), self.bool(c[1]), self.bool(c[2]))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            if len(c) != 2:
                raise Cannot()
            if z3.is_bool(c[0]):
                r = self.bool(c[0]) == self.bool(c[1])
            else:
                a, b = self.num(c[0]), self.num(c[1])
                if a[2] < b[1] or b[2] < a[1]:
                    r = z3.BoolVal(False)
                else:
                    r = a[0] == b[0] if not (isinstance(a[0], int) and isinstance(b[0], int)) else z3.BoolVal(a[0] == b[0])
            return r if k == z3.Z3_OP_EQ else z3.Not(r)
        cmp = {z3.Z3_OP_ULT: ('u', 0), z3.Z3_OP_ULEQ: ('u', 1), z3.Z3_OP_UGT: ('u', 2), z3.Z3_OP_UGEQ: ('u', 3),
               z3.Z3_OP_SLT: ('s', 0), z3.Z3_OP_SLEQ: ('s', 1), z3.Z3_OP_SGT: ('s', 2), z3.Z3_OP_SGEQ: ('s', 3)}
        if k in cmp:
            sg, op = cmp[k]
            w = c[0].size()
            a, b = self.num(c[0]), self.num(c[1])
            if sg == 'u' and w == 64 and (a[1] < 0 or b[1] < 0):
                raise Cannot()
            if sg == 's' and w < 64 and (a[2] >= 1 << (w - 1) or b[2] >= 1 << (w - 1)):
                raise Cannot()
            if op >= 2:
                a, b, op = b, a, op - 2
            if op == 0:
                if a[2] < b[1]:
                    return z3.BoolVal(True)
                if a[1] >= b[2]:
                    return z3.BoolVal(False)
                return a[0] < b[0]
            if a[2] <= b[1]:
                return z3.BoolVal(True)
            if a[1] > b[2]:
                return z3.BoolVal(False)
            return a[0] <= b[0]
        raise Cannot()

    def num(self, e):
        k = ('n', e.get_id())
        if k in self.memo:
            return self.memo[k]
        r = self._num(e)
        w = e.size()
        lo, hi = (-(1 << 63), (1 << 63) - 1) if w == 64 else (0, (1 << w) - 1)
        if w > 64 or r[1] < lo or r[2] > hi:
            raise Cannot()
        self.memo[k] = r
        self.keep.append(e)
        return r

    def _num(self, e):
        if z3.is_bv_value(e):
            v = e.as_signed_long() if e.size() == 64 else e.as_long()
            return v, v, v
        if not z3.is_app(e):
            raise Cannot()
        k = e.decl().kind()
        c = e.children()
        if k == z3.Z3_OP_UNINTERPRETED and not c:
            n = e.decl().name()
            if n not in self.bounds:
                raise Cannot()
            lo, hi = self.bounds[n]
            if lo == hi:
                return lo, lo, hi
            return self.var(n), lo, hi
        if k == z3.Z3_OP_BADD:
            a = [self.num(x) for x in c]
            t = a[0][0]
            for x in a[1:]:
                t = t + x[0]
            return t, sum(x[1] for x in a), sum(x[2] for x in a)
        if k == z3.Z3_OP_BSUB:
            a, b = self.num(c[0]), self.num(c[1])
            return a[0] - b[0], a[1] - b[2], a[2] - b[1]
        if k == z3.Z3_OP_BNEG:
            a = self.num(c[0])
            return -a[0], -a[2], -a[1]
        if k == z3.Z3_OP_BMUL:
            r = self.num(c[0])
            for x in c[1:]:
                y = self.num(x)
                ps = [r[1] * y[1], r[1] * y[2], r[2] * y[1], r[2] * y[2]]
                if not (isinstance(r[0], int) or isinstance(y[0], int)):
                    raise Cannot()      # products of variables stay with the bit-vector solver
                r = r[0] * y[0], min(ps), max(ps)
            return r
        if k == z3.Z3_OP_ITE:
            b = self.bool(c[0])
            if z3.is_true(b):
                return self.num(c[1])
            if z3.is_false(b):
                return self.num(c[2])
            x, y = self.num(c[1]), self.num(c[2])
            return z3.If(b, x[0], y[0]) if not (isinstance(x[0], int) and isinstance(y[0], int)) else z3.If(b, z3.IntVal(x[0]), z3.IntVal(y[0])), min(x[1], y[1]), max(x[2], y[2])
        if k == z3.Z3_OP_ZERO_EXT:
            return self.num(c[0])
        if k == z3.Z3_OP_CONCAT and len(c) == 2 and z3.is_bv_value(c[0]) and c[0].as_long() == 0:
            return self.num(c[1])
        if k == z3.Z3_OP_SIGN_EXT:
            a = self.num(c[0])
            if c[0].size() < 64 and a[2] >= 1 << (c[0].size() - 1):
                raise Cannot()
            return a
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = e.params()
            a = self.num(c[0])
            if lo == 0 and a[1] >= 0 and a[2] < 1 << (hi + 1):
                return a
            raise Cannot()
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I):
            a, b = self.num(c[0]), self.num(c[1])
            if not isinstance(b[0], int) or b[0] <= 0 or a[1] < 0:
                raise Cannot()
            if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I) and c[0].size() < 64 and a[2] >= 1 << (c[0].size() - 1):
                raise Cannot()
            if isinstance(a[0], int):
                v = a[0] // b[0] if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I) else a[0] % b[0]
                return v, v, v
            if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I):
                return a[0] / b[0], a[1] // b[0], a[2] // b[0]
            return a[0] % b[0], 0, b[0] - 1
        raise Cannot()


class Engine:
    """satisfiability under a path's constraints; stats: how many queries went where"""

    def __init__(self, p):
        self.p = p
        b = {k: (min(d), max(d)) for k, d in p.dom.items()}
        for n, (lo, hi) in p.tokb.items():
            b[n] = (lo, hi)
        self.tr = Tr(b)
        self.base, self.dropped = [], 0
        for a in p.asserts:
            try:
                self.base.append(self.tr.bool(a))
            except Cannot:
                self.dropped += 1
        self.queries = {'lia': 0, 'bv': 0}

    def sat(self, conds, ms=60000, want_model=False):
        """-> 'unsat', 'unknown', or a model {var: index}"""
        p = self.p
        try:
            cs = [self.tr.bool(c) for c in conds]
            s = z3.SolverFor('QF_LIA')
            s.set('timeout', ms // 4)
            s.add(self.base)
            s.add(self.tr.limits())
            s.add(cs)
            r = s.check()
            self.queries['lia'] += 1
            if r == z3.unsat:
                return 'unsat'
            if r == z3.sat and not self.dropped:
                if not want_model:
                    return {}
                m = s.model()
                out = {}
                for k in p.sc.vars:
                    lo, hi = self.tr.bounds[k]
                    out[k] = m.eval(self.tr.vars[k], model_completion=True).as_long() if k in self.tr.vars else p.dom[k][0]
                # variables with holes in their domain
                if all(out[k] in p.doms[k] for k in out):
                    return out
        except Cannot:
            pass
        from .core import solver
        s = solver(ms)
        s.add(list(p.asserts))
        s.add(conds)
        r = s.check()
        self.queries['bv'] += 1
        if r == z3.unsat:
            return 'unsat'
        if r == z3.unknown:
            return 'unknown'
        m = s.model()
        return {k: m.eval(p.bv[k], model_completion=True).as_long() for k in p.sc.vars}
