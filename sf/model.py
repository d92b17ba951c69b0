"""What a journal means: an independent reading of silverfox's documentation, over symbolic amounts and dates."""
import calendar, datetime
import z3
from fractions import Fraction
from .core import Q, Var, ite, qmin, qmax, qabs, qsum, choice

D = datetime.date
DAY = datetime.timedelta(days=1)


# ---------------------------------------------------------------- journal text and meaning together

class Date:
    """a date, fixed or depending on one variable (vals: one date per index)"""

    def __init__(self, var=None, vals=None, fixed=None):
        self.var, self.vals, self.fixed = var, vals, fixed

    @staticmethod
    def of(x):
        if isinstance(x, Date):
            return x
        if isinstance(x, D):
            return Date(fixed=x)
        if isinstance(x, Var):
            return Date(var=x, vals=x.vals)
        raise TypeError(x)

    def at(self, i):
        return self.fixed if self.var is None else self.vals[i]


def datevar(name, dates, fmt='%Y/%m/%d'):
    return Var(name, len(dates), [d.strftime(fmt) if d.year >= 1000 else '%04d' % d.year + d.strftime(fmt.replace('%Y', '')) for d in dates], list(dates))


def dayrange(name, first, n, fmt='%Y/%m/%d'):
    return datevar(name, [first + DAY * i for i in range(n)], fmt)


def where(p, f, *ds):
    """condition: f(*dates) holds, over dates that may be symbolic (at most two different variables)"""
    ds = [Date.of(d) for d in ds]
    vs = []
    for d in ds:
        if d.var is not None and d.var not in vs:
            vs.append(d.var)
    if not vs:
        return z3.BoolVal(bool(f(*[d.fixed for d in ds])))
    if len(vs) == 1:
        v = vs[0]
        return p.among(v, [i for i in p.vals(v) if f(*[d.at(i) for d in ds])])
    a, b = vs
    out = []
    groups = {}
    for i in p.vals(a):
        g = tuple(j for j in p.vals(b) if f(*[d.at(i if d.var is a else j) for d in ds]))
        groups.setdefault(g, []).append(i)
    for g, l in groups.items():
        out.append(z3.And(p.among(a, l), p.among(b, g)))
    return z3.Or(out) if out else z3.BoolVal(False)


class A:
    """an amount in a journal: text parts, number (function of the path), currency"""

    def __init__(self, parts, val, sym=''):
        self.parts, self.val, self.sym = parts, val, sym

    def q(self, p):
        v = self.val
        return v(p) if callable(v) else Q.of(v)


def amt(v, sym='', style=None, neg=False):
    """v: a Var or a number; neg writes a minus sign in front"""
    if isinstance(v, Var):
        body, val = v, (lambda p: -p.num(v)) if neg else (lambda p: p.num(v))
    else:
        f = Fraction(v)
        neg = neg != (f < 0)
        f = abs(f)
        s = str(f.numerator) if f.denominator == 1 else ('%.8f' % float(f)).rstrip('0')
        body, val = s, -f if neg else f
    m = '-' if neg else ''
    if not sym:
        parts = [m, body]
    elif style == 'pre' or (style is None and len(sym) <= 2):
        parts = [sym, m, body]
    elif style == 'mpre':
        parts = [m, sym, body]
    elif style == 'tight':
        parts = [m, body, sym]
    else:
        parts = [m, body, ' ', sym]
    return A(parts, val, sym)


class Post:
    def __init__(self, account, a=None, env=None, cost=None, total=None, assertion=None):
        self.account, self.a, self.env, self.cost, self.total, self.assertion = account, a, env, cost, total, assertion

    def text(self):
        o = ['    ', 'envelope ' if self.env else '', self.account]
        if self.env:
            o += [' ', self.env]
        if self.a is not None:
            o += ['  ', self.a.parts]
        for k, x in (('@', self.cost), ('=', self.total), ('!', self.assertion)):
            if x is not None:
                o += [' ', k, ' ', x.parts]
        return o + ['\n']

    def worth(self, p):
        """native worth, or None"""
        if self.a is None:
            return None
        if self.a.sym == '':
            return self.a.q(p)
        if self.cost is not None and self.cost.sym == '':
            return self.a.q(p) * self.cost.q(p)
        if self.total is not None and self.total.sym == '':
            return self.total.q(p)
        return None


class Entry:
    def __init__(self, date, posts, status='*', desc='x', payee=None, comment=None):
        self.date, self.posts, self.status, self.desc, self.payee, self.comment = Date.of(date), posts, status, desc, payee, comment

    def text(self, fmt='%Y/%m/%d'):
        d = self.date.var if self.date.var is not None else self.date.fixed.strftime(fmt)
        o = [d, ' ', self.status, ' ', self.desc]
        if self.payee:
            o += [' [', self.payee, ']']
        if self.comment:
            o += [' ', self.comment]
        return o + ['\n', [q.text() for q in self.posts]]

    def classic(self):
        return [q for q in self.posts if not q.env]

    def resolved(self, p):
        """[(posting, symbol, number, native worth or None)] of the ordinary postings, blank filled in"""
        cl = self.classic()
        known = [q for q in cl if q.a is not None]
        syms = {q.a.sym for q in known}
        out = []
        for q in cl:
            if q.a is not None:
                out.append((q, q.a.sym, q.a.q(p), q.worth(p)))
            elif len(syms) <= 1:
                s = next(iter(syms), '')
                n = -qsum([k.a.q(p) for k in known])
                out.append((q, s, n, n if s == '' else None))
            else:
                n = -qsum([k.worth(p) for k in known])
                out.append((q, '', n, n))
        return out


class Env:
    """an envelope: due = ('never',) ('once', date) ('week', weekday) ('2week', start) ('month', day) ('2month', start) ('year', start)"""

    def __init__(self, name, target, due, due_text, kind='expense', funding=None, for_=(), start=None, order='afu'):
        self.order = order  # of the lines: amount, for, funding
        self.name, self.target, self.due, self.due_text, self.kind, self.funding, self.for_, self.start = name, target, due, due_text, kind, funding, list(for_), start

    def text(self, ind='    '):
        o = [ind, self.kind, ' ', self.name, ' ', self.due_text, '\n']
        for k in self.order:
            if k == 'a':
                o += [ind * 2, 'amount ', self.target.parts, '\n']
            elif k == 'f':
                for f in self.for_:
                    o += [ind * 2, 'for ', f, '\n']
            elif self.funding:
                o += [ind * 2, 'funding ', self.funding, '\n']
        return o


class Journal:
    def __init__(self):
        self.items = []       # text parts in order
        self.accounts = {}    # name -> [Env]
        self.entries = []
        self.fmt = '%Y/%m/%d'
        self.native = ''

    def account(self, name, *envs):
        self.accounts[name] = list(envs)
        self.items.append(['account ', name, '\n', [e.text() for e in envs]])
        return self

    def raw(self, *parts):
        self.items.append(list(parts))
        return self

    def entry(self, date, *posts, **k):
        e = Entry(date, list(posts), **k)
        self.entries.append(e)
        self.items.append(e.text(self.fmt))
        return e

    def text(self):
        return self.items


# ---------------------------------------------------------------- sums

def balances(p, entries):
    """{account: {sym: Q}}"""
    r = {}
    for e in entries:
        for q, s, n, _ in e.resolved(p):
            a = r.setdefault(q.account, {})
            a[s] = a[s] + n if s in a else n
    return r


# ---------------------------------------------------------------- due dates

def clamp(y, m, d):
    while m > 12:
        y, m = y + 1, m - 12
    while m < 1:
        y, m = y - 1, m + 12
    n = calendar.monthrange(y, m)[1]
    return D(y, m, min(d, n))


def scheduled_after(due, today):
    """first scheduled day strictly after today, or None"""
    k = due[0]
    if k == 'never':
        return None
    if k == 'once':
        return due[1] if due[1] > today else None
    if k == 'week':
        n = today + DAY
        while n.weekday() != due[1]:
            n += DAY
        return n
    if k == '2week':
        n = due[1]
        if n <= today:
            n += DAY * (14 * ((today - n).days // 14 + 1))
        return n
    if k == 'month':
        n = clamp(today.year, today.month, due[1])
        return n if n > today else clamp(today.year, today.month + 1, due[1])
    s = due[1]
    step = 2 if k == '2month' else 12
    if s > today:
        return s
    i = ((today.year - s.year) * 12 + today.month - s.month) // step
    for j in (i, i + 1, i + 2):
        n = clamp(s.year, s.month + step * j, s.day)
        if n > today and j >= 0:
            return n
    assert False


def next_due(env, today):
    n = scheduled_after(env.due, today)
    if n is not None and env.start is not None:
        n = max(n, env.start)
    return n


def last_due(env, today):
    """the most recent due date: the scheduled day preceding the next one"""
    k = env.due[0]
    n = scheduled_after(env.due, today)
    if k == 'never':
        return None
    if k == 'once':
        return None if n is not None else env.due[1]
    if k == 'week':
        return n - DAY * 7
    if k == '2week':
        return n - DAY * 14
    if k == 'month':
        return clamp(n.year, n.month - 1, env.due[1])
    s = env.due[1]
    return clamp(n.year, n.month - (2 if k == '2month' else 12), s.day)


# ---------------------------------------------------------------- envelopes

class State:
    """contents of one envelope"""

    def __init__(self):
        self.now, self.next = Q(0), Q(0)
        self.today = z3.BoolVal(False)   # touched today


def contents(p, j, today, entries=None):
    """{(account, envelope): State}; today: Date"""
    today = Date.of(today)
    st = {(a, e.name): State() for a, es in j.accounts.items() for e in es}
    for en in (entries if entries is not None else j.entries):
        manual = [q for q in en.posts if q.env]
        for acct, es in j.accounts.items():
            for e in es:
                s = st[(acct, e.name)]
                if manual:
                    for q in manual:
                        if q.account == acct and q.env == e.name:
                            apply(p, s, e, q.a.q(p), en.date, today)
                else:
                    rs = en.resolved(p)
                    own = [r for r in rs if r[0].account == acct]
                    oth = [r for r in rs if r[0].account in e.for_ and r[0].account != acct]
                    if not own or not oth:
                        continue
                    val = (lambda r: r[2]) if e.target.sym else (lambda r: r[3])
                    so, sa = qsum([val(r) for r in own]), qsum([val(r) for r in oth])
                    m = qmin(qabs(so), qabs(sa))
                    apply(p, s, e, ite(so < 0, -m, m), en.date, today)
    return st


def apply(p, s, e, n, date, today):
    before = where(p, lambda d, t: last_due(e, t) is not None and d < last_due(e, t), date, today)
    s.now = s.now + ite(z3.Or(n < 0, before), n, 0)
    s.next = s.next + ite(z3.Or(n < 0, before), 0, n)
    s.today = z3.Or(s.today, z3.And(where(p, lambda d, t: d == t, date, today), z3.Not(n.same(0))))


def shown(s):
    """(now, next) as displayed"""
    return qmax(s.now, 0), s.next + qmin(s.now, 0)


def available(p, j, acct, st, entries=None):
    r = dict(balances(p, entries if entries is not None else j.entries).get(acct, {}))
    for e in j.accounts[acct]:
        s = st[(acct, e.name)]
        r[e.target.sym] = r.get(e.target.sym, Q(0)) - s.now - s.next
    return r
