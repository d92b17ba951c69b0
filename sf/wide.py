"""Journals of many shapes: names, currencies, kinds of entries, envelopes and their order vary from one to the next
(the shape is fixed by a number), the amounts and some dates stay symbolic."""
import random
from .common import *

NAMES = ['assets', 'assets:bank', 'assets:bank:two', 'assets:b', 'asset', 'food', 'food:out', 'Food', 'foo', 'income', 'equity', 'expenses:caf\u00e9', 'liabilities:card',
         'expenses:' + 'long' * 12, '\u65e5\u672c', 'x-1', 'b_2', 'envelopes', 'account2', 'z', 'assets:' + 'w' * 30, 'unknown', "o'b", 'a.b', 'q%1']
SYMS = ['$', 'EUR', '\u20ac', 'BTC', 'kr', 'z\u0142', 'US$', 'points', 'eur', 'E', 'EURO']
ENVS = ['x', 'xx', 'food', 'rent', 'X', 'a-b', '\u00fc', 'by_car', 'long_' * 11 + 'n', 'x:y', '7']
DUES = [
    (('month', 1), 'due every 1st'), (('month', 31), 'due every 31st'), (('month', 15), 'due every 15th'), (('month', 13), 'due every 13th'), (('month', 14), 'due by every 14th'),
    (('week', 2), 'due every wednesday'), (('week', 6), 'due every sunday'), (('week', 0), 'due every mon'),
    (('2week', D(2020, 1, 3)), 'due every other friday starting 2020/01/03'), (('2week', D(2020, 9, 20)), 'due every other sunday starting 2020/09/20'),
    (('2month', D(2019, 12, 31)), 'due every other 31st starting 2019/12/31'), (('2month', D(2020, 5, 10)), 'due every other 10th starting 2020/05/10'),
    (('year', D(2020, 2, 29)), 'due every year starting 2020/02/29'), (('year', D(2019, 9, 14)), 'due every year starting 2019/09/14'),
    (('once', D(2020, 9, 1)), 'by 2020/09/01'), (('once', D(2020, 12, 24)), 'due 2020/12/24'), (('once', D(2021, 3, 1)), 'due by 2021/03/01'), (('never',), 'no date'),
]
HUGE = F(1000000)


class Wide:
    def __init__(self, k, envs=0, funding=False, kinds=None, entries=(2, 5), syms=2, budget=3, reg=False, native=True, small=False):
        r = self.r = random.Random('wide%d' % k)
        self.k, self.n, self.budget, self.small = k, 0, budget, small
        self.j = j = Journal()
        self.sym = [''] + r.sample(SYMS, syms)
        self.native = r.choice(['$', 'EUR', 'NOK', '\u20ac', 'c']) if native and r.random() < .35 else None
        if self.native:
            self.sym = [s for s in self.sym if s != self.native]
            j.raw('currency ', self.native, '\n')
        names = r.sample(NAMES, r.randint(4, 7))
        if reg or r.random() < .6:
            names[0] = r.choice(['assets', 'assets:bank', 'asset', 'assets:b'])
            names = list(dict.fromkeys(names))
        self.names = names
        self.home = []
        envnames = r.sample(ENVS, 5)
        for i, a in enumerate(names):
            es = []
            if envs and (i == 0 or (envs > 2 and r.random() < .3)):
                for q in range(r.randint(1, envs)):
                    due, txt = r.choice(DUES)
                    if funding and due[0] in ('never',) and r.random() < .7:
                        due, txt = DUES[r.randrange(14)]
                    s = r.choice(self.sym) if r.random() < .4 else ''
                    t = HUGE if not funding else F(r.choice([10, 40, 100, 250, F(15, 2)]))
                    fund = r.choice([None, 'manual', 'aggressive', 'aggressive', 'conservative', 'conservative']) if funding else None
                    # in any account the same names, at most once each
                    f = [x for x in r.sample(names, 2) if x != a] if r.random() < .6 else []
                    es.append(Env(envnames[q], self.write(t, s), due, txt, kind=r.choice(['expense', 'goal']), funding=fund, for_=f, order=['afu', 'fua', 'uaf', 'fau', 'ufa', 'auf'][(len(txt) + i + q) % 6]))
                self.home.append(a)
            j.account(a, *es)
            if r.random() < .2:
                j.raw(r.choice(['; a comment\n', '\n', '// account nothing\n', '\n\n', ';;\n']))
        kinds = kinds or ['pair', 'blank', 'blank', 'conv', 'free', 'zero', 'three', 'lone', 'same'] + (['move', 'move', 'mixmove', 'spend', 'spend'] if envs else [])
        for i in range(r.randint(*entries)):
            for _ in range(50):
                b = self.budget
                n = self.n
                ps = self.posts(r.choice(kinds))
                e = Entry(self.date(), ps, status=r.choice('*~?'), desc='e%d%s' % (i, r.choice(['', ' some words', ' \u00e9t\u00e9', ' -5 EUR', ' envelope x'])), payee=r.choice([None, None, 'me', 'a shop']))
                if self.clear(e):
                    break
                self.budget, self.n = b, n
            else:
                continue
            j.entries.append(e)
            j.items.append(e.text())
            if r.random() < .15:
                j.raw(r.choice(['\n', '; 2020/01/01 * no\n', '   \n', '// x\n']))

    def write(self, v, s, neg=False):
        """an amount, in one of the ways to spell it"""
        r = self.r
        if s == '':
            if self.native and r.random() < .5:
                a = amt(v, self.native, neg=neg, style=r.choice([None, 'pre', 'post', 'tight']))
                return A(a.parts, a.val, '')
            return amt(v, '', neg=neg)
        return amt(v, s, neg=neg, style=r.choice([None, None, 'pre', 'post', 'tight'] + (['mpre'] if neg else [])))

    def value(self, signed=True):
        r = self.r
        if self.budget > 0 and r.random() < .65:
            self.budget -= 1
            self.n += 1
            nm = 'v%d' % self.n
            q = r.random()
            m = 12 if self.small else 40
            if q < .45:
                return intvar(nm, -m if signed and r.random() < .6 else 1, m)
            if q < .8:
                return intvar(nm, -m if signed and r.random() < .3 else 0, 4 * m, scale=100)
            if q < .9:
                return intvar(nm, 0, 3, scale=1)
            return intvar(nm, 1, m, scale=100000000)
        return F(r.choice(['1', '7', '12.5', '0.01', '1000', '99999.99', '0.1', '33.33333333', '5', '250', '0.00000001', '18']))

    def date(self):
        r = self.r
        if self.budget > 0 and r.random() < .12:
            self.budget -= 1
            self.n += 1
            return datevar('d%d' % self.n, [NOW + DAY * x for x in r.choice([(-40, -13, -1, 0, 1), (-12, 0, 30), (-400, -20, -2, 2)])])
        return r.choice([NOW, NOW - DAY, NOW + DAY, D(2020, 9, 1), D(2020, 8, 31), D(2020, 8, 1), D(2020, 2, 29), D(2019, 12, 31), D(2021, 1, 1), D(2020, 9, 4), D(2018, 5, 5)])

    def acct(self, n):
        return [self.r.choice(self.names) for _ in range(n)] if self.r.random() < .25 else self.r.sample(self.names, n)

    def envpost(self):
        a = self.r.choice(self.home)
        e = self.r.choice(self.j.accounts[a])
        v = self.value()
        return Post(a, self.write(v, e.target.sym, neg=not isinstance(v, Var) and self.r.random() < .3), env=e.name)

    def posts(self, kind):
        r = self.r
        s = r.choice(self.sym) if r.random() < .7 else ''
        if kind == 'pair':
            v = self.value(False)
            a, b = self.acct(2)
            l = [Post(a, self.write(v, s)), Post(b, self.write(v, s, neg=True))]
        elif kind == 'three':
            a, b, c = self.acct(3)
            l = [Post(a, self.write(F(5), s)), Post(b, self.write(F(15, 2), s)), Post(c, self.write(F(25, 2), s, neg=True))]
        elif kind == 'same':
            a, b = self.acct(2)
            v, w = self.value(), self.value()
            l = [Post(a, self.write(v, s)), Post(a, self.write(w, s)), Post(b)]
        elif kind == 'blank':
            n = r.choice([1, 1, 2, 3])
            l = [Post(a, self.write(self.value(), s, neg=False)) for a in self.acct(n)] + [Post(self.acct(1)[0])]
        elif kind == 'conv':
            f = r.choice([x for x in self.sym if x] or ['XYZ'])
            a, b, c = self.acct(3)
            v = self.value(False)
            if r.random() < .5:
                l = [Post(a, self.write(v, f, neg=r.random() < .4), cost=self.write(F(r.choice(['2', '0.5', '3', '1.25'])), ''))]
            else:
                l = [Post(a, self.write(v, f), total=self.write(F(r.choice(['2', '10', '7.5'])), ''))]
            if r.random() < .5:
                l.append(Post(b, self.write(self.value(), '')))
            l.append(Post(c))
            if r.random() < .25 and len(l) == 3:
                l[2].a = self.write(F(3), '')
        elif kind == 'free':
            l = [Post(a, self.write(self.value(), q)) for a, q in zip(self.acct(3), r.sample(self.sym, min(2, len(self.sym))) + ([s] if r.random() < .4 else []))]
            if len({q.a.sym for q in l}) == 1:
                l = [Post(l[0].account, self.write(F(0), s))]
        elif kind == 'zero':
            l = [Post(a, self.write(F(0), s)) for a in self.acct(r.choice([1, 2]))] + ([Post(self.acct(1)[0])] if r.random() < .3 else [])
        elif kind == 'lone':
            l = [Post(self.acct(1)[0])]
        elif kind == 'move':
            return [self.envpost() for _ in range(r.choice([1, 1, 2, 3]))]
        elif kind == 'mixmove':
            l = self.posts(r.choice(['pair', 'blank', 'conv']))
            r.shuffle(l)
            l.insert(r.randint(0, len(l)), self.envpost())
            return l
        elif kind == 'spend':
            hs = [(a, e) for a in self.home for e in self.j.accounts[a] if e.for_]
            if not hs:
                return self.posts('blank')
            a, e = r.choice(hs)
            s = e.target.sym
            v = self.value()
            f = r.choice(e.for_)
            q = r.random()
            if q < .4:
                l = [Post(a), Post(f, self.write(v, s))]
            elif q < .6:
                l = [Post(a, self.write(v, s)), Post(f)]
            elif q < .85:
                w = self.value()
                l = [Post(a, self.write(v, s)), Post(f, self.write(w, s)), Post(self.acct(1)[0])]
            else:
                l = [Post(a), Post(f, self.write(v, s)), Post(r.choice(e.for_), self.write(F(4), s))]
        r.shuffle(l)
        return l

    def clear(self, e):
        """whether the entry means something the documentation settles"""
        cl = e.classic()
        known = [q for q in cl if q.a is not None]
        syms = {q.a.sym for q in known}
        blanks = len(cl) - len(known)
        if blanks > 1:
            return False
        if blanks and len(syms) > 1:
            if len(syms - {''}) > 1 or any(q.a.sym and not ((q.cost and not q.cost.sym) or (q.total and not q.total.sym)) for q in known):
                return False
        if not blanks and len(syms) == 1 and len(known) > 0:
            # has to balance: only the kinds that do by construction
            if not (len(known) in (1, 2, 3) and all(not isinstance(q.a.val, Var) for q in known)):
                return False
            vs = [q.a.val for q in known]
            if any(callable(v) for v in vs):
                # v and -v of one variable
                if len(known) != 2 or known[0].a.parts[-1:] == [] or not self.opposite(known):
                    return False
            elif sum(vs) != 0:
                return False
        if any(q.env for q in e.posts):
            return True
        # inference needs every amount of the entry in the envelope's currency
        for a, es in self.j.accounts.items():
            for v in es:
                if not (any(q.account == a for q in cl) and any(q.account in v.for_ for q in cl)):
                    continue
                if v.target.sym:
                    if syms != {v.target.sym}:
                        return False
                else:
                    if any(q.a.sym and not ((q.cost and not q.cost.sym) or (q.total and not q.total.sym)) for q in known):
                        return False
                    if blanks and syms and '' not in syms:
                        return False
        return True

    @staticmethod
    def opposite(l):
        def var(a):
            vs = []

            def go(x):
                if isinstance(x, (list, tuple)):
                    for y in x:
                        go(y)
                elif isinstance(x, Var):
                    vs.append(x)
            go(a.parts)
            return vs
        x, y = var(l[0].a), var(l[1].a)
        minus = ['-' in [t for t in flat(q.a.parts) if isinstance(t, str)] for q in l]
        return len(x) == 1 and x == y and minus[0] != minus[1]


def flat(x):
    out = []
    for y in x:
        if isinstance(y, (list, tuple)):
            out += flat(y)
        else:
            out.append(y)
    return out


def wides(n, judge, argv, first=0, tty=0, then=(), **opts):
    """n scenarios; judge(p, run, wide) for each"""
    out = []
    for k in range(first, first + n):
        w = Wide(k, **opts)
        sc = Sc('wide%d' % k, seed=1 + k % 7)
        sc.file(J, w.j.text())
        sc.run(argv[0], '-f', J, *argv[1:], clock=NOW, tty=tty)
        for i, a in enumerate(then):
            sc.run(a[0], '-f', J, *a[1:], clock=NOW, tty=tty, seed=3 + 2 * i)

        def spec(p, w=w):
            if w.native:
                p.native = w.native
            judge(p, p.runs[0], w)
            p.reach('judged')
        sc.spec = spec
        sc.optional = True
        out.append(sc)
    return out
