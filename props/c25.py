"""C25: the envelopes report shows every envelope once, with bars in proportion."""
from sf.common import *
from props.c09 import SCHED
from sf.wide import *

M1 = ('month', 1), 'due every 1st'
EPS = F(1, 10 ** 6)


def bars(p, x, what):
    """each bar is filled in proportion; full exactly when the target is reached, empty when nothing is there"""
    tgt = x['target'].const()
    ws = {len(x['bar_now']), len(x['bar_next'])}
    p.must(len(ws) == 1, 'the two bars of %s are not equally wide' % what)
    for k in ('now', 'next'):
        b = x['bar_' + k]
        w = len(b)
        p.must(w >= 10, 'the %s bar of %s is missing' % (k, what))
        full = len(b.rstrip(' '))
        fill = b[:full]
        p.must(' ' not in fill and len(set(fill)) <= 1, 'the %s bar of %s has gaps: %r' % (k, what, b))
        v = x[k]
        # share of the bar, in units of the bar: v * w / target
        if full == 0:
            p.must(v * w < Q(F(tgt)) + Q(EPS), 'the %s bar of %s is empty' % (k, what))
        elif full == w:
            p.must(v > Q(F(tgt)) - Q(EPS), 'the %s bar of %s is full before the target is reached' % (k, what))
        else:
            p.must(v * w > Q(F(tgt) * full) - Q(EPS), 'the %s bar of %s is filled too far' % (k, what))
            p.must(v * w < Q(F(tgt) * (full + 1)) + Q(EPS), 'the %s bar of %s is filled too little' % (k, what))
        p.reach('full' if full == w else 'part' if full else 'empty')


def layout(p, run, j):
    """which accounts and envelopes are shown, in which order, with which targets"""
    got = R.envelopes(p, run)
    want = sorted(a for a, es in j.accounts.items() if es)
    p.must(list(got) == want, 'accounts shown: %r' % list(got))
    for a in want:
        if a not in got:
            continue
        es = {(e.kind, e.name): e for e in j.accounts[a]}
        shown = got[a]['order']
        p.must(sorted(shown) == sorted(es), 'envelopes shown for %s: %r' % (a, shown))
        for k, x in got[a]['envs'].items():
            if k in es:
                p.must(x['sym'] == es[k].target.sym, 'the currency of %s' % (k,))
                p.must(x['target'].near(es[k].target.q(p)), 'the target of %s/%s is wrong' % (a, k))
    p.reach('shown')
    return got


def scenarios(tier):
    T = tier == 'thorough'
    out = []

    def new(name):
        sc = Sc(name, seed=1 + len(out) % 7)
        out.append(sc)
        return sc

    # bars: ready and saved amounts symbolic, for several targets
    for k, (tgt, lo, hi, scale) in enumerate([(100, -30, 250, 1), (40, -5, 90, 1), (7, -3, 30, 1), (3, 0, 400, 100), (1000, 0, 1300, 1), (F(5, 2), 0, 300, 100), (1, -100, 150, 100), (99999, 0, 500, 1)]):
        for part in ('now', 'next'):
            sc = new('bar%d_%s' % (k, part))
            v = intvar('v', lo, hi, scale=scale)
            j = Journal()
            j.account('a', Env('z', amt(F(tgt)), *M1, kind='goal' if k % 2 else 'expense', for_=['f'])).account('f').account('eq')
            when = D(2020, 8, 5) if part == 'now' else D(2020, 9, 2)
            if lo < 0:
                # what is there: v + 0, negative values by taking out
                j.entry(when, Post('a', amt(v), env='z'))
            else:
                j.entry(when, Post('a', amt(v), env='z'))
            sc.file(J, j.text())
            sc.run('e', '-f', J, '-n', clock=NOW)

            def spec(p, j=j):
                if not accepted(p, p.runs[0]):
                    return
                g = layout(p, p.runs[0], j)
                for (kind, n), x in g.get('a', dict(envs={}))['envs'].items():
                    bars(p, x, n)
            sc.spec = spec
    # both parts at once, one spilling into the other
    for k, (tgt, a0, b0) in enumerate([(50, 60, 70), (20, 30, 30)] if not T else [(50, 60, 70), (20, 30, 30), (200, 250, 250)]):
        sc = new('both%d' % k)
        v, w = intvar('v', -a0, a0), intvar('w', 0, b0)
        j = Journal()
        j.account('a', Env('z', amt(F(tgt)), *M1)).account('eq')
        j.entry(D(2020, 8, 5), Post('a', amt(v), env='z'))
        j.entry(D(2020, 9, 5), Post('a', amt(w), env='z'))
        sc.file(J, j.text())
        sc.run('e', '-f', J, '-n', clock=NOW)

        def spec(p, j=j):
            if not accepted(p, p.runs[0]):
                return
            g = layout(p, p.runs[0], j)
            for (kind, n), x in g.get('a', dict(envs={}))['envs'].items():
                bars(p, x, n)
        sc.spec = spec
    # the target symbolic, in several currencies
    for k, sym in enumerate(['', '$', 'EUR']):
        sc = new('target%d' % k)
        v = intvar('v', 1, 500)
        j = Journal()
        j.account('a', Env('z', amt(v, sym), *M1), Env('y', amt(F(30), 'BTC'), ('never',), 'no date', kind='goal')).account('eq')
        j.entry(D(2020, 9, 5), Post('a', amt(F(25), 'BTC'), env='y'))
        sc.file(J, j.text())
        sc.run('e', '-f', J, '-n', clock=NOW)

        def spec(p, j=j):
            if not accepted(p, p.runs[0]):
                return
            g = layout(p, p.runs[0], j)
            x = g.get('a', dict(envs={}))['envs'].get(('goal', 'y'))
            if x:
                bars(p, x, 'y')
        sc.spec = spec
    # many accounts, many envelopes of one kind
    for k in range(3):
        sc = new('crowd%d' % k)
        j = Journal()
        v = intvar('v', 0, 120)
        kinds = [lambda i: 'goal', lambda i: 'expense', lambda i: ['goal', 'expense'][i % 2]][k]
        j.account('a', *[Env('n%d' % i, amt(F(40 + i)), *SCHED[(i + k) % 10][1:], kind=kinds(i)) for i in range(9)])
        for x in ['B', 'Zed', 'aa', 'b', 'C', 'zed', 'c', 'a:b'][::[1, -1, 1][k]]:
            j.account(x, Env('food', amt(F(30)), *M1, kind=['expense', 'goal'][k % 2]))
        j.entry(D(2020, 9, 5), Post('a', amt(v), env='n8'))
        sc.file(J, j.text())
        sc.run('e', '-f', J, '-n', clock=NOW)

        def spec(p, j=j):
            if not accepted(p, p.runs[0]):
                return
            g = layout(p, p.runs[0], j)
            for (kind, n), x in g.get('a', dict(envs={}))['envs'].items():
                bars(p, x, n)
        sc.spec = spec
    # which accounts and envelopes: the declarations in any order, kinds and names symbolic
    import itertools
    ND = 3
    names = ['b', 'assets:x', 'c', 'a', 'assets', 'B', 'b:a', 'Zed']
    for k in range(12 if not T else 60):
        import random
        r = random.Random(100 + k)
        sc = new('list%d' % k)
        n1 = choice('n1', ['food', 'rent', 'z9'])
        n2 = choice('n2', ['a', 'zoo'])
        k1, k2 = choice('k1', ['expense', 'goal']), choice('k2', ['expense', 'goal'])
        accts = r.sample(names, r.randint(2, len(names)))
        envs = []
        uses = []
        for a in accts:
            m = r.randint(0, 3)
            es = []
            for i in range(m):
                if i == 0 and len(uses) < 1 and r.random() < .8:
                    uses.append(a)
                    es.append((k1, n1))
                elif i == 1 and r.random() < .5 and n2 not in [x[1] for e in envs for x in e[1]]:
                    es.append((k2, n2))
                else:
                    es.append((r.choice(['expense', 'goal']), 'e%d' % i))
            envs.append((a, es))
        txt = []
        due = ['due every 1st', 'no date', 'due every friday', 'by 2020/12/01', 'by 2020/02/01', 'due every year starting 2020/03/04']
        tg = {}
        for a, es in envs:
            txt.append('account %s\n' % a)
            for i, (kk, nn) in enumerate(es):
                t = r.randint(1, 300)
                tg[a, i] = t
                txt += ['    ', kk, ' ', nn, ' ', r.choice(due), '\n        amount %d\n' % t]
                if r.random() < .3:
                    txt.append('        for %s\n' % r.choice(accts))
            if r.random() < .4:
                txt.append('\n')
        txt.append('account last\n')
        sc.file(J, txt)
        sc.run('e', '-f', J, '-n', clock=NOW)

        def spec(p, envs=envs, tg=tg, n1=n1, n2=n2, k1=k1, k2=k2):
            if not accepted(p, p.runs[0]):
                return
            got = R.envelopes(p, p.runs[0])
            want = sorted(a for a, es in envs if es)
            p.must(list(got) == want, 'accounts shown: %r' % list(got))
            for a, es in envs:
                if a not in got:
                    continue
                sh = got[a]['order']
                p.must(len(sh) == len(es), 'envelopes shown for %s: %r' % (a, sh))
                for i, (kk, nn) in enumerate(es):
                    # exactly one of those shown is this one
                    hits = []
                    for kind, nm in sh:
                        c = [p.among(kk, [t for t in p.vals(kk) if kk.text[t] == kind]) if isinstance(kk, Var) else z3.BoolVal(kk == kind),
                             p.text_is(nm, nn, {t: nn.text[t] for t in p.vals(nn)}) if isinstance(nn, Var) else p.text_is(nm, None, nn),
                             got[a]['envs'][kind, nm]['target'].near(tg[a, i])]
                        hits.append(z3.And(c))
                    p.must(z3.Or(hits) if hits else z3.BoolVal(False), 'envelope %d of %s is not shown, or not in its section, or with another target' % (i, a))
            p.reach('shown')
        sc.spec = spec
    return out


BOUNDS = 'ready and saved amounts symbolic (up to 1300 values, both at once up to 120x70) against 9 targets in whole numbers and cents; the target symbolic (500 values) in 3 currencies; 12 (60) lists of 2-7 accounts with 0-3 envelopes whose kinds and names are symbolic; 9 envelopes in one account among 9'
OUTSIDE = 'the order of envelopes inside a section, the character and the width of the bars; bars of a target of zero'
