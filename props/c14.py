"""C14: automatic moves happen at most once per envelope and day."""
from sf.common import *
from sf.wide import wides
from props.c09 import SCHED, BIG
from props.c12 import fill

M1 = SCHED[0][1:]


def scenarios(tier):
    T = tier == 'thorough'
    out = []
    week = lambda n='d', c=NOW: datevar(n, [c + DAY * 7 * i for i in (-2, -1, 0, 1)] + [c - DAY * 3, c - DAY, c + DAY])

    def env(name='x', target=F(100), sch=M1, funding='aggressive', **k):
        return Env(name, amt(target) if not isinstance(target, A) else target, *sch, funding=funding, **k)
    # touched: by a posting of a symbolic date (in or out), before or after other entries
    for k, f in enumerate(['aggressive', 'conservative']):
        for pos in (0, 1, 2):
            j = Journal()
            j.account('a', env('x', funding=f), env('y', F(30), funding=f, kind='goal')).account('b')
            d, v = week(), intvar('v', 1, 20)
            es = [(D(2020, 8, 1), [Post('a', amt(F(600))), Post('b')]), (D(2020, 9, 10), [Post('a', amt(F(7)), env='x')])]
            es.insert(pos, (d, [Post('a', amt(v, neg=k == 1), env='x')]))
            if k == 1:
                es.insert(0, (D(2020, 8, 3), [Post('a', amt(F(90)), env='x')]))
            for dd, ps in es:
                j.entry(dd, *ps)
            out.append(fill('manual%d_%d' % (k, pos), j, seed=1 + k + pos, exact=True))
    # an entry of today followed by entries of any other day
    for k, f in enumerate(['aggressive', 'conservative']):
        j = Journal()
        j.account('a', env('x', funding=f), env('y', F(30), funding=f, kind='goal')).account('b')
        j.entry(D(2020, 8, 1), Post('a', amt(F(600))), Post('b'))
        j.entry(NOW, Post('a', amt(intvar('v', 1, 20)), env='x'))
        j.entry(week(), Post('a', amt(F(5)), env='x'))
        out.append(fill('later%d' % k, j, seed=3 + k, exact=True))
    # touched by very little
    for k in range(3):
        j = Journal()
        j.account('a', env('x', for_=['c']), env('y', F(30), kind='goal')).account('b').account('c')
        j.entry(D(2020, 8, 1), Post('a', amt(F(600))), Post('b'))
        j.entry(D(2020, 8, 2), Post('a', amt(F(50)), env='x'))
        v = intvar('v', 1, 40, scale=10 ** 4, width=1)
        j.entry(NOW, *[[Post('a', amt(v), env='x')], [Post('a', amt(v, neg=True), env='x')], [Post('a', amt(v, neg=True)), Post('c')]][k])
        out.append(fill('little%d' % k, j, seed=5 + k, exact=True))
    # inferred spending, refunds
    for k in range(4):
        j = Journal()
        j.account('a', env('x', for_=['c'], kind='goal' if k % 2 else 'expense'), env('y', F(30))).account('b').account('c')
        j.entry(D(2020, 8, 1), Post('a', amt(F(600))), Post('b'))
        j.entry(D(2020, 8, 2), Post('a', amt(F(50)), env='x'))
        d, v = week(), intvar('v', 1, 20)
        j.entry(d, *([Post('c', amt(v, neg=k >= 2)), Post('a')] if k % 2 else [Post('a', amt(v, neg=k < 2)), Post('c')]))
        j.entry(D(2020, 9, 1), Post('a', amt(F(5)), env='x'))
        out.append(fill('inferred%d' % k, j, seed=1 + k, exact=True))
    # spending of today that does not concern the envelope does not stop the move
    for k in range(4):
        j = Journal()
        j.account('a', env('x', for_=['c'])).account('b', env('x', F(20), for_=['c'])).account('c').account('d')
        j.entry(D(2020, 8, 1), Post('a', amt(F(600))), Post('d'))
        j.entry(D(2020, 8, 1), Post('b', amt(F(500))), Post('d'))
        v = intvar('v', 1, 20)
        j.entry(NOW, *[[Post('a', amt(v)), Post('d')], [Post('c', amt(v)), Post('d')], [Post('b', amt(v)), Post('c')], [Post('b', amt(v), env='x')]][k])
        out.append(fill('other%d' % k, j, seed=2 + k, exact=True))
    # an automatic entry of today is already there, whatever else has happened since
    for k in range(2):
        j = Journal()
        j.account('a', env('x'), env('y', F(90), kind='goal', funding='conservative')).account('b')
        v, w = intvar('v', 1, 40), intvar('w', 1, 300)
        j.entry(D(2020, 8, 1), Post('a', amt(F(50))), Post('b'))
        j.entry(NOW, Post('a', amt(v), env='x'), Post('a', amt(F(2)), env='y'), status='~', desc='move to envelopes', comment='; money moved automatically by silverfox')
        j.entry(NOW if k else D(2020, 9, 1), Post('a', amt(w)), Post('b'))
        out.append(fill('new_money%d' % k, j, seed=1 + k, exact=True))
    # repeating a command: nothing more is written, the same figures are shown
    for k, (c, c2) in enumerate([('b', 'b'), ('e', 'e'), ('r', 'r'), ('b', 'e'), ('e', 'b')]):
        for f in ('aggressive', 'conservative'):
            sc = Sc('twice_%s%s_%s' % (c, c2, f), seed=1 + k)
            j = Journal()
            big = 'e' in (c, c2)
            j.account('assets', env('x', BIG if big else F(100), funding=f), env('y', F(70) if f == 'aggressive' and not big else BIG, SCHED[3][1:], 'conservative' if not big else 'manual', kind='goal')).account('b')
            v = intvar('v', 0, 150)
            j.entry(D(2020, 8, 1), Post('assets', amt(v)), Post('b'))
            j.entry(D(2020, 9, 10), Post('assets', amt(F(13)), env='x'))
            sc.file(J, j.text())
            for n, cc in enumerate([c, c2, c]):
                sc.run(cc, '-f', J, clock=NOW, tty=100, seed=3 * n + k)

            def spec(p, j=j, c=c, c2=c2):
                es = list(j.entries)
                if not accepted(p, p.runs[0]):
                    return
                ms = check_moves(p, p.runs[0], j, NOW, exact=False)
                if ms:
                    es.append(as_entry(ms, NOW))
                p.reach('moved' if ms else 'nothing moved')
                for n in (1, 2):
                    if not accepted(p, p.runs[n]):
                        return
                    untouched(p, p.runs[n], 'run %d of the day' % (n + 1))
                for i, cc in enumerate((c, c2, c)):
                    if cc == 'e':
                        expect_envelopes(p, p.runs[i], j, NOW, es, what=' in run %d' % (i + 1))
                    elif cc == 'b':
                        expect_balances(p, p.runs[i], balances(p, es))
                same_figures(p, p.runs[0], p.runs[2], c, ' when the command is repeated')
                if c == c2:
                    same_figures(p, p.runs[0], p.runs[1], c, ' when the command is repeated')
            sc.spec = spec
            out.append(sc)
    # every schedule, every day: the second run of the day writes nothing; the next day may
    for k, (nm, sch, txt) in enumerate(SCHED):
        sc = Sc('again_' + nm, seed=1 + k)
        j = Journal()
        j.account('a', env('x', F(30), (sch, txt), 'conservative' if k % 2 else 'aggressive'), env('y', F(50), (sch, txt), 'aggressive' if k % 2 else 'conservative', kind='goal')).account('b')
        v = intvar('v', 0, 90)
        j.entry(D(2019, 8, 1), Post('a', amt(v)), Post('b'))
        today = dayrange('today', D(2020, 2, 27), 4 if not T else 30)
        sc.file(J, j.text())
        sc.run('b', '-f', J, clock=today)
        sc.run('b', '-f', J, clock=today, seed=5)

        def spec(p, j=j, today=today):
            for r in p.runs:
                if not accepted(p, r):
                    return
            ms = check_moves(p, p.runs[0], j, today, exact=False)
            p.reach('moved' if ms else 'nothing moved')
            untouched(p, p.runs[1], 'the second run of the day')
        sc.spec = spec
        out.append(sc)

    # journals of many shapes: the second run adds nothing, touched envelopes get nothing
    def again(p, r, w):
        if not (accepted(p, r) and accepted(p, p.runs[1], 'the journal after the move')):
            return
        ms = check_moves(p, r, w.j, NOW, exact=False)
        untouched(p, p.runs[1], 'the second run of the day')
        p.reach('moved' if ms else 'nothing moved')
    out += wides(50 if tier == 'quick' else 250, again, ('b',), then=[('b',)], first=8000, envs=3, funding=True, small=True, entries=(2, 4), kinds=['blank', 'blank', 'pair', 'move', 'spend', 'mixmove', 'conv'])
    return out


BOUNDS = 'two accounts, two envelopes each; the day of the touching entry symbolic (two weeks before to one week after today), its amount 1-20, in and out, at each place in the file; three runs on one day for each pair of commands with a symbolic balance up to 150; two runs a day for every schedule over 4 (30) days'
OUTSIDE = 'an entry of today that moves a zero amount'
