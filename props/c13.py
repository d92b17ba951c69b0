"""C13: the funding method alone decides how much is moved."""
from sf.common import *
from sf.wide import wides
from props.c09 import SCHED
from props.c12 import fill, judge_wide

M1 = SCHED[0][1:]


def scenarios(tier):
    T = tier == 'thorough'
    out = []
    big = 200 if not T else 2000

    def env(name='x', target=F(100), sch=M1, funding='aggressive', **k):
        return Env(name, amt(target) if not isinstance(target, A) else target, *sch, funding=funding, **k)

    def one(name, e, today=NOW, bal=None, moves=(), seed=1, cmd='b'):
        j = Journal()
        j.account('a', *(e if isinstance(e, (list, tuple)) else [e])).account('b')
        j.entry(D(2019, 8, 1), Post('a', amt(bal if bal is not None else intvar('v', 0, big))), Post('b'))
        for d, n, x in moves:
            j.entry(d, Post('a', amt(x), env=n))
        out.append(fill(name, j, today=today, seed=seed, cmd=cmd, exact=True))
    # no automatic move: no funding line, manual funding, no date, date over
    for k, (f, sch) in enumerate([(None, M1), ('manual', M1), ('aggressive', SCHED[9][1:]), ('conservative', SCHED[9][1:]), ('aggressive', SCHED[8][1:]), ('conservative', SCHED[8][1:]), (None, SCHED[3][1:]), (None, SCHED[9][1:])]):
        for kind in ('expense', 'goal'):
            one('never%d_%s' % (k, kind), env(sch=sch, funding=f, kind=kind, target=amt(intvar('t', 1, 99))), seed=1 + k,
                moves=[(D(2020, 9, 3), 'x', intvar('w', 0, 60))])
    # one date: until the day before it
    for k, f in enumerate(['aggressive', 'conservative']):
        one('once%d' % k, env(sch=SCHED[8][1:], funding=f), today=dayrange('today', D(2020, 2, 25), 8), seed=1 + k, moves=[(D(2020, 2, 3), 'x', F(10))])
    # the amounts: target, what is already there, and what there is
    for k, f in enumerate(['aggressive', 'conservative']):
        one('amount%d' % k, env(target=amt(intvar('t', 1, 150 if k == 0 or T else 60)), funding=f), bal=intvar('v', 0, big if k == 0 or T else 30), moves=[(D(2020, 9, 2), 'x', intvar('w', 0, 90 if k == 0 or T else 40))], seed=1 + k)
        one('amountnow%d' % k, env(funding=f, target=F(100 if k == 0 or T else 40)), bal=intvar('v', 0, big if k == 0 or T else 60), moves=[(D(2020, 8, 2), 'x', intvar('w', 0, 90 if k == 0 or T else 30)), (D(2020, 9, 2), 'x', intvar('u', 0, 120 if k == 0 or T else 50))], seed=3 + k)
        one('goal%d' % k, env(target=amt(intvar('t', 1, 150)), funding=f, kind='goal', sch=SCHED[5][1:]), moves=[(D(2020, 9, 2), 'x', F(40))], seed=5 + k)
        one('cents%d' % k, env(target=amt(intvar('t', 1, 2000, scale=100, width=2)), funding=f), bal=intvar('v', 0, 2500, scale=100, width=2), seed=1 + k)
        one('money_out%d' % k, env(funding=f), moves=[(D(2020, 8, 2), 'x', F(50)), (D(2020, 9, 2), 'x', F(30)), (D(2020, 9, 4), 'x', intvar('w', -40, -1))], seed=1 + k)
    # days until the due date, for every schedule and several days
    for k, (nm, sch, txt) in enumerate(SCHED):
        for i, t0 in enumerate([D(2020, 2, 24), D(2020, 12, 28)] if not T else [D(2019, 12, 28), D(2020, 2, 24), D(2020, 6, 27), D(2020, 12, 28), D(2021, 2, 25)]):
            one('days_%s_%d' % (nm, i), env('x', F(84), (sch, txt), 'conservative', kind='goal' if k % 2 else 'expense'),
                today=dayrange('today', t0, 8 if not T else 16), bal=F(500), moves=[(D(2019, 9, 3), 'x', intvar('w', 0, 90))], seed=1 + k)
    # a schedule that starts later
    for k, (sch, txt, st_) in enumerate([(('month', 5), 'due every 5th', D(2020, 12, 5)), (('week', 2), 'due every wednesday', D(2020, 11, 4)), (('month', 31), 'due every 31st', D(2021, 1, 31)), (('2week', D(2020, 12, 4)), 'due every other friday', D(2020, 12, 4)), (('year', D(2022, 2, 28)), 'due every year', D(2022, 2, 28)), (('month', 5), 'due every 5th', D(2020, 3, 5))]):
        one('start%d' % k, Env('x', amt(F(84)), sch, txt + ' starting ' + st_.strftime('%Y/%m/%d'), start=st_ if sch[0] in ('month', 'week') else None, funding='conservative', kind='goal' if k % 2 else 'expense'),
            today=dayrange('today', D(2020, 9, 1), 8), bal=F(500), moves=[(D(2020, 9, 20), 'x', intvar('w', 0, 90))], seed=1 + k)
    # the balance limits a conservative move too
    for k in (0, 3, 4):
        one('limit_' + SCHED[k][0], env('x', F(700), SCHED[k][1:], 'conservative'), bal=intvar('v', -20, 60), today=dayrange('today', D(2020, 9, 9), 5), seed=1 + k)
    # several envelopes: each gets its own share when there is enough
    one('share', [env('x', F(60)), env('y', F(90), SCHED[3][1:], 'conservative'), env('z', F(50), SCHED[4][1:], 'conservative', kind='goal'), env('q', F(70), kind='goal'), env('m', F(9), funding='manual')], bal=intvar('v', 400, 600), moves=[(D(2020, 9, 12), 'y', intvar('w', 0, 90))])
    # the lines of a definition in any order
    for k, o in enumerate(['fua', 'uaf', 'fau', 'ufa', 'auf']):
        one('lines%d' % k, [env('x', amt(intvar('t', 1, 90)), for_=['b', 'c'], order=o), env('y', F(90), SCHED[3][1:], 'conservative', kind='goal', order=o[::-1])], bal=intvar('v', 200, 300), seed=1 + k)
    # more accounts, each with envelopes of its own
    j = Journal()
    for i in range(9):
        j.account('a%d' % i, env('x', amt(intvar('t', 1, 90)) if i == 4 else F(10 + i), funding='aggressive' if i % 2 else 'conservative', sch=SCHED[i % 4 if i % 4 != 1 else 3][1:]), *([env('y', F(5))] if i % 3 == 0 else []))
    j.account('b')
    j.entry(D(2020, 8, 1), *[Post('a%d' % i, amt(intvar('v', 30, 200) if i == 4 else F(80 + i))) for i in range(9)], Post('b'))
    out.append(fill('accounts', j, exact=True, seed=3))
    one('scarce', [env('x', F(60)), env('y', F(90), SCHED[3][1:], 'conservative'), env('q', F(70), kind='goal')], bal=intvar('v', 0, 250))
    # an envelope with another currency
    j = Journal()
    j.account('a', env('x', amt(F(40), '$')), env('y', amt(intvar('t', 1, 60 if T else 30), '$'), SCHED[3][1:], 'conservative', kind='goal'), env('z', F(25))).account('b')
    j.entry(D(2020, 8, 1), Post('a', amt(intvar('v', 0, 150 if T else 90), '$')), Post('b'))
    j.entry(D(2020, 8, 1), Post('a', amt(intvar('w', 0, 60))), Post('b'))
    out.append(fill('foreign', j, exact=True, seed=2))
    # daily runs reach the target exactly by the due date
    for k, (sch, days, start) in enumerate([(SCHED[3][1:], 4, D(2020, 9, 12)), (SCHED[8][1:], 3, D(2020, 2, 27)), (SCHED[0][1:], 4, D(2020, 2, 26))]):
        sc = Sc('reach%d' % k, seed=1 + k)
        j = Journal()
        t = intvar('t', 1, 60 if T else 30)
        j.account('a', env('x', amt(t), sch, 'conservative')).account('b')
        j.entry(D(2019, 8, 1), Post('a', amt(F(1000))), Post('b'))
        if k != 1:
            w = intvar('w', 0, 60 if T else 30)
            j.entry(start - DAY, Post('a', amt(w), env='x'))
        sc.file(J, j.text())
        ds = [start + DAY * i for i in range(days)]
        for d in ds:
            sc.run('b', '-f', J, clock=d)

        def spec(p, j=j, ds=ds):
            es = list(j.entries)
            for r, d in zip(p.runs, ds):
                if not accepted(p, r):
                    return
                ms = check_moves(p, r, j, d, entries=es, exact=True, what=' on ' + str(d))
                if ms:
                    es.append(as_entry(ms, d))
            e = j.accounts['a'][0]
            st = contents(p, j, ds[-1], es)[('a', 'x')]
            p.must((ds[-1] + DAY) == next_due(e, ds[-1]), 'scenario')
            p.must(st.next.near(qmax(e.target.q(p), contents(p, j, ds[0])[('a', 'x')].next), tol=F(2, 10 ** 7)), 'daily runs do not reach the target by the due date')
            p.reach('reached')
        sc.spec = spec
        out.append(sc)
    out += wides(60 if tier == 'quick' else 300, lambda p, r, w: judge_wide(p, r, w, True), ('b',), first=7000, envs=2, funding=True, small=True, entries=(2, 4), kinds=['blank', 'blank', 'pair', 'move', 'spend', 'mixmove', 'conv'])
    return out


BOUNDS = 'up to 5 envelopes (12 over nine accounts); the lines of a definition in every order; target, contents and balance symbolic (whole numbers up to 200, 2000 thorough; cents up to 25.00); every schedule over 2 x 8 (5 x 16) days; up to five daily runs up to the due date'
OUTSIDE = 'envelopes whose ready amount is overdrawn; larger figures; which of several envelopes is served first when money is scarce'
