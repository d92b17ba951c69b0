"""C09: envelope contents are exactly the moves, split at the last due date."""
from sf.common import *
from sf.wide import wides
from props.c08 import suffix, WD


def show(name, j, today=NOW, seed=1, argv=('e', '-n'), only='contents', **opts):
    """the whole envelopes report has to show what the journal means"""
    sc = Sc(name, seed=seed, **opts)
    sc.file(J, j.text())
    sc.run(argv[0], '-f', J, *argv[1:], clock=today)

    def spec(p):
        expect_envelopes(p, p.runs[0], j, today, only=only)
        p.reach('shown')
    sc.spec = spec
    return sc


BIG = F(1000000)   # so that the progress bar, of which nothing is claimed, stays empty

SCHED = [
    ('m1', ('month', 1), 'due every 1st'), ('m31', ('month', 31), 'due every 31st'), ('m29', ('month', 29), 'due every 29th'),
    ('w', ('week', 2), 'due every wednesday'),
    ('w2', ('2week', D(2020, 1, 3)), 'due every other friday starting 2020/01/03'),
    ('mm', ('2month', D(2019, 12, 31)), 'due every other 31st starting 2019/12/31'),
    ('y', ('year', D(2020, 2, 29)), 'due every year starting 2020/02/29'),
    ('y2', ('year', D(2019, 12, 5)), 'due every year starting 2019/12/05'),
    ('o', ('once', D(2020, 3, 1)), 'by 2020/03/01'),
    ('n', ('never',), 'no date'),
]


def scenarios(tier):
    T = tier == 'thorough'
    out = []
    # one move, its date and today symbolic, for every schedule
    for i, (nm, sch, txt) in enumerate(SCHED):
        for k, t0 in enumerate([D(2020, 2, 26), D(2021, 2, 25)] if not T else [D(2020, 1, 28), D(2020, 2, 26), D(2020, 12, 29), D(2021, 2, 25), D(2022, 3, 1)]):
            j = Journal()
            j.account('a', Env('z', amt(BIG), sch, txt, kind='goal' if i % 2 else 'expense'))
            today = dayrange('today', t0, 8 if not T else 14)
            when = datevar('when', [t0 - DAY * (7 * x) for x in range(-2, 10)] if sch[0] != 'year' else [t0 - DAY * (35 * x) for x in range(-1, 13)])
            v = intvar('v', 1, 200)
            j.entry(when, Post('a', amt(v), env='z'))
            out.append(show('one_%s_%d' % (nm, k), j, today, seed=1 + i))
    # every day around the last due date, today fixed
    for i, (nm, sch, txt) in enumerate(SCHED):
        j = Journal()
        j.account('a', Env('z', amt(BIG), sch, txt))
        t0 = D(2020, 6, 30)
        ld = last_due(j.accounts['a'][0], t0) or t0
        when = dayrange('when', ld - DAY * 10, 20)
        v, w = intvar('v', 1, 99), intvar('w', 1, 99)
        j.entry(when, Post('a', amt(v), env='z'))
        j.entry(D(2020, 1, 1), Post('a', amt(w, neg=True), env='z'))
        out.append(show('edge_' + nm, j, t0, seed=1 + i))
    # last due dates cut short by their month, or by the month after
    for i in (1, 2, 5, 6):
        nm, sch, txt = SCHED[i]
        for k, t0 in enumerate([D(2020, 1, 30), D(2021, 2, 10), D(2021, 3, 30), D(2020, 4, 30)]):
            j = Journal()
            j.account('a', Env('z', amt(BIG), sch, txt, kind='goal' if i % 2 else 'expense'))
            ld = last_due(j.accounts['a'][0], t0)
            v = intvar('v', 1, 99)
            j.entry(dayrange('when', ld - DAY * 6, 12), Post('a', amt(v), env='z'))
            out.append(show('short_%s_%d' % (nm, k), j, t0, seed=1 + i))
    # moves long ago and long from now
    for i in (0, 3, 5, 7, 8, 9):
        nm, sch, txt = SCHED[i]
        j = Journal()
        j.account('a', Env('z', amt(BIG), sch, txt, kind='goal' if i % 2 else 'expense'))
        when = datevar('when', [D(1971, 1, 1), D(1999, 12, 31), D(2015, 5, 5), D(2019, 2, 2), D(2021, 12, 31), D(2024, 2, 29), D(2030, 6, 1), D(2099, 9, 9)])
        j.entry(when, Post('a', amt(intvar('v', -50, 50)), env='z'))
        j.entry(D(2020, 9, 2), Post('a', amt(F(3)), env='z'))
        out.append(show('far_' + nm, j, NOW, seed=1 + i))
    # several moves in and out, amounts signed, dates around the due date
    for n in (2, 3) if not T else (2, 3, 4):
        for i in range(2):
            j = Journal()
            nm, sch, txt = SCHED[i * 3]
            j.account('a', Env('z', amt(BIG), sch, txt))
            for k in range(n):
                d = datevar('d%d' % k, [D(2020, 8, 26) + DAY * 7 * x for x in range(3)]) if k < 2 else D(2020, 9, 10)
                j.entry(d, Post('a', amt(intvar('v%d' % k, -50, 50)), env='z'))
            out.append(show('many%d_%d' % (n, i), j, NOW, seed=1 + n))
    # many envelopes in one account, many moves in one entry
    for k in range(3):
        j = Journal()
        j.account('a', *[Env('e%d' % i, amt(BIG), *SCHED[(i + k) % 10][1:], kind='goal' if (i % 2 if k == 0 else k == 2) else 'expense') for i in range(8)])
        ps = [Post('a', amt(intvar('v%d' % i, -50, 50) if i in (0, 6, 7) else F(i + 2)), env='e%d' % i) for i in range(8)]
        j.entry(D(2020, 9, 2), *ps)
        j.entry(D(2020, 1, 2), *[Post('a', amt(F(3 * i + 1)), env='e%d' % i) for i in range(7, -1, -1)])
        out.append(show('crowd%d' % k, j, seed=1 + k))
    # several envelopes and accounts with the same names: only the named one changes
    j = Journal()
    j.account('a', Env('x', amt(BIG), *SCHED[0][1:]), Env('y', amt(BIG), *SCHED[3][1:], kind='goal'))
    j.account('b', Env('x', amt(BIG), *SCHED[0][1:], kind='goal'), Env('xx', amt(BIG), ('never',), 'no date'))
    tg = [('a', 'x'), ('a', 'y'), ('b', 'x'), ('b', 'xx')]
    ac = choice('t', ['a x', 'a y', 'b x', 'b xx'])
    v, w = intvar('v', 1, 99), intvar('w', 1, 99)
    sc = Sc('which', seed=3)
    sc.file(J, j.text(), '2020/08/30 * m\n    envelope ', ac, '  ', v, '\n2020/09/10 * m\n    envelope b x ', w, '\n    envelope a y -5\n')
    sc.run('e', '-f', J, '-n')

    def spec(p, j=j, ac=ac, v=v, w=w):
        for i in p.vals(ac):
            with p.given(p.is_(ac, i)):
                if not p.possible():
                    continue
                es = [Entry(D(2020, 8, 30), [Post(tg[i][0], amt(v), env=tg[i][1])]), Entry(D(2020, 9, 10), [Post('b', amt(w), env='x'), Post('a', amt(F(5), neg=True), env='y')])]
                expect_envelopes(p, p.runs[0], j, NOW, entries=es, only='contents')
        p.reach('shown')
    sc.spec = spec
    out.append(sc)
    # account and envelope names that are parts of one another
    accts = ['assets', 'assets:b', 'assets:bank', 'bank', 's:bank', 'Assets']
    names = ['x', 'xx', 'X']
    for h in range(2):
        j = Journal()
        for a in accts[h::2] + accts[1 - h::2][:1]:
            j.account(a, *[Env(e, amt(BIG), *SCHED[0][1:], kind='goal' if e == 'xx' else 'expense') for e in names])
        pairs = [(a, e) for a in j.accounts for e in names]
        ac = choice('t', ['%s %s' % q for q in pairs])
        v, w = intvar('v', 1, 40), intvar('w', 1, 40)
        sc = Sc('parts%d' % h, seed=3 + h)
        a0 = list(j.accounts)[1]
        sc.file(J, j.text(), '2020/08/30 * m\n    envelope ', ac, '  ', v, '\n2020/09/10 * m\n    envelope %s x ' % a0, w, '\n')
        sc.run('e', '-f', J, '-n')

        def spec(p, j=j, ac=ac, v=v, w=w, pairs=pairs, a0=a0):
            for i in p.vals(ac):
                with p.given(p.is_(ac, i)):
                    if p.possible():
                        expect_envelopes(p, p.runs[0], j, NOW, entries=[Entry(D(2020, 8, 30), [Post(pairs[i][0], amt(v), env=pairs[i][1])]), Entry(D(2020, 9, 10), [Post(a0, amt(w), env='x')])], only='contents')
            p.reach('shown')
        sc.spec = spec
        out.append(sc)
    # several postings of one entry to one envelope, and ordinary postings beside them
    for k in range(2):
        j = Journal()
        j.account('assets', Env('x', amt(BIG), *SCHED[0][1:], for_=['food']), Env('y', amt(BIG), *SCHED[4][1:], kind='goal', for_=['food']))
        j.account('food')
        v, w, u = intvar('v', -60, 60), intvar('w', -60, 60), intvar('u', 1, 60)
        ps = [Post('assets', amt(v), env='x'), Post('assets', amt(w), env='x'), Post('assets', amt(u, neg=True)), Post('food', None if k else amt(u)), Post('assets', amt(F(9)), env='y')]
        j.entry(D(2020, 8, 31) if k else D(2020, 9, 1), *ps)
        out.append(show('posts%d' % k, j, NOW, seed=1 + k))
    # a foreign currency
    for k, s in enumerate(['$', 'EUR', '\u20ac']):
        j = Journal()
        j.account('a', Env('x', amt(BIG, s), *SCHED[0][1:]), Env('y', amt(BIG), *SCHED[0][1:], kind='goal'))
        v, w = intvar('v', -999, 999, scale=100, width=1), intvar('w', 1, 99)
        j.entry(D(2020, 8, 20), Post('a', amt(v, s), env='x'))
        j.entry(D(2020, 9, 2), Post('a', amt(w), env='y'), Post('a', amt(w, s), env='x'))
        out.append(show('currency%d' % k, j, NOW))
    # ordinary targets
    j = Journal()
    j.account('a', Env('x', amt(F(100)), *SCHED[0][1:]), Env('y', amt(F(0)), *SCHED[0][1:]))
    j.entry(D(2020, 8, 20), Post('a', amt(intvar('v', -5, 120)), env='x'))
    j.entry(D(2020, 9, 2), Post('a', amt(F(60)), env='x'), Post('a', amt(F(3)), env='y'))
    out.append(show('targets', j, NOW))
    # overdrawn by more than the target
    for k in range(2):
        j = Journal()
        j.account('a', Env('x', amt(F(10)), *SCHED[0][1:]), Env('y', amt(BIG), *SCHED[0][1:], kind='goal'))
        j.entry(D(2020, 9, 2), Post('a', amt(intvar('v', -80, 3)), env='x'))
        j.entry(D(2020, 9, 2) if k else D(2020, 8, 2), Post('a', amt(intvar('w', -40, 4)), env='x'), Post('a', amt(F(2)), env='y'))
        out.append(show('deep%d' % k, j, NOW))
    # dates in the future, entries out of order
    j = Journal()
    j.account('a', Env('x', amt(BIG), *SCHED[0][1:]))
    d1, d2 = datevar('d1', [D(2020, 8, 25) + DAY * 7 * i for i in range(5)]), datevar('d2', [D(2020, 8, 25) + DAY * 7 * i for i in range(5)])
    j.entry(d1, Post('a', amt(intvar('v', 1, 99)), env='x'))
    j.entry(d2, Post('a', amt(intvar('w', 1, 99)), env='x'))
    j.entry(D(2020, 8, 1), Post('a', amt(F(7), neg=True), env='x'))
    out.append(show('order', j, NOW))
    out += wides(60 if tier == 'quick' else 300, lambda p, r, w: expect_envelopes(p, r, w.j, NOW, only='contents'), ('e', '-n'), first=2000, envs=3, kinds=['move', 'move', 'move', 'mixmove', 'blank'], entries=(2, 4))
    return out


BOUNDS = '10 schedules; the date of a move and today both symbolic (12-14 dates x 8-14 days at 2-5 places of the calendar), every day within 10 days of the last due date; up to 4 moves with signed amounts; 8 envelopes with 16 moves; two accounts with equal envelope names'
OUTSIDE = 'amounts above 200, years beyond 2022'
