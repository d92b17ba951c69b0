"""C08: the next due date is the first scheduled day after today."""
from sf.common import *

WD = ['monday', 'tuesday', 'wednesday', 'thursday', 'friday', 'saturday', 'sunday']


def suffix(n):
    return '%d%s' % (n, 'th' if 10 <= n % 100 <= 20 else {1: 'st', 2: 'nd', 3: 'rd'}.get(n % 10, 'th'))


def due(name, envs, first, days, seed=1, move=False, step=1):
    """the envelopes of one account, on every day of a stretch"""
    sc = Sc(name, seed=seed)
    today = datevar('today', [first + DAY * step * i for i in range(days)])
    j = Journal()
    j.account('a', *envs)
    sc.file(J, j.text())
    sc.run('e', '-f', J, *([] if move else ['-n']), clock=today)

    def spec(p):
        r = p.runs[0]
        if not accepted(p, r):
            return
        g = R.envelopes(p, r)
        p.must('a' in g, 'the account is not shown')
        for e in envs:
            x = g['a']['envs'].get((e.kind, e.name))
            p.must(x is not None, 'envelope %s is not shown' % e.name)
            if x is not None:
                expect_due(p, x['due'], e, today)
                p.reach('date' if x['due'] else 'no date')
    sc.spec = spec
    return sc


def env(due_, text, kind='expense', start=None, name='z'):
    return Env(name, amt(F(100)), due_, text, kind=kind, start=start)


def scenarios(tier):
    T = tier == 'thorough'
    out = []
    Y = 366
    span = 4 * Y if not T else 12 * Y
    for i, d in enumerate((1, 2, 13, 15, 28, 29, 30, 31) if not T else range(1, 32)):
        out.append(due('month%d' % d, [env(('month', d), 'due every ' + suffix(d), kind='goal' if i % 2 else 'expense')], D(2019, 1, 1), span, seed=1 + i))
    for i, w in enumerate(WD):
        t = [w, w[:3], w.capitalize(), w.upper()][i % 4]
        out.append(due('week%d' % i, [env(('week', i), 'due every ' + t)], D(2019, 12, 1), 500 if not T else 1500, seed=1 + i))
    for i, st in enumerate([D(2020, 1, 3), D(2020, 2, 29), D(2019, 12, 31), D(2021, 3, 1)]):
        out.append(due('2week%d' % i, [env(('2week', st), 'due every other %s starting %s' % (WD[st.weekday()], st.strftime('%Y/%m/%d')))], D(2019, 11, 1), 700 if not T else 2500, seed=1 + i))
    for i, st in enumerate([D(2020, 1, 31), D(2020, 12, 31), D(2019, 12, 30), D(2020, 2, 29), D(2020, 6, 15), D(2020, 11, 1), D(2020, 8, 30)]):
        out.append(due('2month%d' % i, [env(('2month', st), 'due every other %s starting %s' % (suffix(st.day), st.strftime('%Y/%m/%d')), kind='goal')], D(2019, 10, 1), 900 if not T else 2500, seed=1 + i))
    for i, st in enumerate([D(2020, 2, 29), D(2019, 3, 1), D(2020, 12, 31), D(2021, 1, 1), D(2019, 7, 20)]):
        out.append(due('year%d' % i, [env(('year', st), 'due every year starting ' + st.strftime('%Y/%m/%d'))], D(2019, 1, 1), 5 * Y if not T else 12 * Y, seed=1 + i))
    for i, (st, pre) in enumerate([(D(2020, 2, 29), 'due '), (D(2020, 12, 31), 'by '), (D(2021, 1, 1), 'due by ')]):
        out.append(due('once%d' % i, [env(('once', st), pre + st.strftime('%Y/%m/%d'), kind='goal')], D(2019, 6, 1), 900))
    out.append(due('never', [env(('never',), 'no date', kind='goal')], D(2019, 6, 1), 900))
    # around the turns of centuries (2000 was a leap year, 2100 is none) and long after the start
    for i, c in enumerate((2000, 2100, 2200)):
        for d in (28, 29, 30, 31):
            out.append(due('century%d_%d' % (c, d), [env(('month', d), 'due every ' + suffix(d)), env(('year', D(c - 4, 2, 29)), 'due every year starting %d/02/29' % (c - 4), name='y', kind='goal'), env(('2month', D(c - 1, 12, d)), 'due every other %s starting %d/12/%d' % (suffix(d), c - 1, d), name='m')], D(c - 1, 12, 20), 440, seed=d))
    for i, (y, n) in enumerate([(2005, 400), (1999, 700), (1971, 200)]):
        st = D(y, 1, 31)
        while st.weekday() != 4:
            st -= DAY
        out.append(due('longago%d' % i, [env(('2week', st), 'due every other friday starting ' + st.strftime('%Y/%m/%d')), env(('2month', D(y, 1, 31)), 'due every other 31st starting %d/01/31' % y, name='m', kind='goal'), env(('year', D(y, 5, 7)), 'due every year starting %d/05/07' % y, name='y'), env(('once', D(y + 60, 1, 1)), 'by %d/01/01' % (y + 60), name='o', kind='goal')], D(2020, 1, 1), n, seed=2 + i))
    # a starting date on a scheduled day
    for i, (sch, txt, st) in enumerate([(('month', 5), 'due every 5th', D(2020, 12, 5)), (('week', 4), 'due every friday', D(2020, 10, 2)), (('month', 31), 'due every 31st', D(2020, 12, 31)), (('month', 1), 'due every 1st', D(2020, 3, 1))]):
        out.append(due('start%d' % i, [env(sch, txt + ' starting ' + st.strftime('%Y/%m/%d'), start=st)], D(2020, 1, 1), 500))
    # several envelopes together, with automatic moves enabled (nothing is available)
    out.append(due('many', [env(('month', 31), 'due every 31st', name='m'), env(('year', D(2020, 2, 29)), 'due every year starting 2020/02/29', name='y', kind='goal'), env(('never',), 'no date', name='n')], D(2020, 1, 20), 800, move=True))
    # the day of the month and today, both symbolic
    sc = Sc('anyday')
    dm = Var('dm', 31, [suffix(i) for i in range(1, 32)])
    first = D(2020, 2, 20) if not T else D(2019, 12, 20)
    days = 20 if not T else 80
    td = datevar('today', [first + DAY * i for i in range(days)])
    sc.file(J, 'account a\n    expense z due every ', dm, '\n        amount 100\n')
    sc.run('e', '-f', J, '-n', clock=td)

    def spec(p, dm=dm, td=td):
        if not accepted(p, p.runs[0]):
            return
        x = R.envelopes(p, p.runs[0])['a']['envs'][('expense', 'z')]
        p.must(x['due'] is not None, 'no due date')
        for i in p.vals(dm):
            e = env(('month', i + 1), '')
            with p.given(p.is_(dm, i)):
                if x['due'] is not None and p.possible():
                    expect_due(p, x['due'], e, td)
        p.reach('date')
    sc.spec = spec
    out.append(sc)
    # the starting date and today, both symbolic
    for k, (kind, txt) in enumerate([('2month', 'due every other 15th starting '), ('year', 'due every year starting '), ('2week', 'due every other friday starting ')]):
        sc = Sc('anystart_' + kind)
        first = D(2020, 1, 25)
        step = 14 if kind != '2week' else 7
        sd = datevar('start', [(D(2020, 1, 3) if kind == '2week' else first) + DAY * step * i for i in range(40 if not T else 100)])
        td = datevar('today', [D(2020, 2, 26) + DAY * i for i in range(30 if not T else 120)])
        sc.file(J, 'account a\n    expense z ', txt, sd, '\n        amount 100\n')
        sc.run('e', '-f', J, '-n', clock=td)

        def spec(p, kind=kind, sd=sd, td=td):
            if not accepted(p, p.runs[0]):
                return
            x = R.envelopes(p, p.runs[0])['a']['envs'][('expense', 'z')]
            p.must(x['due'] is not None, 'no due date')
            for i in p.vals(sd):
                with p.given(p.is_(sd, i)):
                    if x['due'] is not None and p.possible():
                        expect_due(p, x['due'], env((kind, sd.vals[i]), ''), td)
            p.reach('date')
        sc.spec = spec
        out.append(sc)
    # another date format
    sc = Sc('format')
    td = datevar('today', [D(2020, 9, 1) + DAY * i for i in range(400)])
    sc.file(J, 'date_format %d.%m.%Y\naccount a\n    expense z due every other 15th starting 15.10.2020\n        amount 1\n    goal y by 31.12.2020\n        amount 1\n')
    sc.run('e', '-f', J, '-n', clock=td)

    def spec(p, td=td):
        if not accepted(p, p.runs[0]):
            return
        g = R.envelopes(p, p.runs[0])['a']['envs']
        expect_due(p, g[('expense', 'z')]['due'], env(('2month', D(2020, 10, 15)), ''), td)
        expect_due(p, g[('goal', 'y')]['due'], env(('once', D(2020, 12, 31)), ''), td)
        p.reach('date')
    sc.spec = spec
    out.append(sc)
    return out


BOUNDS = 'every day of 4 years (12 thorough, 2019-2030) as today for monthly schedules, 500-4400 days for the others; all 7 weekdays; 8 (31) days of the month; 19 starting dates fixed, and 40 (100) symbolic; starting dates on scheduled days'
OUTSIDE = 'starting dates that are not scheduled days; other years, except around 2000, 2100 and 2200'
