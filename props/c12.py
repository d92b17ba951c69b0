"""C12: automatic moves never overdraw the account nor overfill an envelope."""
from sf.common import *
from sf.wide import wides
from props.c09 import SCHED

M1 = SCHED[0][1:]
EXACT = False


def fill(name, j, today=NOW, seed=1, cmd='b', exact=None, again=True, argv=(), **opts):
    """one run with automatic moves: judge what it writes"""
    sc = Sc(name, seed=seed, **opts)
    sc.file(J, j.text())
    sc.run(cmd, '-f', J, *argv, clock=today, tty=100)
    ex = EXACT if exact is None else exact

    def spec(p):
        r = p.runs[0]
        if not accepted(p, r):
            return
        ms = check_moves(p, r, j, today, exact=ex)
        p.reach('moved' if ms else 'nothing moved')
    sc.spec = spec
    return sc


def judge_wide(p, r, w, exact=False):
    if accepted(p, r):
        ms = check_moves(p, r, w.j, NOW, exact=exact)
        p.reach('moved' if ms else 'nothing moved')


def scenarios(tier):
    T = tier == 'thorough'
    out = []
    big = 200 if not T else 2000

    def env(name='x', target=F(100), sch=M1, funding='aggressive', **k):
        return Env(name, amt(target) if not isinstance(target, A) else target, *sch, funding=funding, **k)
    # one envelope: balance, contents and target symbolic
    for k, f in enumerate(['aggressive', 'conservative']):
        j = Journal()
        t = intvar('t', 1, 150)
        j.account('a', env(target=amt(t), funding=f)).account('b')
        v, w = intvar('v', -50, big), intvar('w', -40, 120)
        j.entry(D(2020, 8, 1), Post('a', amt(v)), Post('b'))
        j.entry(D(2020, 9, 2), Post('a', amt(w), env='x'))
        out.append(fill('one%d' % k, j, seed=1 + k))
        # contents from both sides of the due date: also overdrawn
        j = Journal()
        j.account('a', env(funding=f, target=F(100 if k == 0 or T else 20), for_=['b'])).account('b').account('c')
        z = k == 0 or T
        v, w, u = intvar('v', -50, big if z else 60), intvar('w', -60 if z else -20, 60 if z else 20), intvar('u', 0, 120 if z else 30)
        j.entry(D(2020, 8, 1), Post('a', amt(v)), Post('c'))
        j.entry(D(2020, 8, 2), Post('a', amt(w), env='x'))
        j.entry(D(2020, 9, 2), Post('a', amt(u), env='x'))
        j.entry(D(2020, 9, 3), Post('b', amt(F(30))), Post('a'))
        out.append(fill('split%d' % k, j, seed=3 + k))
    # two and three envelopes compete for one balance
    for k, fs in enumerate([('aggressive', 'aggressive'), ('conservative', 'aggressive'), ('conservative', 'conservative'), ('aggressive', 'conservative', 'aggressive'), ('conservative', 'aggressive', 'conservative')]):
        j = Journal()
        j.account('a', *[env('x%d' % i, F(60 + 30 * i), SCHED[(i + k) % 7][1:], f, kind='goal' if i % 2 else 'expense') for i, f in enumerate(fs)])
        j.account('b')
        v, w = intvar('v', -20, big), intvar('w', 0, 90)
        j.entry(D(2020, 8, 1), Post('a', amt(v)), Post('b'))
        j.entry(D(2020, 9, 10), Post('a', amt(w), env='x%d' % (len(fs) - 1)))
        out.append(fill('compete%d' % k, j, seed=1 + k))
    # all kinds of expenses, all goals
    for k, kind in enumerate(['expense', 'goal']):
        j = Journal()
        j.account('a', *[env('x%d' % i, F(40 + i), SCHED[i][1:], kind=kind, funding='aggressive' if i % 2 else 'conservative') for i in range(4)]).account('b')
        j.entry(D(2020, 8, 1), Post('a', amt(intvar('v', 0, big))), Post('b'))
        out.append(fill('all_%s' % kind, j, seed=1 + k))
    # many envelopes
    for k, kind in enumerate(['expense', 'goal', None]):
        j = Journal()
        j.account('a', *[env('x%d' % i, F(20 + i), SCHED[i][1:], kind=kind or ['goal', 'expense'][i % 2], funding='aggressive' if k == 0 or i % 3 else 'conservative') for i in range(8)]).account('b')
        j.entry(D(2020, 8, 1), Post('a', amt(intvar('v', 0, 260 if k == 0 else 160))), Post('b'))
        j.entry(D(2020, 8, 2), Post('a', amt(F(4)), env='x7'), Post('a', amt(F(3)), env='x0'))
        out.append(fill('crowd%d' % k, j, seed=1 + k))
    # several accounts: the money of one account never fills the envelopes of another
    j = Journal()
    j.account('a', env('x'), env('y', F(50), SCHED[3][1:], kind='goal'))
    j.account('b', env('x', F(70)))
    j.account('c')
    j.entry(D(2020, 8, 1), Post('a', amt(intvar('v', -20, big))), Post('c'))
    j.entry(D(2020, 8, 1), Post('b', amt(intvar('w', -20, big))), Post('c'))
    j.entry(D(2020, 8, 2), Post('b', amt(F(11))), Post('a'))
    out.append(fill('accounts', j, seed=4))
    # currencies: each has its own balance
    for k, s in enumerate(['$', 'EUR']):
        j = Journal()
        j.account('a', env('x', amt(F(100), s)), env('y', F(60), kind='goal'), env('z', amt(F(30), s), SCHED[4][1:], 'conservative'))
        j.account('b')
        j.entry(D(2020, 8, 1), Post('a', amt(intvar('v', -20, big), s)), Post('b'))
        j.entry(D(2020, 8, 1), Post('a', amt(intvar('w', -20, big))), Post('b'))
        out.append(fill('currency%d' % k, j, seed=1 + k))
    # money of the wrong currency only
    j = Journal()
    j.account('a', env('x')).account('b')
    j.entry(D(2020, 8, 1), Post('a', amt(intvar('v', 1, 99), '$')), Post('b'))
    j.entry(D(2020, 8, 3), Post('a', amt(intvar('w', 0, 3))), Post('b'))
    out.append(fill('wrongcurrency', j))
    # cents
    j = Journal()
    j.account('a', env('x', F(777, 100)), env('y', F(1001, 100), SCHED[3][1:], 'conservative', kind='goal')).account('b')
    j.entry(D(2020, 8, 1), Post('a', amt(intvar('v', 0, 3000, scale=100, width=2))), Post('b'))
    out.append(fill('cents', j))
    # manual envelopes hold money that is not available
    j = Journal()
    j.account('a', env('x'), env('m', F(500), funding='manual', kind='goal')).account('b')
    j.entry(D(2020, 8, 1), Post('a', amt(intvar('v', 0, 99))), Post('b'))
    j.entry(D(2020, 9, 1), Post('a', amt(intvar('w', 0, 60)), env='m'))
    j.entry(D(2020, 8, 3), Post('a', amt(F(20)), env='m'))
    out.append(fill('reserved', j))
    # the day of the run
    for k, (nm, sch, txt) in enumerate(SCHED):
        j = Journal()
        j.account('a', env('x', F(90), (sch, txt), 'conservative'), env('y', F(30), (sch, txt), kind='goal')).account('b')
        j.entry(D(2019, 8, 1), Post('a', amt(intvar('v', 0, 150))), Post('b'))
        j.entry(D(2020, 2, 3), Post('a', amt(F(10)), env='x'))
        out.append(fill('days_' + nm, j, today=dayrange('today', D(2020, 2, 26), 6 if not T else 40), seed=1 + k))
    # every command moves alike
    j = Journal()
    j.account('assets', env('x'), env('y', F(50), SCHED[3][1:], 'conservative', kind='goal')).account('b')
    j.entry(D(2020, 8, 1), Post('assets', amt(intvar('v', -10, 150))), Post('b'))
    for c in ('b', 'r'):
        out.append(fill('cmd_' + c, j, cmd=c))
    # a balance that comes from inferred amounts
    j = Journal()
    j.account('a', env('x', for_=['c'])).account('b').account('c')
    v, w = intvar('v', -50, big), intvar('w', 1, 60)
    j.entry(D(2020, 8, 1), Post('b', amt(v, neg=False)), Post('a'))
    j.entry(D(2020, 8, 5), Post('c', amt(w)), Post('a'))
    out.append(fill('inferred', j))
    # over several days: bounds hold on each of them
    sc = Sc('daily')
    j = Journal()
    j.account('a', env('x', F(90), SCHED[3][1:], 'conservative'), env('y', F(30), kind='goal')).account('b')
    v = intvar('v', 0, 150)
    j.entry(D(2020, 8, 1), Post('a', amt(v)), Post('b'))
    days = [D(2020, 9, 13) + DAY * i for i in range(3)]
    sc.file(J, j.text())
    for d in days:
        sc.run('b', '-f', J, clock=d)

    def spec(p, j=j):
        es = list(j.entries)
        for r, d in zip(p.runs, days):
            if not accepted(p, r):
                return
            ms = check_moves(p, r, j, d, entries=es, exact=False, what=' on ' + str(d))
            if ms:
                es.append(as_entry(ms, d))
        p.reach('moved')
    sc.spec = spec
    out.append(sc)
    out += wides(60 if tier == 'quick' else 300, judge_wide, ('b',), first=6000, envs=4, funding=True, small=True, entries=(2, 5), kinds=['blank', 'blank', 'pair', 'move', 'spend', 'mixmove', 'conv'])
    return out


BOUNDS = 'up to 4 (in part 8) envelopes per account, 3 accounts, 2 currencies; balance, contents and target symbolic (whole numbers up to 200, cents up to 30.00; 2000 thorough), overdrawn ones included; all schedules over 6 (40) days; three consecutive daily runs; balance, envelopes and register as the command'
OUTSIDE = 'larger figures; which of several envelopes is served first when money is scarce'
