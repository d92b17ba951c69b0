"""C10: available money is the real balance minus all envelopes."""
from sf.common import *
from sf.wide import wides
from props.c09 import show as show_, SCHED, BIG


def show(*a, **k):
    return show_(*a, only='available', **k)


def scenarios(tier):
    T = tier == 'thorough'
    out = []
    n = 0

    def ev(name, i=0, target=amt(BIG), **k):
        return Env(name, target, *SCHED[i][1:], **k)
    # income, spending, moves
    for k in range(4 if not T else 10):
        j = Journal()
        j.account('assets', ev('x', k % 10), ev('y', (k + 3) % 10, kind='goal'))
        j.account('income').account('food')
        v, w, u, t = intvar('v', 1, 999), intvar('w', -99, 99), intvar('u', 1, 99), intvar('t', -99, 99)
        j.entry(D(2020, 1, 2), Post('assets', amt(v)), Post('income'))
        j.entry(D(2020, 9, 3), Post('assets', amt(w), env='x'))
        j.entry(D(2020, 8, 4), Post('food', amt(u)), Post('assets'))
        j.entry(D(2020, 9, 5), Post('assets', amt(t), env='y'), Post('assets', amt(F(3)), env='x'))
        out.append(show('flow%d' % k, j, NOW, seed=1 + k))
    # cents
    j = Journal()
    j.account('assets', ev('x'), ev('y', 3, kind='goal'))
    j.account('income')
    v, w = intvar('v', 0, 9999, scale=100, width=2), intvar('w', 0, 9999, scale=100, width=2)
    j.entry(D(2020, 1, 2), Post('assets', amt(v)), Post('income'))
    j.entry(D(2020, 9, 3), Post('assets', amt(w), env='x'))
    out.append(show('cents', j, NOW))
    # several currencies: envelopes in each
    for k in range(2):
        j = Journal()
        j.account('assets', ev('x', target=amt(BIG, '$')), ev('n'), ev('y', kind='goal', target=amt(BIG, 'EUR')))
        j.account('income')
        v, w, u = intvar('v', -99, 99), intvar('w', 1, 99), intvar('u', 1, 99)
        j.entry(D(2020, 1, 2), Post('assets', amt(v, '$')), Post('income'))
        if k:
            j.entry(D(2020, 1, 3), Post('income'), Post('assets', amt(u)))
        else:
            j.entry(D(2020, 1, 3), Post('income'), Post('assets', amt(u, 'EUR')))
        j.entry(D(2020, 9, 3), Post('assets', amt(w, '$'), env='x'), Post('assets', amt(w, 'EUR'), env='y'), Post('assets', amt(u), env='n'))
        out.append(show('currencies%d' % k, j, NOW, seed=1 + k))
    # an asset held in a currency without an envelope
    j = Journal()
    j.account('assets', ev('x'))
    j.account('income')
    v, w, u = intvar('v', -99, 99), intvar('w', 1, 99), intvar('u', 1, 99)
    j.entry(D(2020, 1, 2), Post('assets', amt(u, 'AAPL'), cost=amt(F(3))), Post('assets', amt(v)), Post('income'))
    j.entry(D(2020, 9, 3), Post('assets', amt(w), env='x'))
    out.append(show('stock', j, NOW))
    # several accounts; a transfer between two that both have envelopes
    j = Journal()
    j.account('assets:a', ev('x'), ev('y', 3, kind='goal')).account('assets:b', ev('x'))
    j.account('income')
    v, w, u, t = intvar('v', 1, 999), intvar('w', -99, 99), intvar('u', -99, 99), intvar('t', 1, 99)
    j.entry(D(2020, 1, 2), Post('assets:a', amt(v)), Post('income'))
    j.entry(D(2020, 1, 3), Post('assets:b'), Post('assets:a', amt(w)))
    j.entry(D(2020, 9, 3), Post('assets:a', amt(u), env='x'), Post('assets:b', amt(t), env='x'))
    out.append(show('transfer', j, NOW))
    # a move from one envelope to another leaves it alone
    j = Journal()
    j.account('assets', ev('x'), ev('y', 4, kind='goal'))
    j.account('income')
    v, w = intvar('v', 1, 999), intvar('w', 1, 200)
    j.entry(D(2020, 1, 2), Post('assets', amt(v)), Post('income'))
    j.entry(D(2020, 8, 3), Post('assets', amt(F(100)), env='x'))
    j.entry(D(2020, 9, 3), Post('assets', amt(w), env='y'), Post('assets', amt(w, neg=True), env='x'))
    out.append(show('between', j, NOW))
    # the account declared, spent from, without any envelope money; the same account twice in an entry
    j = Journal()
    j.account('assets', ev('x', for_=['food']))
    j.account('food')
    v, w = intvar('v', -99, 99), intvar('w', -99, 99)
    j.entry(D(2020, 1, 2), Post('assets', amt(v)), Post('food'), Post('assets', amt(w)))
    out.append(show('twice', j, NOW))
    # envelope money in an account without any real money, or with none left, or with money of another currency only
    for k in range(4):
        j = Journal()
        j.account('assets', ev('x'), ev('y', 3, kind='goal', target=amt(BIG, 'EUR' if k % 2 else '')))
        j.account('income')
        v, w = intvar('v', -99, 99), intvar('w', -99, 99)
        if k > 1:
            j.entry(D(2020, 1, 2), Post('assets', amt(F(7), '$')), Post('income'))
        if k == 3:
            j.entry(D(2020, 1, 3), Post('income'), Post('assets', amt(F(7), '$', neg=True)))
        j.entry(D(2020, 9, 3), Post('assets', amt(v), env='x'), Post('assets', amt(w, 'EUR' if k % 2 else ''), env='y'))
        out.append(show('poor%d' % k, j, NOW, seed=1 + k))
    # inferred spending changes the real balance and the envelope alike
    for k in range(2):
        j = Journal()
        j.account('assets', ev('x', for_=['food', 'eat']), ev('z', 3, kind='goal', for_=['rent']))
        j.account('food').account('income').account('rent').account('eat')
        v, w, u = intvar('v', 1, 999), intvar('w', 1, 99), intvar('u', 1, 99)
        j.entry(D(2020, 1, 2), Post('assets', amt(v)), Post('income'))
        j.entry(D(2020, 9, 3), Post('assets', amt(F(50)), env='x'), Post('assets', amt(F(50)), env='z'))
        if k:
            j.entry(D(2020, 9, 4), Post('food', amt(w)), Post('rent', amt(u)), Post('assets'))
        else:
            j.entry(D(2020, 9, 4), Post('food', amt(w)), Post('assets', amt(w, neg=True)))
            j.entry(D(2020, 9, 4), Post('assets', amt(u)), Post('eat'))
        out.append(show('spend%d' % k, j, NOW))
    # available after an automatic move: the report follows the move
    for k, f in enumerate(('aggressive', 'conservative')):
        sc = Sc('moved_' + f)
        e = Env('x', amt(F(500)), ('month', 1), 'due every 1st', funding=f)
        v, w = intvar('v', -50, 200), intvar('w', 1, 99)
        sc.file(J, 'account assets\n', e.text(), 'account income\n2020/01/02 * i\n    assets  ', v, '\n    income\n2020/09/03 * m\n    envelope assets x ', w, '\n')
        sc.run('e', '-f', J)

        def spec(p, v=v, w=w):
            if not accepted(p, p.runs[0]):
                return
            g = R.envelopes(p, p.runs[0])['assets']
            x = g['envs'][('expense', 'x')]
            p.must((x['now'] + x['next'] + g['available'].get('', Q(0))).near(p.num(v)), 'money appears or disappears in an automatic move')
            p.reach('shown')
        sc.spec = spec
        out.append(sc)
    out += wides(60 if tier == 'quick' else 300, lambda p, r, w: expect_envelopes(p, r, w.j, NOW, only='available'), ('e', '-n'), first=3000, envs=3, entries=(2, 4))
    return out


BOUNDS = 'up to 4 entries with up to 4 symbolic amounts (up to 3 digits, signed, or cents); three currencies; two accounts with envelopes; inferred spending; automatic moves of both methods'
OUTSIDE = 'longer journals'
