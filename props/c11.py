"""C11: spending on a linked account draws from its envelope."""
from sf.common import *
from sf.wide import wides
from props.c09 import show, BIG, SCHED

M1 = SCHED[0][1:]


def scenarios(tier):
    T = tier == 'thorough'
    out = []
    R_ = 60 if not T else 400

    def acct(j, name='assets', for_=('food',), sch=M1, sym='', env='x', **k):
        j.account(name, Env(env, amt(BIG, sym), *sch, for_=list(for_), **k))
        return j

    # two postings; signs, order, which one is blank
    for k, (a, b, bl) in enumerate([('assets', 'food', 0), ('assets', 'food', 1), ('food', 'assets', 1), ('food', 'assets', 2), ('assets', 'food', 2)]):
        for d in (D(2020, 8, 31), D(2020, 9, 1)):
            j = acct(Journal()).account('food').account('other')
            v = intvar('v', -R_, R_)
            ps = [Post(a, amt(v) if bl != 0 else None), Post(b, amt(v, neg=True) if bl == 2 else None if bl == 1 else amt(v))]
            if bl == 2:   # a sign in front of a signed text: write the negation on its own
                vals = [-x for x in v.vals]
                w = [('-' if x < 0 else '0') + '%02d' % abs(x) for x in vals]
                sc_v = v
                ps = [Post(a, amt(v)), Post(b, A([{'v': 'v', 't': w}], lambda p, v=v: -p.num(v)))]
            j.entry(d, *ps)
            out.append(show('two%d_%d' % (k, d.day), j, seed=1 + k))
    # three postings: own account, linked account and a third one, all signs
    for k in range(3):
        j = acct(Journal()).account('food').account('other')
        v, w = intvar('v', -R_, R_), intvar('w', -R_, R_)
        names = [('assets', 'food', 'other'), ('food', 'assets', 'other'), ('other', 'assets', 'food')][k]
        ps = [Post(names[0], amt(v)), Post(names[1], amt(w)), Post(names[2])]
        if k == 1:
            ps = [ps[0], ps[2], ps[1]]
        j.entry(D(2020, 8, 20) if k == 2 else D(2020, 9, 5), *ps)
        out.append(show('three%d' % k, j, seed=1 + k))
    # several own and several linked postings; two linked accounts
    for k in range(2):
        j = acct(Journal(), for_=('food', 'fun')).account('food').account('fun').account('other')
        v, w, u = intvar('v', -30, 30), intvar('w', -30, 30), intvar('u', 1, 60)
        ps = [Post('assets', amt(v)), Post('food', amt(w)), Post('assets', amt(F(7))), Post('fun', amt(u)), Post('other' if k else 'assets')]
        j.entry(D(2020, 9, 2), *ps)
        out.append(show('groups%d' % k, j, seed=1 + k))
    # many linked accounts
    lk = ['food', 'fun', 'rent', 'gas', 'tea', 'zoo']
    for n in (3, 4, 6):
        j = acct(Journal(), for_=lk[:n])
        for x in lk:
            j.account(x)
        a = choice('a', lk)
        v = intvar('v', 1, 60)
        sc = Sc('linked%d' % n, seed=n)
        sc.file(J, j.text(), '2020/09/02 * x\n    assets  -', v, '\n    ', a, '\n')
        sc.run('e', '-f', J, '-n')

        def spec(p, a=a, v=v, j=j):
            for i in p.vals(a):
                with p.given(p.is_(a, i)):
                    if p.possible():
                        expect_envelopes(p, p.runs[0], j, NOW, entries=[Entry(D(2020, 9, 2), [Post('assets', amt(v, neg=True)), Post(lk[i])])], only='contents')
            p.reach('shown')
        sc.spec = spec
        out.append(sc)
    # entries of many postings
    for k in range(3):
        j = acct(Journal())
        for x in lk:
            j.account(x)
        v, w = intvar('v', -30, 30), intvar('w', 1, 30)
        ps = [Post(x, amt(F(2 + i))) for i, x in enumerate(lk[1:])] + [Post('rent', amt(F(5))), Post('fun', amt(F(1)))]
        ps.insert([0, 3, 7][k], Post('food', amt(v)))
        ps.insert([7, 2, 0][k], Post('assets', amt(w, neg=True)))
        ps.append(Post(['assets', 'food', 'zoo'][k]))
        j.entry(D(2020, 9, 2), *ps)
        out.append(show('long%d' % k, j, seed=1 + k))
    # which accounts an entry touches is symbolic: only both sides together count
    names = ['assets', 'food', 'other', 'asset', 'food:out', 'Food']
    j0 = acct(Journal())
    for n in names[1:]:
        j0.account(n)
    for k in range(2):
        a, b = choice('a', names), choice('b', names)
        v = intvar('v', 1, 99)
        sc = Sc('which%d' % k, seed=2 + k)
        sc.file(J, j0.text(), '2020/09/0%d * x\n    ' % (k + 1), a, '  -' if k else '  ', v, '\n    ', b, '\n')
        sc.run('e', '-f', J, '-n')

        def spec(p, a=a, b=b, v=v, k=k):
            for i in p.vals(a):
                for l in p.vals(b):
                    with p.given(z3.And(p.is_(a, i), p.is_(b, l))):
                        if p.possible():
                            es = [Entry(D(2020, 9, k + 1), [Post(names[i], amt(v, neg=bool(k))), Post(names[l])])]
                            expect_envelopes(p, p.runs[0], j0, NOW, entries=es, only='contents')
            p.reach('shown')
        sc.spec = spec
        out.append(sc)
    # entries that carry an envelope posting of their own cause no inferred change anywhere
    for k, e in enumerate(['envelope assets x  ', 'envelope assets y  ', 'envelope savings s  ']):
        j = Journal()
        j.account('assets', Env('x', amt(BIG), *M1, for_=['food']), Env('y', amt(BIG), *SCHED[3][1:], for_=['food'], kind='goal'))
        j.account('savings', Env('s', amt(BIG), *M1, for_=['food']))
        j.account('food')
        v, w = intvar('v', -R_, R_), intvar('w', -R_, R_)
        _, ac, nm = e.split()
        ps = [Post('assets', amt(v)), Post('food'), Post(ac, amt(w), env=nm)]
        if k == 1:
            ps = [ps[2], ps[0], ps[1]]
        j.entry(D(2020, 9, 2), *ps)
        out.append(show('manual%d' % k, j, seed=1 + k))
    # two envelopes for one account; envelopes of two accounts
    j = Journal()
    j.account('assets', Env('x', amt(BIG), *M1, for_=['food']), Env('y', amt(BIG), *SCHED[3][1:], for_=['food', 'fun'], kind='goal'))
    j.account('savings', Env('s', amt(BIG), *M1, for_=['fun']))
    j.account('food').account('fun')
    v, w = intvar('v', -R_, R_), intvar('w', -R_, R_)
    j.entry(D(2020, 9, 2), Post('assets', amt(v)), Post('food'))
    j.entry(D(2020, 9, 3), Post('savings', amt(w)), Post('fun'))
    j.entry(D(2020, 9, 3), Post('fun', amt(F(4))), Post('assets'))
    out.append(show('several', j, seed=3))
    # transfers between two accounts, each linked to the other
    j = Journal()
    j.account('checking', Env('x', amt(BIG), *M1, for_=['savings']))
    j.account('savings', Env('s', amt(BIG), *M1, for_=['checking'], kind='goal'))
    j.entry(D(2020, 9, 2), Post('checking', amt(intvar('v', -R_, R_))), Post('savings'))
    out.append(show('mutual', j))
    # several entries: each one counts on its own
    j = acct(Journal()).account('food').account('other')
    v, w, u = intvar('v', -20, 20), intvar('w', 1, 40), intvar('u', 1, 40)
    j.entry(D(2020, 9, 2), Post('assets', amt(v)), Post('food'))
    j.entry(D(2020, 8, 2), Post('assets', amt(w)), Post('food'))
    j.entry(D(2020, 7, 2), Post('food', amt(u)), Post('assets'))
    j.entry(D(2020, 7, 3), Post('assets', amt(F(5)), env='x'))
    out.append(show('history', j, seed=4))
    # dates around the last due date and today
    for k, (nm, sch, txt) in enumerate([SCHED[0], SCHED[3], SCHED[8], SCHED[9]] if not T else SCHED):
        j = acct(Journal(), sch=(sch, txt)).account('food')
        t0 = D(2020, 6, 30)
        ld = last_due(j.accounts['assets'][0], t0) or t0
        when = datevar('when', [ld + DAY * i for i in (-8, -1, 0, 1, 6)] + [t0, t0 + DAY])
        j.entry(when, Post('assets', amt(intvar('v', -R_, R_))), Post('food'))
        out.append(show('dates_' + nm, j, t0, seed=1 + k))
    # foreign amounts count at their stated worth
    for k in range(6):
        j = acct(Journal()).account('food').account('other')
        q, c, n = intvar('q', 1, 20), intvar('c', 1, 20), intvar('n', -99, 99)
        s = ['$', 'EUR'][k % 2]
        if k < 2:       # the linked posting is foreign
            ps = [Post('food', amt(q, s), cost=amt(c)) if k == 0 else Post('food', amt(q, s), total=amt(c)), Post('assets')] + ([Post('other', amt(n))] if k == 0 else [Post('other', amt(F(3)))])
        elif k < 4:     # the own posting is foreign
            ps = [Post('assets', amt(q, s, neg=k == 2), cost=amt(c)), Post('food', amt(n)), Post('other')]
        elif k == 4:    # both
            ps = [Post('assets', amt(q, s, neg=True), cost=amt(c)), Post('food', amt(F(3), s), cost=amt(c)), Post('other', amt(F(2)))]
        else:           # a third posting is foreign
            ps = [Post('assets', amt(n)), Post('other', amt(q, s), cost=amt(c)), Post('food')]
        j.entry(D(2020, 9, 2), *ps)
        out.append(show('foreign%d' % k, j, seed=1 + k))
    # an envelope in a foreign currency
    for k, s in enumerate(['$', 'EUR']):
        j = acct(Journal(), sym=s).account('food').account('other')
        v, w = intvar('v', -R_, R_), intvar('w', 1, 20)
        j.entry(D(2020, 9, 2), Post('assets', amt(v, s)), Post('food', amt(w, s)), Post('other'))
        j.entry(D(2020, 9, 2), Post('other', amt(v)), Post('assets'))
        out.append(show('symbol%d' % k, j, seed=1 + k))
    # the worth is not stated: refused rather than guessed
    j = acct(Journal()).account('food').account('other')
    how = choice('h', ['', ' @ 3', ' = 12', ' @ 3 EUR'])
    sc = Sc('unstated')
    sc.file(J, j.text(), '2020/09/02 * x\n    assets  -12\n    food  4 $', how, '\n')
    sc.run('e', '-f', J, '-n')

    def spec(p, how=how, j=j):
        if either(p, p.runs[0], p.among(how, [1, 2]), 'the entry'):
            expect_envelopes(p, p.runs[0], j, NOW, entries=[Entry(D(2020, 9, 2), [Post('assets', amt(F(-12))), Post('food', amt(F(4), '$'), total=amt(F(12)))])], only='contents')
    sc.spec = spec
    out.append(sc)
    out += wides(60 if tier == 'quick' else 300, lambda p, r, w: expect_envelopes(p, r, w.j, NOW, only='contents'), ('e', '-n'), first=4000, envs=2, kinds=['spend', 'spend', 'spend', 'move', 'mixmove', 'conv'], entries=(2, 4))
    return out


BOUNDS = 'entries of up to 5 (in part 9) postings with signed symbolic amounts; own, linked and unrelated accounts, symbolic in two places of an entry; up to 2 envelopes per account and 2 accounts; foreign quantities and prices 1..20; dates around the last due date and today'
OUTSIDE = 'postings on the envelope\'s own account when the envelope is also `for` that account; negative foreign quantities with a total cost'
