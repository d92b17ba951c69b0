"""C01: balances are exactly the sums of the postings."""
from datetime import date as D
from fractions import Fraction as F
import z3
from sf.core import *
from sf.model import *
from sf import reports as R
from sf.common import *
from sf.wide import wides


def scenarios(tier):
    T = tier == 'thorough'
    out = []

    # sums over several entries, signs in front, two decimals
    for k, n in enumerate((3, 6) if not T else (3, 6, 7, 16)):
        j = Journal()
        for a in ('assets:bank', 'expenses:food', 'income:job'):
            j.account(a)
        for i in range(n):
            v = intvar('a%d' % i, -999 if i < 7 and n < 10 or i < 3 else 1, 999, scale=100, width=1)
            a, b = [('assets:bank', 'expenses:food'), ('income:job', 'assets:bank'), ('expenses:food', 'assets:bank')][i % 3]
            ps = [Post(a, amt(v)), Post(b)]
            if i % 2:
                ps.reverse()
            j.entry(D(2020, 1, 1 + (i * 7) % 28), *ps)
        out.append(simple('sum%d' % n, j, seed=1 + k))

    # eight decimals and large figures
    j = Journal()
    j.account('a').account('b').account('c')
    v = [intvar('v%d' % i, 0, 30000, scale=100000000, width=6) for i in range(2)]
    w = intvar('w', -400, 200)
    j.entry(D(2020, 1, 1), Post('a', amt(v[0])), Post('b'))
    j.entry(D(2020, 1, 2), Post('b', amt(v[1])), Post('a'))
    j.entry(D(2020, 1, 3), Post('c', amt(w)), Post('a'))
    j.entry(D(2020, 1, 3), Post('c', amt(F(1234))), Post('a'))
    out.append(simple('decimals', j))

    # figures of nine to eleven digits, to the cent
    for k, lo in enumerate([123456700, 98765432100] if not T else [123456700, 4294967200, 98765432100]):
        j = Journal()
        j.account('a').account('b').account('c')
        v, w = intvar('v', lo, lo + 300, scale=100), intvar('w', lo, lo + 99, scale=100)
        j.entry(D(2020, 1, 1), Post('a', amt(v)), Post('b'))
        j.entry(D(2020, 1, 2), Post('a', amt(w, 'EUR')), Post('c'))
        j.entry(D(2020, 1, 2), Post('a', amt(F(7, 4))), Post('c'))
        out.append(simple('large%d' % k, j, seed=1 + k))

    # every assignment of accounts to postings, blank anywhere
    names = ['aa', 'ab', 'ba']
    out.append(assigned('assign1', names, 1, 3, 1))
    out.append(assigned('assign2', names, 2, 2, 2))
    if T:
        out.append(assigned('assign3', names[:2], 2, 3, 3))
        out.append(assigned('assign4', names, 1, 4, 4))
        out.append(assigned('assign5', names[:2], 3, 2, 5))

    # currencies: prefix, suffix, mixed in one entry and across entries
    j = Journal()
    j.account('w').account('x').account('y')
    a, b, c, d, e = [intvar(n, -99, 99) for n in 'abcde']
    j.entry(D(2020, 1, 1), Post('w', amt(a, '$')), Post('x'))
    j.entry(D(2020, 1, 2), Post('w', amt(b)), Post('x'))
    j.entry(D(2020, 1, 3), Post('w', amt(c, 'AAPL'), cost=amt(F(3))), Post('x', amt(d)), Post('y'))
    j.entry(D(2020, 1, 4), Post('y', amt(e, 'AAPL')), Post('w'))
    j.entry(D(2020, 1, 4), Post('y', amt(F(5, 2), '$')), Post('w', amt(F(-5, 2), '$')))
    out.append(simple('currencies', j))

    # three different currencies on one account in different entries
    j = Journal()
    j.account('w').account('x')
    syms = ['$', '', 'EUR', 'BTC']
    for i, s in enumerate(syms + syms[:3]):
        v = intvar('m%d' % i, -50, 50) if i < 4 else intvar('m%d' % i, 60, 99)
        j.entry(D(2020, 2, 1 + i), Post('x'), Post('w', amt(v, s)))
    out.append(simple('pool', j, seed=3))

    # currencies that look alike are different ones
    for k, (s, t) in enumerate([('eur', 'EUR'), ('$', 'US$'), ('E', 'EUR'), ('EUR', 'EURO'), ('k', 'K'), ('\u00e9', 'e'), ('ab', 'ba'), ('\u20ac', '$')]):
        j = Journal()
        j.account('w').account('x')
        j.entry(D(2020, 2, 1), Post('x'), Post('w', amt(intvar('m', -50, 50), s)))
        j.entry(D(2020, 2, 2), Post('w', amt(intvar('n', -50, 50), t)), Post('x'))
        j.entry(D(2020, 2, 3), Post('x', amt(F(100), s)), Post('w'))
        out.append(simple('alike%d' % k, j, seed=1 + k))

    # which currency: symbolic choice of the symbol of each posting
    out.append(symchoice('symbols', 2 if not T else 3))

    # envelope postings move nothing
    j = Journal()
    due = Env('food', amt(F(500)), ('month', 1), 'due every 1st')
    due2 = Env('rent', amt(F(700)), ('month', 5), 'due every 5th', kind='goal')
    j.account('assets:bank', due, due2)
    j.account('expenses:food')
    a, b, c, d = [intvar(n, -99, 99) for n in 'abcd']
    j.entry(D(2020, 1, 1), Post('assets:bank', amt(a)), Post('expenses:food'))
    j.entry(D(2020, 1, 5), Post('assets:bank', amt(b), env='food'))
    j.entry(D(2020, 1, 6), Post('assets:bank', amt(c), env='rent'), Post('assets:bank', amt(d)), Post('expenses:food'), Post('assets:bank', amt(b), env='food'))
    out.append(simple('envelopes', j))
    # envelope posting only, before anything else happens to the account
    j = Journal()
    j.account('assets:bank', Env('food', amt(F(500)), ('month', 1), 'due every 1st'))
    j.account('expenses:food')
    j.entry(D(2020, 1, 5), Post('assets:bank', amt(intvar('a', 1, 99)), env='food'))
    out.append(simple('only_env', j))

    # statuses, dates, comments, payees do not matter
    j = Journal()
    j.account('w').account('x')
    st = [choice('s%d' % i, ['*', '~', '?']) for i in range(2)]
    cm = choice('c', ['', ' ; 12', ' // $5', ' [Bob]', ' [Bob 7] ; x'])
    a, b = intvar('a', 1, 49), intvar('b', 50, 99)
    j.entry(D(2019, 12, 20), Post('w', amt(a)), Post('x'), status=st[0])
    en = Entry(D(2020, 9, 30), [Post('x', amt(b)), Post('w')])
    j.items += [['2020/09/30 ', st[1], ' y', cm, '\n'], [q.text() for q in en.posts]]
    j.entries.append(en)
    out.append(simple('trimmings', j))
    j = Journal()
    j.account('w').account('x')
    ds = [D(2019, 1, 1) + 7 * DAY * i for i in range(130)]
    dt = [datevar('d0', ds), datevar('d1', ds), datevar('d2', ds[80:])]
    a, b, c = intvar('a', 10, 19), intvar('b', 30, 49), intvar('c', 100, 150)
    j.entry(dt[0], Post('w', amt(a)), Post('x'))
    j.entry(dt[1], Post('w', amt(b)), Post('x'))
    j.entry(dt[2], Post('x'), Post('w', amt(c)))
    out.append(simple('dates', j))

    # more accounts than a line of the report has room for, long and short names, order of definition
    j = Journal()
    ns = ['z', 'expenses:' + 'q' * 70, 'assets:bank:checking', 'B', 'a1', 'a10', 'a2']
    for n in ns:
        j.account(n)
    for i, n in enumerate(ns[1:]):
        j.entry(D(2020, 1, 1 + i), Post(n, amt(intvar('a%d' % i, 1, 999))), Post('z'))
    out.append(simple('names', j, seed=5))

    # same account more than once in an entry
    j = Journal()
    j.account('w').account('x')
    a, b, c = [intvar(n, -99, 99) for n in 'abc']
    j.entry(D(2020, 1, 1), Post('w', amt(a)), Post('w', amt(b)), Post('x', amt(c)), Post('w'))
    j.entry(D(2020, 1, 1), Post('x', amt(a)), Post('x'))
    out.append(simple('twice', j))

    # entries that may be identical: each one counts
    j = Journal()
    j.account('w').account('x')
    ds = [D(2020, 1, 6), D(2020, 1, 13)]
    for i in range(3):
        j.entry(datevar('d%d' % i, ds), Post('w', amt(choice('v%d' % i, ['2', '3'], [F(2), F(3)]))), Post('x'), desc='coffee')
    out.append(simple('twins', j, seed=2))
    j = Journal()
    j.account('w').account('x')
    for i in range(3):
        q = Post('w', amt(choice('v%d' % i, ['2', '-2', '0'], [F(2), F(-2), F(0)])))
        j.entry(D(2020, 1, 6), q, Post('x'), Post('w', amt(F(2))), desc='coffee')
    out.append(simple('twin_postings', j, seed=2))
    # tiny amounts, zero amounts, past and future
    j = Journal()
    j.account('w').account('x').account('y').account('z')
    tiny = choice('t', ['0.00000001', '0.00000004', '0', '-0.00000002', '0.004', '-0.009'], [F(1, 10**8), F(4, 10**8), F(0), F(-2, 10**8), F(4, 1000), F(-9, 1000)])
    j.entry(D(1970, 1, 1), Post('w', amt(tiny)), Post('x'))
    j.entry(datevar('f', [D(2020, 9, 12), D(2020, 9, 19), D(2020, 9, 26), D(2090, 9, 16)]), Post('y', amt(intvar('a', -3, 3))), Post('w'))
    j.entry(D(2020, 9, 13), Post('y', amt(F(0))), Post('z', amt(F(0))))
    out.append(simple('tiny', j))
    # longer journals, one amount symbolic anywhere
    j = Journal()
    ns = ['assets:a', 'b', 'c', 'd']
    for n in ns:
        j.account(n)
    for i in range(60 if not T else 200):
        v = intvar('a%d' % i, -99, 99) if i in (0, 31, 59) else F((i * 37) % 101 - 50, 4)
        j.entry(D(2019, 1, 1) + DAY * ((i * 53) % 700), Post(ns[i % 4], amt(v)), Post(ns[(i * 7 + 1 + i % 4) % 4], amt(F(i))), Post(ns[(i // 3) % 4]))
    out.append(simple('long', j))
    # entries of many postings, in one and in several currencies
    for k, n in enumerate((9, 14)):
        j = Journal()
        ns = ['acc%02d' % i for i in range(n)]
        for a in ns:
            j.account(a)
        vs = [intvar('v%d' % i, -99, 99) if i in (0, 4, n - 2) else F(i * 3 - 7, 2) for i in range(n)]
        ps = [Post(ns[i], amt(vs[i])) for i in range(n)]
        ps[[3, n - 1][k]] = Post(ns[[3, n - 1][k]])
        j.entry(D(2020, 1, 3), *ps)
        j.entry(D(2020, 1, 2), Post(ns[-1], amt(F(2))), Post(ns[0]))
        out.append(simple('many%d' % n, j, seed=2 + k))
    j = Journal()
    j.account('w').account('x').account('y')
    for i, s in enumerate(['$', '', 'EUR', 'BTC', 'AAPL', '\u00a5', 'kg', 'h', 'GOLD']):
        j.entry(D(2020, 2, 1 + i), Post('x'), Post('w', amt(intvar('m%d' % i, 1, 50) if i in (0, 5, 8) else F(i), s)), Post('y', amt(F(3), s)))
    out.append(simple('pool9', j, seed=4))
    # automatic moves do not change a balance: without --no-move, and again a day later
    sc = Sc('moves')
    j = Journal()
    j.account('a', Env('n', amt(F(500)), ('month', 1), 'due every 1st', funding='aggressive', for_=['b']), Env('g', amt(F(70)), ('month', 15), 'due every 15th', funding='conservative', kind='goal'))
    j.account('b')
    v = intvar('v', -30, 99)
    j.entry(D(2020, 8, 6), Post('a', amt(v)), Post('b'))
    j.entry(D(2020, 8, 7), Post('a', amt(F(7)), env='n'), Post('a', amt(F(5))), Post('b'))
    sc.file(J, j.text())
    for k in range(2):
        sc.run('b', '-f', J, clock=NOW + DAY * k)

    def spec(p, j=j):
        for r in p.runs:
            expect_balances(p, r, balances(p, j.entries))
        p.reach('accepted')
    sc.spec = spec
    out.append(sc)
    out += wides(80 if tier == 'quick' else 400, lambda p, r, w: expect_balances(p, r, balances(p, w.j.entries)), ('b', '-n'), entries=(2, 4))
    return out


def assigned(name, names, n, m, seed):
    """n entries of m postings, each on any account; which posting is blank is symbolic, too"""
    sc = Sc(name, seed=seed)
    es = []
    txt = [['account ', a, '\n'] for a in names]
    for i in range(n):
        blank = Var('k%d' % i, m)
        acc = [choice('p%d_%d' % (i, t), names) for t in range(m)]
        val = [intvar('v%d_%d' % (i, t), 10, 99) for t in range(m)]
        sc.add(blank, *acc, *val)
        txt.append(['2020/01/0%d * x\n' % (i + 1)])
        for t in range(m):
            txt.append(['  ', acc[t], ' ', blank.as_text(lambda k, t=t: '; ' if k == t else '  '), val[t], '\n'])
        es.append((blank, acc, val))
    sc.file(J, txt)
    sc.run('bal', '-f', J, '--no-move')

    def spec(p):
        want, has = {}, {}
        for a_i, a in enumerate(names):
            tot, any_ = Q(0), z3.BoolVal(False)
            for blank, acc, val in es:
                nums = [p.num(v) for v in val]
                for t in range(m):
                    others = -qsum([nums[u] for u in range(m) if u != t])
                    here = p.is_(acc[t], a_i)
                    tot = tot + ite(here, ite(p.is_(blank, t), others, nums[t]), 0)
                    any_ = z3.Or(any_, here)
            want[a], has[a] = tot, any_
        r = p.runs[0]
        p.must(r.ok, 'the balance command fails: ' + r.err[-200:])
        if not r.ok:
            return
        got = R.balance(p, r)
        order = [a for a, _ in got]
        p.must(order == sorted(set(order)), 'accounts out of order or twice: %r' % order)
        g = dict(got)
        for a in names:
            if a not in g:
                p.must(z3.Not(has[a]), 'account %s is not listed' % a)
            else:
                p.must(Q.of(g[a].get('', 0)).near(want[a]), 'balance of %s is wrong' % a)
        p.reach('accepted')
    sc.spec = spec
    return sc


def symchoice(name, n):
    """each entry in one currency out of three, chosen symbolically"""
    sc = Sc(name)
    txt = ['account w\naccount x\n']
    es = []
    syms = ['$', 'EUR', '']
    for i in range(n):
        s = Var('s%d' % i, 3)
        v = intvar('v%d' % i, 10, 99)
        sc.add(s, v)
        txt.append(['2020/01/0%d * x\n  w  ' % (i + 1), s.as_text(lambda k: ['$', 'EUR ', ''][k]), v, '\n  x\n'])
        es.append((s, v))
    sc.file(J, txt)
    sc.run('balance', '-f', J, '--no-move')

    def spec(p):
        r = p.runs[0]
        p.must(r.ok, 'the balance command fails: ' + r.err[-200:])
        if not r.ok:
            return
        g = dict(R.balance(p, r))
        for a, f in (('w', 1), ('x', -1)):
            p.must(a in g, 'account %s is not listed' % a)
            if a not in g:
                continue
            for k, s in enumerate(syms):
                w = qsum([ite(p.is_(sv, k), p.num(v) * f, 0) for sv, v in es])
                p.must(Q.of(g[a].get(s, 0)).near(w), 'balance of %s in %r is wrong' % (a, s))
        p.reach('accepted')
    sc.spec = spec
    return sc


BOUNDS = 'journals of up to 7 accounts (16 entries thorough), each entry up to 4 postings (two of 9 and 14), up to 9 currencies; amounts symbolic over ranges up to 60001 values with 0-8 decimals, and over 100-301 values around 1.2, 43 and 988 million with cents; accounts, blank position, currency, status and date symbolic; hash seeds 1-5'
OUTSIDE = 'journals longer than the scenarios; amounts of more than 14 significant digits'
