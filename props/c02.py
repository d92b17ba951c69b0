"""C02: a blank amount balances its entry."""
from sf.common import *
from sf.wide import wides


def scenarios(tier):
    T = tier == 'thorough'
    out = []
    # n postings, blank at position k
    for n in (2, 3, 4) if not T else (2, 3, 4, 5, 6):
        for k in range(n):
            j = Journal()
            for i in range(n):
                j.account('acc%d' % i)
            vs = [intvar('v%d' % i, -99, 99, scale=10 if (n + k) % 2 else 1) for i in range(n)]
            j.entry(D(2020, 1, 1), *[Post('acc%d' % i, amt(vs[i]) if i != k else None) for i in range(n)])
            out.append(simple('pos%d_%d' % (n, k), j, seed=1 + k))
    # blank in one foreign currency, several notations
    for s in ('$', 'EUR', 'x'):
        j = Journal()
        j.account('a').account('b').account('c')
        v, w = intvar('v', -999, 999, scale=100, width=1), intvar('w', -999, 999, scale=100, width=1)
        j.entry(D(2020, 1, 1), Post('a', amt(v, s)), Post('b'), Post('c', amt(w, s)))
        out.append(simple('foreign_' + {'$': 'usd'}.get(s, s), j))
    # many postings
    n = 10
    for k in (0, 5, 9):
        j = Journal()
        for i in range(n):
            j.account('acc%d' % i)
        vs = [intvar('v%d' % i, -99, 99) if i in (1, 4, 8) else F(i * 5 - 12, 2) for i in range(n)]
        j.entry(D(2020, 1, 1), *[Post('acc%d' % i, amt(vs[i]) if i != k else None) for i in range(n)])
        out.append(simple('long_%d' % k, j, seed=1 + k))
        j = Journal()
        for i in range(n):
            j.account('acc%d' % i)
        q = intvar('q', 1, 20)
        ps = [Post('acc%d' % i, amt(F(i + 2), 'AAPL'), cost=amt(F(i, 2) + 1)) if i % 3 == 1 else Post('acc%d' % i, amt(vs[i]), ) for i in range(n)]
        ps[7] = Post('acc7', amt(q, 'AAPL'), cost=amt(F(3)))
        ps[k] = Post('acc%d' % k)
        j.entry(D(2020, 1, 1), *ps)
        out.append(simple('longmix_%d' % k, j, seed=1 + k))
    # foreign amounts that all carry costs, but no native posting: the blank is in their currency
    j = Journal()
    j.account('a').account('b').account('c')
    v, w = intvar('v', 1, 99), intvar('w', 1, 99)
    j.entry(D(2020, 1, 1), Post('a', amt(v, 'AAPL'), cost=amt(F(7))), Post('b', amt(w, 'AAPL'), total=amt(F(9))), Post('c'))
    out.append(simple('costs_only', j))

    # native and one foreign currency: unit price and total cost, blank anywhere
    for k in range(3):
        for how in ('unit', 'total'):
            j = Journal()
            j.account('a').account('b').account('c')
            q, c, v = intvar('q', -20, 20), intvar('c', 0, 300, scale=10), intvar('v', -99, 99)
            if how == 'unit':
                f = Post('b', amt(q, 'AAPL'), cost=amt(c))
            else:
                f = Post('b', amt(q, 'AAPL') if False else amt(intvar('q', 1, 20), 'AAPL'), total=amt(c))
            ps = [Post('a', amt(v)), f]
            ps.insert(k, Post('c'))
            j.entry(D(2020, 1, 1), *ps)
            out.append(simple('mixed_%s%d' % (how, k), j, seed=1 + k))
    # foreign first and native later, several of each
    j = Journal()
    for a in 'abcde':
        j.account(a)
    q = [intvar('q%d' % i, 1, 9) for i in range(2)]
    v = [intvar('v%d' % i, -99, 99) for i in range(2)]
    c = intvar('c', 1, 50)
    j.entry(D(2020, 1, 1), Post('a', amt(q[0], '$'), cost=amt(c)), Post('b', amt(v[0])), Post('c'), Post('d', amt(q[1], '$'), total=amt(F(33))), Post('e', amt(v[1])))
    out.append(simple('mixed_many', j))
    # the price of a price: several entries, each with its own
    if T:
        j = Journal()
        j.account('a').account('b').account('c')
        for i in range(3):
            j.entry(D(2020, 1, 1 + i), Post('c'), Post('a', amt(intvar('q%d' % i, -9, 9), 'BTC'), cost=amt(intvar('c%d' % i, 1, 99))), Post('b', amt(intvar('v%d' % i, 1, 99))))
        out.append(simple('mixed_entries', j))

    # envelope postings of the same entry do not count
    for k in range(4):
        j = Journal()
        j.account('a', Env('food', amt(F(500)), ('month', 1), 'due every 1st'), Env('usd', amt(F(500), '$'), ('month', 1), 'due every 1st'))
        j.account('b').account('c')
        e, v, w = intvar('e', -99, 99), intvar('v', -99, 99), intvar('w', -99, 99)
        ps = [Post('a', amt(v)), Post('b'), Post('c', amt(w))]
        ps.insert(k, Post('a', amt(e), env='food'))
        ps.insert(3 - k, Post('a', amt(F(3), '$'), env='usd'))
        j.entry(D(2020, 1, 1), *ps)
        out.append(simple('env%d' % k, j))
    # only a blank posting, alone or with envelope moves: nothing to balance
    for k in range(2):
        j = Journal()
        j.account('a', Env('food', amt(F(500)), ('month', 1), 'due every 1st'))
        j.entry(D(2020, 1, 1), *([Post('a')] + [Post('a', amt(intvar('e', 1, 99)), env='food')] * k))
        out.append(simple('lone%d' % k, j))

    # no native worth: refused
    out.append(no_worth('no_worth', 'b'))
    out.append(no_worth('no_worth_env', 'e'))
    out.append(no_worth('no_worth_reg', 'r'))
    out.append(no_worth('no_worth_move', 'b', move=True))
    out += wides(60 if tier == 'quick' else 300, lambda p, r, w: expect_balances(p, r, balances(p, w.j.entries)), ('b', '-n'), first=1000, kinds=['conv', 'conv', 'conv', 'free', 'blank', 'pair'], entries=(1, 3))
    return out


def no_worth(name, cmd, move=False):
    """the cost notation of a foreign posting is symbolic: native unit price, native total, none, or in a third currency"""
    sc = Sc(name)
    kinds = ['', ' @ 2', ' = 30', ' @ $2', ' = $30', ' @ 2 EUR', ' = 30 EUR', ' @ 0.5']
    worth = [None, lambda q: q * 2, lambda q: Q(30), None, None, None, None, lambda q: q * F(1, 2)]
    k = choice('k', kinds)
    pos = Var('pos', 3)
    v, q = intvar('v', 10, 99), intvar('q', 10, 20)
    sc.add(k, pos, v, q)
    txt = ['account assets:a\n    expense food due every 1st\n        amount 100\n        funding aggressive\naccount assets:b\naccount assets:c\n']
    blank = '    assets:c\n'
    txt += ['2020/01/01 * x\n', pos.as_text(lambda i: blank if i == 0 else '')]
    txt += ['    assets:a  ', v, '\n', pos.as_text(lambda i: blank if i == 1 else ''), '    assets:b  ', q, ' AAPL', k, '\n', pos.as_text(lambda i: blank if i == 2 else '')]
    txt += ['2020/01/02 * y\n    assets:a  5\n    assets:b\n']
    sc.file(J, txt)
    sc.run(cmd, '-f', J, *([] if move else ['-n']), tty=120)

    def spec(p):
        r = p.runs[0]
        good = [i for i in range(len(kinds)) if worth[i]]
        ok = p.among(k, good)
        if not r.ok:
            p.must(z3.Not(ok), 'a blank amount with a stated worth is refused: ' + r.err[-200:])
            refused(p, r, 'a blank amount that cannot be inferred')
            p.reach('refused')
            return
        p.must(ok, 'a blank amount is guessed although a foreign posting states no native worth')
        p.reach('accepted')
        if cmd != 'b':
            return
        for i in p.vals(k):
            if worth[i]:
                with p.given(p.is_(k, i)):
                    w = worth[i](p.num(q))
                    expect_balances(p, r, {'assets:a': {'': p.num(v) + 5}, 'assets:b': {'AAPL': p.num(q), '': Q(-5)}, 'assets:c': {'': -p.num(v) - w}})
    sc.spec = spec
    return sc


BOUNDS = 'entries of up to 6 postings (4 quick), and of 10 with three or four symbolic ones, with the blank at every position; amounts signed, up to 4 digits; quantities times prices up to 20 x 30.0; eight cost notations'
OUTSIDE = 'entries with two or more foreign currencies and a blank (always refused); more postings'
