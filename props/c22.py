"""C22: the declared currency and the blank currency are one."""
from sf.common import *
from props.c09 import SCHED, BIG
from props.c19 import expect_register
from props.c15 import CSV, RULES

M1 = SCHED[0][1:]


def scenarios(tier):
    T = tier == 'thorough'
    out = []
    SYMS = [('$', 'pre'), ('€', 'post'), ('USD', 'post'), ('USD', 'pre'), ('kr', 'tight'), ('$', 'mpre'), ('BITCOIN', 'post'), ('Schilling', 'pre')]
    cnt = [0]

    def N(v, sym='$', style='pre', how=None):
        """a native amount, written with the symbol or without (symbolically, unless how says)"""
        cnt[0] += 1
        c = lambda t: choice('s%d' % cnt[0], ['', t]) if how is None else t if how else ''
        if isinstance(v, Var):
            val = lambda p: p.num(v)
            body = v
        else:
            val = F(v)
            body = '%s' % (int(v) if F(v).denominator == 1 else float(v))
        parts = {'pre': [c(sym), body], 'post': [body, c(' ' + sym)], 'tight': [body, c(sym)], 'mpre': [c(sym), body]}[style]
        return A(parts, val, '')

    def run(name, j, judge, cmd='b', move=False, sym='$', clock=NOW, pre='currency %s\n', files=()):
        sc = Sc(name, seed=1 + len(out) % 6)
        sc.file(J, pre % sym if '%s' in pre else pre, j.text())
        for f, t in files:
            sc.file(f, t)
        sc.run(cmd, '-f', J, *([] if move else ['-n']), clock=clock, tty=120)

        def spec(p):
            p.native = sym
            judge(p, p.runs[0])
        sc.spec = spec
        out.append(sc)
    bal = lambda j: lambda p, r: (expect_balances(p, r, balances(p, j.entries)), p.reach('done'))
    env = lambda j, today=NOW: lambda p, r: (expect_envelopes(p, r, j, today), p.reach('done'))
    reg = lambda j: lambda p, r: expect_register(p, r, j.entries)

    def mov(j, exact=True):
        def f(p, r):
            if accepted(p, r):
                p.reach('moved' if check_moves(p, r, j, NOW, exact=exact) else 'nothing moved')
        return f

    def gate(cond):
        return lambda p, r: either(p, r, cond(p), 'an entry in native currency')
    # balances
    for k, (s, st) in enumerate(SYMS):
        j = Journal().account('a').account('b').account('c')
        v, w, u = intvar('v', -99, 99), intvar('w', -99, 99), intvar('u', 0, 99)
        j.entry(D(2020, 1, 2), Post('a', N(v, s, st)), Post('b'))
        j.entry(D(2020, 1, 3), Post('b'), Post('a', N(w, s, st)))
        j.entry(D(2020, 1, 3), Post('a', N(u, s, st)), Post('b', N(3, s, st)), Post('c'))
        j.entry(D(2020, 1, 4), Post('a', amt(F(4), 'GBP')), Post('c'))
        run('sums%d' % k, j, bal(j), sym=s)
    # one entry: accepted iff the sum over both spellings is zero
    for k, (s, st) in enumerate(SYMS):
        for n in (2, 3):
            vs = [intvar('v%d' % i, -30, 30) for i in range(n)]
            j = Journal().account('a').account('b').account('c')
            j.entry(D(2020, 1, 2), *[Post('abc'[i], N(vs[i], s, st)) for i in range(n)])
            run('zero%d_%d' % (k, n), j, gate(lambda p, vs=vs: qsum([p.num(v) for v in vs]).same(0)), sym=s)
    # the blank amount next to a foreign one: prices and totals in either spelling
    for k in range(4):
        j = Journal().account('a').account('b').account('c')
        v, q, c = intvar('v', -30, 30), intvar('q', 1, 20), intvar('c', 1, 20)
        f = dict(cost=N(c)) if k % 2 else dict(total=N(c))
        ps = [Post('a', amt(q, 'GBP'), **f), Post('b', N(v)), Post('c')]
        if k > 1:
            ps = [ps[2], ps[1], ps[0]]
        j.entry(D(2020, 1, 2), *ps)
        run('cost%d' % k, j, bal(j))
    # a declared symbol with a price of its own stays native
    j = Journal().account('a').account('b').account('c')
    v, w = intvar('v', 1, 30), intvar('w', 1, 30)
    j.entry(D(2020, 1, 2), Post('a', N(v)), Post('b', N(w)), Post('c', amt(F(2), 'GBP'), cost=N(5)), Post('b'))
    run('all', j, bal(j))
    # envelopes: target, contents, available
    for k, (s, st) in enumerate(SYMS[:3] if not T else SYMS):
        j = Journal()
        j.account('a', Env('x', N(BIG, s, st), *M1), Env('y', N(BIG, s, st, how=k % 2), *SCHED[3][1:], kind='goal')).account('b')
        v, w, u = intvar('v', 1, 999), intvar('w', 1, 99), intvar('u', 1, 99)
        j.entry(D(2020, 1, 2), Post('a', N(v, s, st)), Post('b'))
        j.entry(D(2020, 8, 2), Post('a', N(w, s, st), env='x'))
        j.entry(D(2020, 9, 2), Post('a', N(u, s, st), env='x'))
        j.entry(D(2020, 9, 3), Post('a', N(7, s, st), env='y'))
        run('envelopes%d' % k, j, env(j), cmd='e', sym=s)
    # spending on a linked account
    for k in range(3):
        j = Journal()
        j.account('a', Env('x', N(BIG), *M1, for_=['f'])).account('f').account('o')
        v, w = intvar('v', 1, 99), intvar('w', 1, 99)
        if k == 0:
            j.entry(D(2020, 9, 3), Post('f', N(v)), Post('a'))
            j.entry(D(2020, 8, 3), Post('a', N(w)), Post('f'))
        elif k == 1:
            j.entry(D(2020, 9, 3), Post('f', N(v)), Post('a', N(w)), Post('o'))
        else:
            j.entry(D(2020, 9, 3), Post('f', amt(v, 'GBP'), cost=N(2)), Post('a', N(w)), Post('o'))
        run('linked%d' % k, j, env(j), cmd='e')
    # automatic moves
    for k, fu in enumerate(['aggressive', 'conservative', 'aggressive']):
        s, st = SYMS[k]
        j = Journal()
        j.account('a', Env('x', N(100, s, st), *M1, funding=fu)).account('b')
        v, w = intvar('v', 0, 200), intvar('w', 0, 120)
        j.entry(D(2020, 1, 2), Post('a', N(v, s, st)), Post('b'))
        j.entry(D(2020, 9, 2), Post('a', N(w, s, st), env='x'))
        run('move%d' % k, j, mov(j), move=True, sym=s)
    j = Journal()
    j.account('a', Env('x', N(60), *M1, funding='aggressive'), Env('y', N(50), *M1, funding='aggressive', kind='goal')).account('b')
    v, w = intvar('v', -50, 150), intvar('w', 0, 99)
    j.entry(D(2020, 1, 2), Post('a', N(v)), Post('b'))
    j.entry(D(2020, 1, 2), Post('a', N(w)), Post('b'))
    run('moves', j, mov(j), move=True)
    # after the move, another run of the same day sees native money, too
    sc = Sc('again')
    j = Journal()
    j.account('a', Env('x', N(60), *M1, funding='aggressive')).account('b')
    v = intvar('v', 1, 150)
    j.entry(D(2020, 1, 2), Post('a', N(v)), Post('b'))
    sc.file(J, 'currency $\n', j.text())
    sc.run('b', '-f', J)
    sc.run('e', '-f', J, clock=NOW + DAY, tty=120)

    def spec(p, j=j):
        p.native = '$'
        if not accepted(p, p.runs[0]):
            return
        ms = check_moves(p, p.runs[0], j, NOW, exact=True)
        es = list(j.entries) + ([as_entry(ms, NOW)] if ms else [])
        if not accepted(p, p.runs[1]):
            return
        m2 = check_moves(p, p.runs[1], j, NOW + DAY, entries=es, exact=True)
        expect_envelopes(p, p.runs[1], j, NOW + DAY, entries=es + ([as_entry(m2, NOW + DAY)] if m2 else []))
        p.reach('again')
    sc.spec = spec
    out.append(sc)
    # register
    for k in range(3):
        s, st = SYMS[k]
        j = Journal().account('assets:a').account('assets:b').account('ex')
        v, w, u = intvar('v', 1, 99), intvar('w', -99, 99), intvar('u', 1, 99)
        j.entry(D(2020, 1, 2), Post('assets:a', N(v, s, st)), Post('ex'), desc='one')
        if k == 0:
            j.entry(D(2020, 1, 3), Post('assets:a', N(w, s, st)), Post('assets:b', N(u, s, st)), Post('ex'), desc='two')
        else:
            j.entry(D(2020, 1, 3), Post('ex', N(w, s, st)), Post('assets:b'), desc='two')
            j.entry(D(2020, 1, 1), Post('assets:b', amt(u, 'GBP')), Post('ex'), desc='three')
        run('register%d' % k, j, reg(j), cmd='r', sym=s)
    # balance assertions
    for k, (s, st) in enumerate(SYMS):
        j = Journal().account('a').account('b')
        u, v, w = intvar('u', -40, 40), intvar('v', -40, 40), intvar('w', 0, 90)
        j.entry(D(2020, 1, 2), Post('a', N(u, s, st)), Post('b'))
        x, y = N(v, s, st), N(w, s, st)
        j.raw('2020/01/03 * x\n    a  ', x.parts, ' ! ', y.parts, '\n    b\n')
        run('assert%d' % k, j, gate(lambda p, u=u, v=v, w=w: (p.num(u) + p.num(v)).same(p.num(w))), sym=s)
    # the declaration in an included file, and amounts there
    j = Journal().account('a').account('b')
    v, w = intvar('v', -99, 99), intvar('w', -99, 99)
    j.entry(D(2020, 1, 2), Post('a', N(v)), Post('b'))
    j.entry(D(2020, 1, 2), Post('a', N(w)), Post('b'))
    run('inc0', j, bal(j), pre='include k.sfox\n', files=[('/w/k.sfox', 'currency $\n')])
    j2 = Journal()
    j2.entry(D(2020, 1, 2), Post('a', a1 := N(intvar('u', -99, 99))), Post('b'))
    j = Journal().account('a').account('b')
    v = intvar('v', -99, 99)
    j.entry(D(2020, 1, 2), Post('a', N(v)), Post('b'))
    j.raw('include k.sfox\n')
    j.entries += j2.entries
    run('inc1', j, bal(j), files=[('/w/k.sfox', j2.text())])
    # without a declaration, or with another one, the symbol is a currency of its own
    for k, pre in enumerate(['', 'currency GBP\n', 'currency $$\n', 'currency U\n', 'currency USD\n', 'currency us\n', 'currency Us\n']):
        s = '$' if k < 3 else 'US'
        j = Journal().account('a').account('b')
        v, w = intvar('v', 1, 99), intvar('w', 1, 99)
        j.entry(D(2020, 1, 2), Post('a', amt(v, s)), Post('b'))
        j.entry(D(2020, 1, 2), Post('a', amt(w)), Post('b'))
        run('other%d' % k, j, bal(j), sym='no such', pre=pre)
    # imported amounts
    for k in range(2):
        sc = Sc('import%d' % k)
        j = Journal().account('a').account('b').account('unknown').account('income:unknown').account('expenses:unknown')
        v, w = intvar('v', 1, 99), intvar('w', 1, 99)
        a, b = N(v), N(w)
        j.entry(D(2020, 1, 2), Post('a', a), Post('b'))
        sc.file(J, 'currency $\n', j.text())
        sc.file(CSV, 'd,t,x\n2020/03/04,pay,', b.parts, '\n')
        sc.file(RULES, 'fields date,description,amount\naccount a\n' + ('account2 b\n' if k else ''))
        sc.run('i', '-f', J, '-n', '--csv', CSV)
        sc.run('b', '-f', J, '-n')

        def spec(p, j=j, w=w, k=k):
            p.native = '$'
            if accepted(p, p.runs[0]):
                e = Entry(D(2020, 3, 4), [Post('a', A([], lambda p: p.num(w), '')), Post('b' if k else 'income:unknown')])
                expect_balances(p, p.runs[1], balances(p, j.entries + [e]))
                p.reach('imported')
        sc.spec = spec
        out.append(sc)
    return out


BOUNDS = 'the symbols $ € USD kr BITCOIN Schilling (and symbols that only look like the declared one) before or after the number; each amount, price, total, target and move with the symbol or without (all 2^n combinations, n up to 6); amounts -99..99; every report, automatic moves on two days, imports, the declaration in the journal or an included file'
OUTSIDE = 'amounts written before the declaration; several declarations in one journal'
