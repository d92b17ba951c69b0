"""C19: the register lists entries by date with correct running totals."""
from sf.common import *
from sf.wide import wides
from props.c09 import SCHED

M1 = SCHED[0][1:]


def isasset(n):
    return n.startswith('asset')


def change(p, e):
    """{sym: Q}: what the entry changes in the asset accounts"""
    r = {}
    for q, s, n, _ in e.resolved(p):
        if isasset(q.account):
            r[s] = r[s] + n if s in r else n
    return r


def expect_register(p, run, entries, fmt='%Y/%m/%d'):
    if not accepted(p, run):
        return
    rows = R.register(p, run)
    by = {e.desc: (i, e) for i, e in enumerate(entries)}
    seen, run_ = [], {}
    for r in rows:
        d = r['desc'].strip()
        p.must(d in by, 'the register lists %r' % d)
        if d not in by:
            return
        p.must(d not in seen, 'the register lists %r twice' % d)
        i, e = by[d]
        if e.date.var is None:
            p.must(p.text_is(r['date'], None, e.date.fixed.strftime(fmt)), 'the date of %s is %r' % (d, r['date']))
        else:
            p.must(p.text_is(r['date'], e.date.var, {k: e.date.vals[k].strftime(fmt) for k in p.vals(e.date.var)}), 'the date of %s is %r' % (d, r['date']))
        p.must(r['status'] == e.status, 'the status of %s is %r' % (d, r['status']))
        if seen:
            i0, e0 = by[seen[-1]]
            p.must(where(p, lambda a, b: a < b or (a == b and i0 < i), e0.date, e.date), '%s is listed after %s' % (d, seen[-1]))
        seen.append(d)
        ch = change(p, e)
        for s in sorted(set(ch) | set(r['amounts'])):
            w = ch.get(s, Q(0))
            run_[s] = run_[s] + w if s in run_ else w
            if s in r['amounts']:
                a, t = r['amounts'][s]
                p.must(a.near(w), 'the amount of %s in %r is wrong' % (d, s or 'native'))
                p.must(t.near(run_[s], tol=F(3, 10 ** 8)), 'the running total in %r after %s is wrong' % (s or 'native', d))
            else:
                p.must(w.near(0), 'the amount of %s in %r is not shown' % (d, s or 'native'))
    for e in entries:
        if e.desc not in seen:
            for s, w in change(p, e).items():
                p.must(w.near(0), '%s is missing' % e.desc)
    p.reach('%d rows' % len(rows))


def reg(name, j, seed=1, argv=('r', '-n'), fmt='%Y/%m/%d', clock=NOW, tty=100, **opts):
    sc = Sc(name, seed=seed, **opts)
    sc.file(J, j.text())
    sc.run(argv[0], '-f', J, *argv[1:], tty=tty, clock=clock)

    def spec(p):
        expect_register(p, p.runs[0], j.entries, fmt)
    sc.spec = spec
    return sc


def scenarios(tier):
    T = tier == 'thorough'
    out = []
    N = 40 if not T else 300

    def journal(*extra, head=''):
        j = Journal()
        if head:
            j.raw(head)
        j.account('assets').account('assets:cash').account('food').account('income')
        for a in extra:
            if isinstance(a, tuple):
                j.account(*a)
            else:
                j.account(a)
        return j

    def add(name, j, **k):
        out.append(reg(name, j, seed=1 + len(out), **k))
    # signs and running totals
    j = journal()
    for i in range(3):
        j.entry(D(2020, 8, 1 + i), Post('assets', amt(intvar('v%d' % i, -N, N))), Post('food'), desc='e%d' % i)
    add('totals', j)
    j = journal()
    for i in range(3):
        j.entry(D(2020, 8, 1 + i), Post('food', amt(intvar('v%d' % i, -N, N, scale=100))), Post('assets'), desc='e%d' % i, status='*~?'[i])
    add('blank', j)
    # order: symbolic dates, equal days keep the file order
    days = [D(2020, 8, 3), D(2020, 8, 4), D(2020, 9, 1), D(2019, 12, 31), D(2021, 1, 1)]
    for k in range(3):
        j = journal()
        d, e = datevar('d', days), datevar('e', days)
        j.entry(d, Post('assets', amt(intvar('v', 1, N))), Post('food'), desc='first')
        j.entry(D(2020, 8, 4), Post('assets', amt(F(7), neg=k == 1)), Post('food'), desc='second')
        if k != 1:
            j.entry(e if k else D(2020, 8, 4), Post('assets', amt(F(-3))), Post('food'), desc='third')
        if k == 0:
            j.entry(D(2020, 8, 4), Post('assets', amt(F(2))), Post('food'), desc='fourth')
        add('order%d' % k, j)
    # many entries of one day, and back and forth
    j = journal()
    v = intvar('v', -N, N)
    for i, dd in enumerate([5, 3, 5, 1, 5, 3, 4, 1]):
        j.entry(D(2020, 8, dd), Post('assets', amt(v if i == 2 else F(i + 1))), Post('food'), desc='e%d' % i)
    add('many', j)
    # entries of many postings among short ones on the same days
    for k in range(3):
        j = journal('x1', 'x2', 'x3', 'x4')
        v = intvar('v', -N, N)
        for i, (dd, n) in enumerate([(5, 5), (5, 1), (3, 2), (5, 4), (3, 5), (4, 3), (5, 0)] if k != 1 else [(5, 1), (5, 3), (5, 5), (5, 2)]):
            ps = [Post('assets', amt(v if i == k else F(i + 1)))] + [Post(['food', 'x1', 'x2', 'x3', 'x4'][h], amt(F(h + 1), neg=True)) for h in range(n)] + [Post('income')]
            j.entry(D(2020, 8, dd), *(ps[::-1] if k == 2 else ps), desc='e%d' % i, status='*~?'[(i + k) % 3])
        add('long%d' % k, j)
    # entries of a dozen postings and more, descriptions of many words
    for k, n in enumerate([11, 14, 18]):
        j = journal('x1', 'x2')
        v = intvar('v', -N, N)
        j.entry(D(2020, 8, 2), Post('assets', amt(F(5))), Post('food'), desc=' '.join('w%d' % i for i in range(9 * k + 4)))
        ps = [Post(['food', 'assets:cash', 'x1', 'assets', 'x2'][i % 5], amt(F(i + 1), neg=i % 3 == 1)) for i in range(n)]
        ps.insert(n * k // 2, Post('assets', amt(v)))
        j.entry(D(2020, 8, 1), *ps, Post('income'), desc='long')
        j.entry(D(2020, 8, 3), Post('assets', amt(F(2))), Post('income'), desc='last')
        add('dozen%d' % k, j)
    # which accounts are assets
    names = ['assets', 'asset', 'assets:cash', 'food', 'my:assets', 'Assets', 'liabilities']
    for k in range(2):
        a, b = choice('a', names), choice('b', names)
        v = intvar('v', 1, N)
        sc = Sc('which%d' % k, seed=3 + k)
        sc.file(J, ''.join('account %s\n' % n for n in names), '2020/08/01 * one\n    ', a, '  ', '-' if k else '', v, '\n    ', b, '\n2020/08/02 * two\n    assets  5\n    food\n')
        sc.run('r', '-f', J, '-n', tty=100)

        def spec(p, a=a, b=b, v=v, k=k):
            n = -p.num(v) if k else p.num(v)
            for i in p.vals(a):
                for h in p.vals(b):
                    with p.given(p.is_(a, i), p.is_(b, h)):
                        if p.possible():
                            expect_register(p, p.runs[0], [Entry(D(2020, 8, 1), [Post(names[i], A([], n)), Post(names[h])], desc='one'), Entry(D(2020, 8, 2), [Post('assets', amt(F(5))), Post('food')], desc='two')])
        sc.spec = spec
        out.append(sc)
    # several asset postings in one entry, transfers
    j = journal()
    v, w = intvar('v', -N, N), intvar('w', -N, N)
    j.entry(D(2020, 8, 1), Post('assets', amt(v)), Post('assets:cash', amt(w)), Post('food'), desc='both')
    j.entry(D(2020, 8, 2), Post('assets', amt(v)), Post('assets:cash'), desc='transfer')
    j.entry(D(2020, 8, 3), Post('food', amt(w)), Post('income'), desc='elsewhere')
    j.entry(D(2020, 8, 4), Post('assets', amt(F(3))), Post('assets', amt(F(4))), Post('income'), desc='twice')
    add('several', j)
    # currencies
    for k, s in enumerate(['$', 'EUR']):
        j = journal()
        v, w = intvar('v', -N, N), intvar('w', -N, N)
        j.entry(D(2020, 8, 1), Post('assets', amt(v, s)), Post('food'), desc='one')
        j.entry(D(2020, 8, 2), Post('assets', amt(w)), Post('food'), desc='two')
        j.entry(D(2020, 8, 3), Post('assets', amt(F(5), s)), Post('income'), desc='three')
        j.entry(D(2020, 8, 3), Post('assets', amt(F(5))), Post('income'), desc='four')
        add('currency%d' % k, j)
        j = journal()
        v = intvar('v', 1, N)
        j.entry(D(2020, 8, 1), Post('assets', amt(F(100))), Post('income'), desc='one')
        j.entry(D(2020, 8, 2), Post('assets', amt(v, s), cost=amt(F(2))), Post('assets:cash'), desc='conversion')
        j.entry(D(2020, 8, 3), Post('assets', amt(v, s, neg=True), total=amt(F(30))) if k else Post('assets', amt(F(4), s), cost=amt(F(3))), Post('food', amt(F(5))), Post('assets'), desc='back')
        j.entry(D(2020, 8, 4), Post('assets', amt(F(1), s)), Post('income'), desc='last')
        add('convert%d' % k, j)
    # one currency comes and goes within the entry, another changes; in either order, up to three
    for k in range(4):
        j = journal()
        v, w = intvar('v', -N, N), intvar('w', -N, N)
        j.entry(D(2020, 8, 1), Post('assets', amt(F(100))), Post('income'), desc='one')
        ps = [Post('assets', amt(F(9), 'EUR')), Post('assets:cash', amt(F(9), 'EUR', neg=True)), Post('assets', amt(v, '$')), Post('food', amt(w))]
        if k > 1:
            ps += [Post('assets', amt(w)), Post('assets:cash', amt(v, 'EUR'))]
        j.entry(D(2020, 8, 2), *(ps[::-1] if k % 2 else ps), desc='mixed')
        j.entry(D(2020, 8, 3), Post('assets', amt(F(2), '$')), Post('income'), desc='three')
        add('comes%d' % k, j)
    # many currencies in one entry, and one after the other; many entries
    cs = ['', '$', 'EUR', 'BTC', 'AAPL', 'kg', 'GOLD']
    for k in range(2):
        j = journal()
        v = intvar('v', -N, N)
        j.entry(D(2020, 8, 1), Post('assets', amt(F(100))), Post('income'), desc='one')
        j.entry(D(2020, 8, 2), *[Post('assets', amt(v if i in (0, 5) else F(i + 2), c)) for i, c in enumerate(cs[::-1] if k else cs)], desc='mixed')
        for i, c in enumerate(cs):
            j.entry(D(2020, 8, 3 + i), Post('assets', amt(F(i + 1), c)), Post('income'), desc='e%d' % i)
        add('pool%d' % k, j)
    j = journal()
    for i in range(30):
        j.entry(D(2020, 8, 1 + (i * 11) % 29), Post('assets', amt(intvar('v%d' % i, -N, N) if i == 17 else F(i - 9, 4))), Post('food'), desc='e%d' % i, status='*~?'[i % 3])
    add('crowd', j)
    # envelope moves are no entries of the register, nor count
    j = journal(('assets:bank', Env('x', amt(F(1000)), *M1, for_=['food'])))
    v, w = intvar('v', -N, N), intvar('w', -N, N)
    j.entry(D(2020, 8, 1), Post('assets:bank', amt(v)), Post('income'), desc='one')
    j.entry(D(2020, 8, 2), Post('assets:bank', amt(w), env='x'), desc='move')
    j.entry(D(2020, 8, 3), Post('assets:bank', amt(w)), Post('assets:bank', amt(F(9)), env='x'), Post('food'), desc='mixed')
    j.entry(D(2020, 8, 4), Post('food', amt(F(3))), Post('assets:bank'), desc='spent')
    add('envelopes', j)
    # with the automatic move of the day
    j = journal(('assets:bank', Env('x', amt(F(50)), *M1, funding='aggressive')))
    j.entry(D(2020, 8, 1), Post('assets:bank', amt(intvar('v', -N, N))), Post('income'), desc='one')
    j.entry(D(2020, 10, 1), Post('food', amt(intvar('w', -N, N))), Post('assets'), desc='two')
    add('automatic', j, argv=('r',))
    # date formats, names, widths
    j = Journal()
    j.fmt = '%d.%m.%Y'
    j.raw('date_format %d.%m.%Y\n').account('assets:a-very-long:account-name').account('b')
    d = datevar('d', days, '%d.%m.%Y')
    j.entry(d, Post('assets:a-very-long:account-name', amt(intvar('v', -N, N))), Post('b'), desc='a rather long description of an entry', status='?')
    j.entry(D(2020, 8, 10), Post('assets:a-very-long:account-name', amt(F(1234567))), Post('b'), desc='b', payee='someone')
    for w in (100, 20):
        add('format%d' % w, j, tty=w, fmt='%d.%m.%Y')
    # included and unsorted
    sc = Sc('included', seed=4)
    v = intvar('v', -N, N)
    sc.file(J, 'account assets\naccount b\n2020/08/05 * main\n    assets  3\n    b\ninclude s/i.sfox\n2020/08/01 * last\n    assets  1\n    b\n')
    sc.file('/w/s/i.sfox', '2020/08/05 * inc\n    assets  ', v, '\n    b\n2020/07/05 * early\n    b  9\n    assets\n')
    sc.run('r', '-f', J, '-n', tty=100)

    def spec(p, v=v):
        expect_register(p, p.runs[0], [Entry(D(2020, 8, 5), [Post('assets', amt(F(3))), Post('b')], desc='main'), Entry(D(2020, 8, 5), [Post('assets', amt(v)), Post('b')], desc='inc'),
                                       Entry(D(2020, 7, 5), [Post('b', amt(F(9))), Post('assets')], desc='early'), Entry(D(2020, 8, 1), [Post('assets', amt(F(1))), Post('b')], desc='last')])
    sc.spec = spec
    out.append(sc)
    # equal entries are all listed
    sc = Sc('equal', seed=2)
    v = intvar('v', 1, N)
    sc.file(J, 'account assets\naccount b\n', [['2020/08/05 * same\n    assets  ', v, '\n    b\n'] for _ in range(3)])
    sc.run('r', '-f', J, '-n', tty=100)

    def spec(p, v=v):
        if not accepted(p, p.runs[0]):
            return
        rows = R.register(p, p.runs[0])
        p.must(len(rows) == 3, '%d of 3 equal entries are listed' % len(rows))
        for i, r in enumerate(rows):
            a, t = r['amounts'].get('', (Q(0), Q(0)))
            p.must(a.near(p.num(v)), 'amount of row %d' % i)
            p.must(t.near(p.num(v) * Q(i + 1)), 'running total of row %d' % i)
        p.reach('rows')
    sc.spec = spec
    out.append(sc)
    out += wides(60 if tier == 'quick' else 300, lambda p, r, w: expect_register(p, r, w.j.entries), ('r', '-n'), first=5000, tty=100, reg=True, envs=1, entries=(2, 4))
    return out


BOUNDS = 'up to 8 entries of up to 4 postings, 7 accounts, 2 currencies (in part 30 entries, 7 currencies); amounts symbolic (up to 40, cents up to 0.40; 300 thorough), up to two symbolic dates among five days, symbolic account names; prices; envelope postings and automatic moves; terminal widths 20 and 100'
OUTSIDE = 'the columns that name the accounts; runs without a terminal'
