"""C16: whatever silverfox writes, it reads back as the same entries."""
from sf.common import *
from sf.wide import wides
from props.c09 import SCHED, BIG
from props.c15 import CSV, RULES

M1 = SCHED[0][1:]


def outcome(p, j, entries, today, cmd, run, what):
    if cmd == 'b':
        expect_balances(p, run, balances(p, entries))
    else:
        expect_envelopes(p, run, j, today, entries, what=what)


def roundtrip(name, j, today=NOW, cmds=('b', 'b', 'e'), seed=1, fmt='%Y/%m/%d', exact=False, **opts):
    """a run that moves; two more runs read what it wrote"""
    sc = Sc(name, seed=seed, **opts)
    sc.file(J, j.text())
    for i, c in enumerate(cmds):
        sc.run(c, '-f', J, *([] if i < 2 else ['-n']), clock=today, tty=100, seed=seed + 3 * i)

    def spec(p):
        if not accepted(p, p.runs[0]):
            return
        ms = moves(p, p.runs[0], today, fmt=fmt)
        judge_moves(p, ms, j, today, exact=exact)
        es = j.entries + ([as_entry(ms, today)] if ms else [])
        p.reach('moved' if ms else 'nothing')
        for i in range(1, len(cmds)):
            if not accepted(p, p.runs[i], 'the journal after the move'):
                return
            untouched(p, p.runs[i], 'run %d' % i)
            outcome(p, j, es, today, cmds[i], p.runs[i], ' after the move')
    sc.spec = spec
    return sc


FORMATS = ['%Y-%m-%d', '%d.%m.%Y', '%m/%d/%Y', '%e.%m.%Y', '%-d.%-m.%Y', '%d%b%Y', '%Y%m%d', '%y.%m.%d', '%B-%d-%Y', '%F', '%j,%Y', '%a,%d.%m.%Y', '%Y/%m/%d%%', '%Y.%m.%d']


def strf(d, f):
    return d.strftime(f)


def scenarios(tier):
    T = tier == 'thorough'
    out = []

    def env(name='x', target=F(100), sch=M1, funding='aggressive', **k):
        return Env(name, amt(target) if not isinstance(target, A) else target, *sch, funding=funding, **k)
    # every date format, days with one and two digits
    for k, f in enumerate(FORMATS):
        j = Journal()
        j.fmt = f
        j.raw('date_format ', f, '\n')
        e = env('x', F(100))
        e2 = env('y', F(36), SCHED[3][1:], kind='goal')
        j.account('a', e, e2).account('b')
        v = intvar('v', 1, 60)
        j.entry(D(2020, 8, 10), Post('a', amt(v)), Post('b'))
        today = datevar('today', [D(2020, 9, 8), D(2020, 10, 12), D(2020, 12, 31)] if not T else [D(2020, 9, 1) + DAY * 5 * i for i in range(40)])
        out.append(roundtrip('format%d' % k, j, today, cmds=('b', 'b', 'b'), seed=1 + k, fmt=f.replace('%e', '%-d')))
    # a format in which dates cannot be read back: nothing is written
    for k, f in enumerate(['%d.%m.', '%Y', '%H:%M', 'today', '%m/%y', '%Y/%m/%e']):
        sc = Sc('lossy%d' % k)
        v = intvar('v', 1, 60)
        j = Journal()
        j.raw('date_format ', f, '\n')
        j.account('a', env()).account('b').account('c', Env('z', amt(F(5)), *M1))
        inc = 'date_format %Y/%m/%d\n2020/08/10 * x\n    a  '
        sc.file('/w/i.sfox', inc, v, '\n    b\n')
        sc.file(J, 'include i0.sfox\ninclude i.sfox\n', 'date_format ' + f + '\n')
        sc.file('/w/i0.sfox', [t for t in j.items[1:]])
        sc.run('b', '-f', J, clock=datevar('today', [D(2020, 9, 8), D(2020, 10, 12)]))
        sc.run('b', '-f', J, '-n', clock=D(2020, 10, 13), seed=2)

        def spec(p, f=f, v=v):
            p.must(not p.runs[0].crashed, 'crash')
            t = appended(p, p.runs[0])
            if p.runs[0].err:
                p.must(t == '', 'a failed run adds to the journal')
                p.reach('refused')
            else:
                p.reach('written' if t else 'nothing')
            if not (p.runs[0].err and not t):
                accepted(p, p.runs[1], 'the journal after the run')
            elif f != 'today' and not p.runs[1].err:
                expect_balances(p, p.runs[1], {'a': {'': p.num(v)}, 'b': {'': -p.num(v)}})
        sc.spec = spec
        out.append(sc)
    # amounts: thirds, cents, millions, several envelopes
    for k, (fs, tg) in enumerate([(('conservative', 'conservative'), (F(100), F(70))), (('conservative', 'aggressive'), (F(1234567), F(777, 100))), (('aggressive', 'conservative'), (F(1, 100), F(5, 1000))), (('aggressive', 'aggressive'), (F(123456789, 1000), F(765432101234, 10 ** 6)))]):
        j = Journal()
        j.account('a', env('x', tg[0], funding=fs[0]), env('y', tg[1], SCHED[3][1:], fs[1], kind='goal')).account('b')
        j.entry(D(2020, 8, 1), Post('a', amt(intvar('v', 0, 300) if k == 0 else F(9999999))), Post('b'))
        if k:
            j.entry(D(2020, 9, 2), Post('a', amt(intvar('w', 1, 99)), env='x'))
        out.append(roundtrip('amounts%d' % k, j, cmds=('b', 'b', 'b'), seed=1 + k, exact=k in (0, 3)))
    for k, f in enumerate(['aggressive', 'conservative']):
        j = Journal()
        j.account('a', env('x', BIG, funding=f)).account('b')
        j.entry(D(2020, 8, 1), Post('a', amt(intvar('v', 0, 300))), Post('b'))
        out.append(roundtrip('contents%d' % k, j, cmds=('e', 'e', 'e'), seed=1 + k))
    # currencies
    for k, s in enumerate(['$', 'EUR', '€', 'Fr', 'sh', 'US$']):
        j = Journal()
        if k % 2:
            j.raw('currency CAD\n')
        j.account('a', env('x', amt(F(100), s)), env('y', F(30))).account('b')
        j.entry(D(2020, 8, 1), Post('a', amt(intvar('v', 0, 120), s)), Post('b'))
        j.entry(D(2020, 8, 1), Post('a', amt(intvar('w', 0, 60))), Post('b'))
        out.append(roundtrip('currency%d' % k, j, cmds=('b', 'b', 'b'), seed=1 + k))
    # names: long, odd, alike
    L = 'assets:' + 'sub:' * 14 + 'end'
    for k, (a, x, y) in enumerate([(L, 'x' * 70, 'y'), (L, 'x', 'x' * 120), ('a', 'food', 'foo'), ('caf\u00e9:\u65e5\u672c', '\u00e9t\u00e9', '\u65e5'), ('x', 'x', 'xx'), ('envelopes', 'account', 'due'), ('a%b', '5', '-5'), ("o'x", '$', '*'), ('assets:' + 'w' * 34, 'q', 'r'), ('a' * 50, 'e' * 9, '@')]):
        j = Journal()
        j.account(a, env(x, F(100)), env(y, amt(F(30), 'EUR') if k % 2 else F(30), kind='goal', funding='conservative')).account('b')
        j.entry(D(2020, 8, 1), Post(a, amt(intvar('v', 0, 150))), Post('b'))
        if k % 2:
            j.entry(D(2020, 8, 1), Post(a, amt(intvar('w', 0, 30), 'EUR')), Post('b'))
        out.append(roundtrip('names%d' % k, j, cmds=('b', 'b', 'b'), seed=1 + k))
    # the columns of a line meet: names of every length around the width of the first column, with each spelling of currencies
    for k, sy in enumerate(['$', '\u20ac', 'EUR', '']):
        for w in (0, 1, 2, 3, 40):
            j = Journal()
            j.account('assets:bank', env('e' * (28 + w), amt(F(100), sy)), env('g' * (26 + w), amt(F(30), sy), kind='goal', funding='conservative')).account('b')
            j.entry(D(2020, 8, 1), Post('assets:bank', amt(intvar('v', 0, 120), sy)), Post('b'))
            out.append(roundtrip('columns%d_%d' % (k, w), j, cmds=('b', 'b', 'b'), seed=1 + k))
    j = Journal()
    j.raw('currency $\n')
    j.account('a', env('x', F(100)), env('y', F(40), kind='goal', funding='conservative')).account('b')
    j.entry(D(2020, 8, 1), Post('a', amt(intvar('v', 0, 120))), Post('b'))
    # the declared symbol is the native currency: move amounts may carry it
    sc = roundtrip('native', j, cmds=('b', 'b'), seed=2)
    old = sc.spec

    def spec(p, j=j):
        if not accepted(p, p.runs[0]):
            return
        ms = [(a, e, '' if s == '$' else s, n) for a, e, s, n in moves(p, p.runs[0], NOW)]
        judge_moves(p, ms, j, NOW, exact=True)
        accepted(p, p.runs[1], 'the journal after the move')
        untouched(p, p.runs[1], 'the second run')
        p.reach('moved' if ms else 'nothing')
    sc.spec = spec
    out.append(sc)
    # the date format comes from an included file, and included files come last
    for k in range(2):
        sc = Sc('include%d' % k, seed=1 + k)
        v = intvar('v', 1, 60)
        j = Journal()
        j.account('a', env()).account('b')
        body = ['account a\n    expense x due every 1st\n        amount 100\n        funding aggressive\naccount b\n', '2020/08/10 * x\n    a  ', v, '\n    b\n']
        fmts = 'date_format %d.%m.%Y\n11.08.2020 * y\n    a  3\n    b\n'
        if k == 0:
            sc.file(J, body, 'include d/f.sfox')
            sc.file('/w/d/f.sfox', fmts)
        else:
            sc.file(J, 'include d/f.sfox\ninclude d/g.sfox\n')
            sc.file('/w/d/f.sfox', body)
            sc.file('/w/d/g.sfox', fmts)
        j.entry(D(2020, 8, 10), Post('a', amt(v)), Post('b'))
        j.entry(D(2020, 8, 11), Post('a', amt(F(3))), Post('b'))
        sc.run('b', '-f', J if k else 'j.sfox', clock=NOW)
        sc.run('b', '-f', J, clock=NOW, seed=7)

        def spec(p, j=j):
            if not accepted(p, p.runs[0]):
                return
            ms = moves(p, p.runs[0], NOW, fmt='%d.%m.%Y')
            judge_moves(p, ms, j, NOW, exact=True)
            p.must(len(ms) == 1, 'no move')
            untouched(p, p.runs[1], 'the second run')
            expect_balances(p, p.runs[1], balances(p, j.entries))
            p.reach('moved')
        sc.spec = spec
        out.append(sc)
    # imports: texts that mean something in a journal
    base = 'account assets\naccount b\naccount income:unknown\naccount expenses:unknown\n2020/01/01 * first\n    assets  10\n    b\n'
    texts = ['plain', '', ' lead', 'trail ', 'a;b', '; c', 'a//b', '// c', 'x [y', 'x y]', '[z]', '[', '][', 'a [b] c', '2020/01/01', '* star', '!', '@ 5', '= 5', 'é ü', '\\t', '%', 'two  spaces', 'if x', 'include none', '- 5', 'a  5']
    for k, rule in enumerate(['description %text%', 'payee %text%', 'comment %text%', 'status %text%', 'description %description% %text%', 'account2 %text%', 'amount %text%', 'date %text%']):
        for half in (0, 1):
            tx = choice('t', texts[half::2])
            sc = Sc('text%d%d' % (k, half), seed=1 + k)
            v = intvar('v', 1, 99)
            sc.file(J, base)
            sc.file(CSV, 'd,n,a,t\n2020/02/03,desc,', v, ',"', tx, '"\n2020/02/04,other,5,"', 'x' if k < 3 else '~' if k == 3 else 'b' if k == 5 else '7' if k == 6 else '2020/02/04' if k == 7 else '', '"\n')
            sc.file(RULES, 'fields date, description, num, text\naccount assets\namount %num%\n', rule, '\n')
            sc.run('i', '-f', J, '-n', '--csv', CSV)
            sc.run('b', '-f', J, '-n', seed=2)
            sc.run('r', '-f', J, '-n', seed=3, tty=100)

            def spec(p, k=k, v=v, tx=tx):
                r = p.runs[0]
                p.must(not r.crashed, 'the import crashes')
                t = appended(p, r)
                if r.err:
                    p.must(t == '', 'a refused import adds to the journal')
                    p.reach('refused')
                    expect_balances(p, p.runs[1], {'assets': {'': Q(10)}, 'b': {'': Q(-10)}})
                    return
                p.reach('imported')
                if not accepted(p, p.runs[1], 'the journal after the import'):
                    return
                n = p.num(v) + Q(5)
                g = dict(R.balance(p, p.runs[1]))
                if k not in (5, 6):
                    p.must(g['assets'][''].near(n + Q(10)), 'the balance after the import is not that of the records')
                tot = qsum([x.get('', Q(0)) for x in g.values()])
                p.must(tot.same(0) if hasattr(tot, 'same') else tot == 0, 'the balances do not sum to zero')
                if k in (0, 4) and accepted(p, p.runs[2]):
                    rows = R.register(p, p.runs[2])
                    p.must(len(rows) == 3, '%d entries in the register' % len(rows))
                    if len(rows) == 3:
                        norm = lambda x: ' '.join(x.split())
                        for i in p.vals(tx):
                            with p.given(p.is_(tx, i)):
                                if p.possible():
                                    w = norm(('desc ' if k == 4 else '') + tx.text[i])
                                    p.must(p.text_is(norm(rows[1]['desc']), None, w) if not p.has_sym(rows[1]['desc']) else p.text_is(rows[1]['desc'].strip(), tx, {x: norm(('desc ' if k == 4 else '') + tx.text[x]) for x in p.vals(tx)}), 'the description is read back as %r, not %r' % (rows[1]['desc'], w))
            sc.spec = spec
            out.append(sc)
    # imports in another date format than the journal's, with prices, in a journal with a declared currency
    for k, (head, f) in enumerate([('date_format %d.%m.%Y\n', '%d.%m.%Y'), ('currency $\n', '%Y/%m/%d'), ('date_format %e.%b.%Y\ncurrency EUR\n', '%-d.%b.%Y')]):
        sc = Sc('prices%d' % k, seed=1 + k)
        v, w = intvar('v', 1, 99), intvar('w', 0, 1999, scale=100)
        sc.file(J, head, 'account a\naccount b\naccount income:unknown\naccount expenses:unknown\n')
        sc.file(CSV, 'd,n,a,p\n2020-02-09,desc,', v, ',', w, '\n2020-11-30,other,-5,3.50\n')
        sc.file(RULES, 'date_format %F\nfields date, description, num, price\naccount a\namount %num% BTC @ %price%\naccount2 b\n'.replace('@', '@=='[k]))
        sc.run('i', '-f', J, '-n', '--csv', CSV)
        sc.run('b', '-f', J, '-n', seed=2)

        def spec(p, v=v, w=w, f=f):
            if not accepted(p, p.runs[0]):
                return
            es = R.entries(p, appended(p, p.runs[0]))
            p.must([e['date'] for e in es] == [d.strftime(f) for d in (D(2020, 2, 9), D(2020, 11, 30))], 'dates written: %r' % [e['date'] for e in es])
            e1 = Entry(D(2020, 2, 9), [Post('a', amt(v, 'BTC')), Post('b')])
            p.reach('imported')
            # one foreign posting and a blank one: the blank is the negated foreign amount
            es = [Entry(D(2020, 2, 9), [Post('a', amt(v, 'BTC')), Post('b')]), Entry(D(2020, 11, 30), [Post('a', amt(F(-5), 'BTC')), Post('b')])]
            if accepted(p, p.runs[1], 'the journal after the import'):
                g = dict(R.balance(p, p.runs[1]))
                p.must(g['a'].get('BTC', Q(0)).near(p.num(v) - Q(5)), 'the imported quantity is wrong')
        sc.spec = spec
        out.append(sc)

    # journals of many shapes
    def shape(p, r, w):
        if not accepted(p, r):
            return
        ms = moves(p, r, NOW)
        judge_moves(p, ms, w.j, NOW, exact=False)
        es = w.j.entries + ([as_entry(ms, NOW)] if ms else [])
        p.reach('moved' if ms else 'nothing')
        for i, c in ((1, 'b'), (2, 'e')):
            if not accepted(p, p.runs[i], 'the journal after the move'):
                return
            untouched(p, p.runs[i], 'run %d' % i)
        expect_balances(p, p.runs[1], balances(p, es))
        expect_envelopes(p, p.runs[2], w.j, NOW, es, what=' after the move', due=False, only='contents')
    out += wides(40 if tier == 'quick' else 200, shape, ('b',), then=[('b',), ('e', '-n')], first=9000, envs=3, funding=True, small=True, entries=(2, 4), kinds=['blank', 'blank', 'pair', 'move', 'spend', 'mixmove', 'conv'])
    return out


BOUNDS = '14 date formats with days of one and two digits, 6 formats that lose information; targets of thirds, cents and millions; 6 currency symbols and a declared currency; imports of two records with 27 texts (comment markers, brackets, operators, spaces) in each of 8 places; names of every length around the width of a column; balances and amounts symbolic'
OUTSIDE = 'other date formats; texts with line breaks'
