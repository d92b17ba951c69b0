"""C05: malformed or undeclared input is refused, never silently used."""
import datetime
from sf.common import *

# an account with money to move: a journal that is accepted by mistake would be written to
HEAD = 'account assets:f\n    expense fund due every 1st\n        amount 100\n        funding aggressive\naccount equity\n2020/01/01 * start\n    assets:f  60\n    equity\n'


def gate(name, text, good, cmd='b', fmt='', seed=1, files=(), tty=120):
    """text: journal parts after the common head; good(p): the condition under which it is acceptable"""
    sc = Sc(name, seed=seed)
    head = [HEAD if not fmt else HEAD.replace('2020/01/01', D(2020, 1, 1).strftime(fmt))]
    sc.file(J, ['date_format %s\n' % fmt] if fmt else [], head, text)
    for f, t in files:
        sc.file(f, t)
    sc.run(cmd, '-f', J, tty=tty)

    def spec(p):
        r = p.runs[0]
        c = good(p)
        if r.ok:
            p.must(c, 'accepted, but has to be refused')
            p.reach('accepted')
        else:
            p.must(z3.Not(c) if not isinstance(c, bool) else not c, 'refused, but is well-formed: ' + r.err[-200:])
            refused(p, r, 'the journal')
            p.reach('refused')
    sc.spec = spec
    return sc


def isdate(y, m, d):
    try:
        datetime.date(y, m, d)
        return True
    except ValueError:
        return False


ENTRY = '    assets:f  -1\n    equity  1\n'


def scenarios(tier):
    T = tier == 'thorough'
    out = []
    cmd = lambda: choice('cmd', ['balance', 'envelopes', 'register'])

    # dates: every year/month/day text
    for k, (fmt, years) in enumerate([('', [2019, 2020, 1900, 2000]), ('%d.%m.%Y', [2020, 2021]), ('%m-%d-%Y', [2100])]):
        trip = [(y, m, d) for y in years for m in range(16) for d in range(36)]
        f = {'': '%04d/%02d/%02d', '%d.%m.%Y': '%(d)02d.%(m)02d.%(y)04d', '%m-%d-%Y': '%(m)02d-%(d)02d-%(y)04d'}[fmt]
        v = choice('d', [f % (dict(y=y, m=m, d=d) if '(' in f else (y, m, d)) for y, m, d in trip])
        out.append(gate('date%d' % k, [v, ' * x\n', ENTRY], lambda p, v=v, trip=trip: p.among(v, [i for i in p.vals(v) if isdate(*trip[i])]), fmt=fmt, seed=1 + k))
    bad = ['hello', '2020', '2020/01', '2020-01-05', '2020/01/05x', '05/01/2020', '2020/jan/05', '20200105', '2020//05', '*', '?', '[2020/01/05]', '2020/01/-5', '-', '2020/1/5', '2020/01/5']
    v = choice('d', bad)
    out.append(gate('datetext', [v, ' * x\n', ENTRY], lambda p, v=v: p.among(v, [14, 15]), cmd=cmd()))

    # statuses: every printable character, and longer texts
    chars = [chr(c) for c in range(33, 127) if chr(c) not in ';']
    v = choice('s', chars)
    out.append(gate('status', ['2020/01/05 ', v, ' x\n', ENTRY], lambda p, v=v: p.among(v, [i for i, c in enumerate(chars) if c in '*~?'])))
    v2 = choice('s', chars)
    out.append(gate('status_last', ['2020/01/05 ', v2, '\n', ENTRY], lambda p, v=v2: p.among(v, [i for i, c in enumerate(chars) if c in '*~?'])))
    st = ['', '**', '*x', 'x', '~~', '?*', '[*]', ';*', '//*', '!', 'pending', 'x *', '*', '~ [a]', '? x']
    v = choice('s', st)
    out.append(gate('status2', ['2020/01/05 ', v, '\n', ENTRY], lambda p, v=v: p.among(v, [12, 13, 14]), cmd=cmd()))
    # payees
    pay = ['a [b', '[', 'a ]b[', 'a [b ; ]', 'a [b // ]', '[b]', 'a [b]', 'a ]b', 'a', 'a [b] c', 'a [b [c]', 'a [ ]', '']
    v = choice('s', pay)
    out.append(gate('payee', ['2020/01/05 * ', v, '\n', ENTRY], lambda p, v=v: p.among(v, range(5, len(pay))), cmd=cmd()))
    # header characters around a bracket
    al = ['[', ']', 'a', ' ']
    a, b, c = choice('p', al), choice('q', al), choice('r', al)

    def paygood(p):
        cs = []
        for i in p.vals(a):
            for k in p.vals(b):
                for l in p.vals(c):
                    s = al[i] + al[k] + al[l]
                    if '[' not in s or s.rfind(']') > s.find('['):
                        cs.append(z3.And(p.is_(a, i), p.is_(b, k), p.is_(c, l)))
        return z3.Or(cs) if cs else z3.BoolVal(False)
    out.append(gate('payee3', ['2020/01/05 * x ', a, b, c, ' y\n', ENTRY], paygood))

    # accounts: declared before, after, never
    names = ['assets:f', 'equity', 'assets:late', 'assets', 'assets:f:x', 'asset', 'nope', 'Equity', 'equit', 'equity:', 'assets:F']
    for k, line in enumerate(['    %s  -1\n    equity  1\n', '    equity  1\n    %s\n', '    envelope %s fund 0.5\n', '    assets:f  -1\n    equity  1\n    envelope %s fund 0.5\n', '    assets:f  -1\n    %s 0.5 EUR @ 2\n    equity\n']):
        v = choice('a', names)
        x, y2 = line.split('%s')
        isenv = 'envelope' in line
        out.append(gate('account%d' % k, ['2020/01/05 * x\n', x, v, y2, 'account assets:late\n    goal fund due every 1st\n'],
                        lambda p, v=v: p.among(v, [0, 1]), cmd=cmd() if k == 2 else 'b', seed=1 + k))
    # declared between two entries
    decl = 'account late\n'
    e1 = '2020/01/05 * x\n    assets:f  -1\n    late  1\n'
    kk = choice('k', [decl + e1, e1 + decl, decl + e1 + e1, e1 + decl + e1, e1, decl])
    out.append(gate('order', [kk], lambda p: p.among(kk, [0, 2, 5])))

    # blanks: every pattern over n postings; the others balance among themselves
    for n in (2, 3, 4) if not T else (2, 3, 4, 5):
        bl = [choice('b%d' % i, ['', '  7', '  -7']) for i in range(n)]

        def blanks(p, bl=bl):
            num = qsum([p.num(b, [F(0), F(7), F(-7)]) for b in bl])
            nb = qsum([p.num(b, [F(1), F(0), F(0)]) for b in bl])
            return z3.Or(nb.same(1), z3.And(nb.same(0), num.same(0)))
        out.append(gate('blank%d' % n, ['2020/01/05 * x\n', [['    equity' if i % 2 else '    assets:f', bl[i], '\n'] for i in range(n)]], blanks, seed=n))
    # in a foreign currency, and with prices: one blank is fine, two never are
    for k, sym in enumerate([' EUR', '$', ' EUR @ 3', ' EUR = 9']):
        cs = ['', '  7' + sym, '  -7' + sym] if sym != '$' else ['', '  $7', '  $-7']
        if k > 1:
            cs = ['', '  7' + sym, '  5']
        bl = [choice('b%d' % i, cs) for i in range(3)]

        def blanks(p, bl=bl, k=k):
            nb = qsum([p.num(b, [F(1), F(0), F(0)]) for b in bl])
            if k > 1:
                return nb.same(0)
            num = qsum([p.num(b, [F(0), F(7), F(-7)]) for b in bl])
            return z3.Or(nb.same(1), z3.And(nb.same(0), num.same(0)))
        out.append(gate('blanksym%d' % k, ['2020/01/05 * x\n', [['    equity' if i % 2 else '    assets:f', bl[i], '\n'] for i in range(3)], '    equity\n' if k > 1 else ''], blanks, seed=k + 1))
    # two blanks with envelope postings between
    bl = [choice('b%d' % i, ['', '  3']) for i in range(3)]
    out.append(gate('blank_env', ['2020/01/05 * x\n    assets:f', bl[0], '\n    envelope assets:f fund 1\n    equity', bl[1], '\n    envelope assets:f fund -1\n    equity', bl[2], '\n'],
                    lambda p, bl=bl: qsum([p.num(b, [F(1), F(0)]) for b in bl]).same(1)))

    # account headers
    hs = ['account', 'account ', 'account\t', 'account ; x', 'account // x', 'account a b', 'account a b c', 'account a\tb', 'account a : b', 'account a', 'account\ta', 'account a ; b', 'account a:b:c', 'account a // b', 'account  a  ']
    v = choice('h', hs)
    out.append(gate('header', [v, '\n'], lambda p, v=v: p.among(v, range(9, len(hs))), cmd=cmd()))
    out.append(gate('header_first', [v2 := choice('h', hs), '\n    expense z due every 1st\n'], lambda p, v=v2: p.among(v, range(9, len(hs)))))

    # envelopes
    nm = ['food', 'foo', 'Food', 'rent']
    for n in (2, 3):
        ks = [choice('k%d' % i, ['expense ', 'goal ']) for i in range(n)]
        ns = [choice('n%d' % i, nm[:4 if n == 2 else 3]) for i in range(n)]

        def distinct(p, ns=ns):
            return z3.And([p.num(x, range(4)).differs(p.num(y, range(4))) for i, x in enumerate(ns) for y in ns[:i]])
        out.append(gate('dup%d' % n, ['account a\n', [['    ', k_, n_, ' due every 1st\n        amount 5\n'] for k_, n_ in zip(ks, ns)]], distinct))
    # the same name in two accounts is fine
    out.append(gate('twoaccounts', ['account a\n    expense fund due every 1st\naccount b\n    goal fund due every 1st\n'], lambda p: True, cmd=cmd()))
    props = ['for a', 'amount 5', 'funding manual', 'For a', 'amounts 5', 'fund 5', 'starting 2020/01/01', 'due every 1st', 'note x', 'amoun 5', 'fo a', 'forx a', 'x', 'for', 'amount', 'funding', 'for a b', 'due', 'name x', ': x', 'amount: 5', '; amount', '// for', '']
    for pos in range(2):
        v = choice('p', props)
        body = ['        amount 5\n'] if pos else []
        out.append(gate('prop%d' % pos, ['account a\n    expense z due every 1st\n', body, '        ', v, '\n', ['        for equity\n'] if not pos else []], lambda p, v=v: p.among(v, [0, 1, 2, 21, 22, 23]), cmd=cmd() if pos else 'e'))
    fm = ['manual', 'aggressive', 'conservative', 'Manual', 'agressive', 'conservativ', 'none', 'aggressive x', 'x aggressive', '5', 'manually', 'aggressive,', 'both']
    v = choice('f', fm)
    out.append(gate('funding', ['account a\n    expense z due every 1st\n        amount 5\n        funding ', v, '\n'], lambda p, v=v: p.among(v, [0, 1, 2]), cmd=cmd()))
    due = ['due every 1st', 'no date', 'due every friday', 'due every fri', 'by 2020/12/01', 'due by 2020/12/01', 'due 2020/12/01', 'due every other friday starting 2020/01/03', 'due every other 15th starting 2020/01/15',
           'due every year starting 2020/02/03', 'due every 31st starting 2020/02/03',
           # refused
           '', 'due', 'due every', 'every 1st', 'due every month', 'due every fortnight', 'due sometime', 'due 2020/13/01', 'due 2020/02/30', 'due tomorrow', 'due every other friday', 'due every other 15th', 'due every year',
           'due every 1st starting soon', 'due every 1st starting 2020/02/30', 'due every year starting 2021/02/29', 'due every other friday starting x', 'due every other month starting 2020/01/01', 'by', 'due by never', 'due 2020-12-01']
    v = choice('w', due)
    out.append(gate('due', ['account a\n    ', choice('k', ['expense', 'goal']), ' z ', v, '\n        amount 5\n'], lambda p, v=v: p.among(v, range(11)), cmd=cmd() if T else 'e'))
    # once-only and starting dates: every day
    for k, pre in enumerate(['due ', 'by ', 'due every other 15th starting ', 'due every year starting ', 'due every 3rd starting ']):
        pairs = [(m, d) for m in range(14) for d in range(34)]
        v = choice('d', ['%02d/%02d' % x for x in pairs])
        out.append(gate('duedate%d' % k, ['account a\n    expense z ', pre, '2021/', v, '\n        amount 5\n'],
                        lambda p, v=v, pairs=pairs: p.among(v, [i for i in p.vals(v) if isdate(2021, *pairs[i])]), cmd='e'))
    # type keywords
    v = choice('t', ['expense', 'goal', 'expenses', 'goals', 'Expense', 'budget', 'expens', 'envelope'])
    out.append(gate('type', ['account a\n    ', v, ' z due every 1st\n        amount 5\n'], lambda p, v=v: p.among(v, [0, 1])))
    v = choice('t', ['expense', 'goal', 'expense ', 'goal x', 'expense x due every 1st'])
    out.append(gate('bareheader', ['account a\n    ', v, '\n'], lambda p, v=v: p.among(v, [4])))
    # twice the same account
    v = choice('a', ['assets:f', 'equity', 'assets:g'])
    out.append(gate('redefined', ['account ', v, '\n'], lambda p, v=v: p.among(v, [2]), cmd=cmd()))

    # the malformed text sits in an included file, or first, or last in the journal
    inc = choice('x', ['2020/01/05 x\n', '2020/01/05 * x\n    nope 1\n    equity\n', 'account a b\n', '2020/01/05 * ok\n    assets:f 1\n    equity\n'])
    out.append(gate('included', ['include more.sfox\n2020/01/06 * y\n    assets:f 1\n    equity\n'], lambda p: p.among(inc, [3]), files=[('/w/more.sfox', [inc])], cmd=cmd()))
    return out


BOUNDS = 'every day 0..35 x month 0..15 in 7 years and 3 date formats; every printable status character; all blank patterns of up to 5 postings; lists of 8-33 malformed and well-formed texts for every other construct; balance, envelopes and register, with automatic moves enabled'
OUTSIDE = 'odd due dates that happen to contain digits (every 45th, every 2x7, a `starting` without a date), unknown envelope names in postings (nothing is claimed)'
