"""C26: a refusal says what is wrong."""
from sf.common import *
from props.c17 import CSV, RULES

HEAD = 'account assets:f\n    expense fund due every 1st\n        amount 100\n        funding aggressive\naccount equity\n2020/01/01 * start\n    assets:f  60\n    equity\n'


def quotes(p, text, t, what=''):
    """the message contains t: a string, a Var, or a list of these (put together)"""
    ps = p.parts(text)
    t = t if isinstance(t, list) else [t]
    vs = [x for x in t if isinstance(x, Var)]
    names = {x.name for x in vs}

    def at(idx):
        got = ''
        for q in ps:
            if isinstance(q, str):
                got += q
            elif q[0] in idx:
                got += q[1][idx[q[0]]] or ''
            else:
                got += '\0'
        return ''.join(x if isinstance(x, str) else x.text[idx[x.name]] for x in t) in got
    if not vs:
        p.must(at({}), 'the message does not name %r%s: %r' % (''.join(t), what, text[-200:]))
        return
    assert len(names) == 1
    v = vs[0]
    good = [i for i in p.vals(v) if at({v.name: i})]
    p.must(p.among(v, good), 'the message does not name %s%s: %r' % (v.name, what, text[-200:]))


def gate(name, parts, texts, cmd='b', seed=1, ok=(), files=(), argv=(), head=HEAD, move=True):
    """parts: the journal after the head; texts: what the message has to quote; ok: (Var, indices) that are well-formed"""
    sc = Sc(name, seed=seed)
    sc.file(J, head, parts)
    for f, t in files:
        sc.file(f, t)
    sc.run(cmd, '-f', J, *argv, tty=120)

    def spec(p):
        r = p.runs[0]
        if ok and r.ok:
            p.must(p.among(ok[0], ok[1]), 'accepted, but has to be refused')
            p.reach('accepted')
            return
        p.must(r.err.strip() != '', 'no error message')
        for t in texts:
            quotes(p, r.err, t)
        p.reach('refused')
    sc.spec = spec
    return sc


E2 = '    assets:f  -1\n    equity  1\n'


def scenarios(tier):
    T = tier == 'thorough'
    out = []

    def add(name, parts, texts, **k):
        out.append(gate(name, parts, texts, seed=1 + len(out) % 7, **k))
    cmd = lambda: choice('cmd', ['balance', 'envelopes', 'register'])
    W = ['groceries', 'a b c', 'Pay day', 'x-1', 'ümlaut', 'v2']

    # accounts that were never declared
    N = ['nope', 'assets', 'assets:f:x', 'Equity', 'equity:', 'late', 'expenses:food', 'a1']
    for k, line in enumerate(['    %s  -1\n    equity  1\n', '    equity  1\n    %s\n', '    envelope %s fund 0.5\n', '    assets:f  -1\n    equity  1\n    envelope %s fund 0.5\n', '    equity -2\n    %s 0.5 EUR @ 2\n    equity 1\n']):
        v = choice('name', N)
        x, y = line.split('%s')
        add('account%d' % k, ['2020/01/05 * x\n', x, v, y, 'account late\n'], [v], cmd=cmd() if k < 2 else 'b')
    v = choice('name', ['assets:f', 'equity', 'last'])
    add('twice', ['account last\naccount ', v, '\n'], [v], cmd=cmd())
    v = choice('name', ['a b', 'two words', 'x y z'])
    add('spaces', ['account ', v, '\n'], [v])

    # headers of entries
    pairs = [(m, d) for m in range(14) for d in (0, 1, 15, 28, 29, 30, 31, 32)]

    def valid(m, d):
        try:
            D(2021, m, d)
            return True
        except ValueError:
            return False
    v = choice('date', ['2021/%02d/%02d' % x for x in pairs])
    add('date', [v, ' * x\n', E2], [v], ok=(v, [i for i, x in enumerate(pairs) if valid(*x)]))
    v = choice('date', ['hello', '2020-01-05', '05.01.2020', '2020/jan/05', '20200105', 'accounts', 'expense', '-', '2020/01/05x'])
    add('datetext', [v, ' * x\n', E2], [v], cmd=cmd())
    v = choice('status', ['!', 'x', '**', 'pending', '%', '*x', '2020/01/05', '#7'])
    add('status', ['2020/01/05 ', v, ' x\n', E2], [v])
    v = choice('desc', W)
    add('nostatus', [v2 := choice('date', ['2020/01/05', '2019/12/31']), '\n', E2], [v2])
    add('payee', ['2020/01/05 * ', v, ' [shop\n', E2], [[v, ' [shop']])

    # entries as a whole
    for k, body in enumerate(['    assets:f  5\n    equity  6\n', '    assets:f  5\n    equity\n    equity\n', '    assets:f  5\n    equity\n    envelope assets:f fund 1\n    equity\n', '    assets:f  5 EUR\n    equity  6 USD\n    equity\n', '    assets:f  5 EUR\n    equity  6\n    equity\n', '    assets:f  5 ! 7\n    equity\n', '    assets:f  $5 ! $-7\n    equity\n', '    assets:f\n    equity\n']):
        v = choice('desc', W)
        add('entry%d' % k, ['2020/01/05 * ', v, '\n', body, '2020/01/06 * other\n', E2], [v], cmd=cmd() if k in (0, 5) else 'b')
    a, b = intvar('a', -20, 20), intvar('b', -20, 20)
    sc = Sc('unbalanced')
    sc.file(J, HEAD, '2020/01/05 * uneven thing\n    assets:f  ', a, '\n    equity  ', b, '\n')
    sc.run('b', '-f', J)

    def spec(p):
        r = p.runs[0]
        if r.ok:
            p.reach('accepted')
            return
        quotes(p, r.err, 'uneven thing')
        p.reach('refused')
    sc.spec = spec
    out.append(sc)
    n = intvar('n', 0, 200)
    acct = choice('acct', ['assets:f', 'equity'])
    sc = Sc('assertion')
    sc.file(J, HEAD, '2020/01/05 * checked\n    ', acct, '  5 ! ', n, '\n    equity\n')
    sc.run('b', '-f', J)

    def spec(p):
        r = p.runs[0]
        if r.ok:
            p.reach('accepted')
            return
        quotes(p, r.err, acct)
        quotes(p, r.err, 'checked')
        p.reach('refused')
    sc.spec = spec
    out.append(sc)

    # amounts
    AM = ['xyz', 'five', '1.2.3', '$', '5.x.y', 'EUR']
    for k, line in enumerate(['    assets:f  %s\n    equity\n', '    assets:f  5 EUR @ %s\n    equity\n', '    assets:f  5 EUR = %s\n    equity\n', '    assets:f  5 ! %s\n    equity\n', '    envelope assets:f fund %s\n']):
        v = choice('amount', AM)
        x, y = line.split('%s')
        add('amount%d' % k, ['2020/01/05 * x\n', x, v, y], [v])
    v = choice('amount', AM)
    add('target', ['account a\n    expense z due every 1st\n        amount ', v, '\n'], [v], cmd=cmd())

    # envelopes
    v = choice('name', ['food', 'rent', 'car_tax', 'x'])
    add('dup', ['account acc:t\n    expense ', v, ' due every 1st\n        amount 5\n    goal other no date\n    ', choice('k', ['expense', 'goal']), ' ', v, ' due every 1st\n'], [v, 'acc:t'], cmd=cmd())
    v = choice('prop', ['colour', 'amounts', 'For', 'starting', 'duee', 'fo', 'fundin', 'notes:'])
    add('property', ['account a\n    expense z due every 1st\n        amount 5\n        ', v, ' 5\n'], [v], cmd=cmd())
    v = choice('funding', ['often', 'agressive', 'none', 'Manual', 'all in', '5'])
    add('funding', ['account a\n    expense z due every 1st\n        amount 5\n        funding ', v, '\n'], [v])
    v = choice('type', ['budget', 'envelope', 'Expense', 'saving', 'expenses'])
    add('type', ['account a\n    ', v, ' z due every 1st\n        amount 5\n'], [v])
    v = choice('due', ['sometimes', 'tomorrow', '2020/13/01', '2020/02/30', '2020-12-01', 'every month', 'every fortnight'])
    add('due', ['account a\n    ', choice('k', ['expense', 'goal']), ' z due ', v, '\n        amount 5\n'], [v])
    v = choice('due', ['every other friday', 'every year', 'every other 15th'])
    add('nostart', ['account a\n    expense z due ', v, '\n        amount 5\n'], [v])
    v = choice('start', ['soon', '2020/02/30', '2021/02/29', '2020-01-01', '01.02.2020'])
    add('start', ['account a\n    expense z due ', choice('k', ['every 1st', 'every year', 'every other friday']), ' starting ', v, '\n        amount 5\n'], [v])
    v = choice('name', ['food', 'z9'])
    add('nodue', ['account a\n    expense ', v, '\n        amount 5\n'], [v])
    v = choice('format', ['%Q', '%Y/%m/%', '%H:%M', '%Y/%m/%d%E'])
    add('format', ['date_format ', v, '\n'], [v])

    # files
    v = choice('path', ['gone.sfox', 'd/gone.sfox', '/nowhere/x', '../y.sfox'])
    add('include', ['include ', v, '\n'], [v], cmd=cmd())
    sc = Sc('journal')
    v = choice('path', ['gone.sfox', '/w/d/gone', 'x'])
    sc.run(cmd(), '-f', v)
    sc.spec = lambda p, v=v: (p.must(p.runs[0].err.strip() != '', 'no error message'), quotes(p, p.runs[0].err, v), p.reach('refused'))
    out.append(sc)
    # mistakes in an included file
    v = choice('name', N)
    add('included', ['include more.sfox\n'], [v], files=[('/w/more.sfox', ['2020/01/05 * x\n    equity  1\n    ', v, '\n'])])

    # the command line
    v = choice('word', ['frobnicate', 'B', '-x', '--help-me', 'q', 'zebra', '7'])
    sc = Sc('subcommand')
    sc.file(J, HEAD)
    sc.run(v, '-f', J)
    sc.spec = lambda p, v=v: (p.must(p.runs[0].err.strip() != '', 'no error message'), quotes(p, p.runs[0].err, v), p.reach('refused'))
    out.append(sc)
    for k, tail in enumerate([[], ['5'], ['-n']]):
        v = choice('word', ['--frob', '-q', '--No-move', '-F', '--files', '--csv-fil'])
        sc = Sc('flag%d' % k, seed=1 + k)
        sc.file(J, HEAD)
        sc.run(cmd(), '-f', J, v, *tail, tty=100)
        sc.spec = lambda p, v=v: (p.must(p.runs[0].err.strip() != '', 'no error message'), quotes(p, p.runs[0].err, v), p.reach('refused'))
        out.append(sc)
    v = choice('word', ['-f', '--file', '--csv', '--rules', '--csv-file', '--rules-file'])
    sc = Sc('novalue')
    sc.file(J, HEAD)
    sc.run(choice('cmd', ['b', 'i']), v, env=[('SILVERFOX_FILE', J)])
    sc.spec = lambda p, v=v: (p.must(p.runs[0].err.strip() != '', 'no error message'), quotes(p, p.runs[0].err, v), p.reach('refused'))
    out.append(sc)

    # imports
    def imp(name, rules, csv, texts, argv=('--csv', CSV), files=True):
        sc = Sc(name, seed=1 + len(out) % 7)
        sc.file(J, HEAD)
        if files:
            sc.file(CSV, 'h1,h2,h3\n2020/02/01,fine,5\n', csv, '2020/02/03,good,7\n')
            sc.file(RULES, rules)
        sc.run('i', '-f', J, '-n', *argv)

        def spec(p):
            r = p.runs[0]
            p.must(r.err.strip() != '', 'no error message')
            for t in texts:
                quotes(p, r.err, t)
            p.reach('refused')
        sc.spec = spec
        out.append(sc)
    RU = 'fields date,description,amount\naccount assets:f\naccount2 equity\n'
    OK = '2020/02/02,shop,6\n'
    v = choice('date', ['2020/02/31', '2020/13/01', 'soon', '2020-02-02', '02.03.2020', '20200202'])
    imp('csvdate', RU, [v, ',shop,5\n'], [v])
    v = choice('amount', ['five', '1.2.3'])
    imp('csvamount', RU, ['2020/02/02,shop,', v, '\n'], [v])
    v = choice('name', ['nope', 'assets', 'Equity'])
    imp('ruleaccount', ['fields date,description,amount\naccount assets:f\naccount2 ', v, '\n'], OK, [v])
    imp('ruleaccount1', ['fields date,description,amount\naccount ', v, '\naccount2 equity\n'], OK, [v])
    v = choice('status', ['%', 'x', '**', '!'])
    imp('rulestatus', [RU, 'status ', v, '\n'], OK, [v])
    v = choice('rule', ['colour', 'Account', 'descriptions', 'amout', 'payee:', 'date-format', 'acount2'])
    imp('rule', [RU, v, ' red\n'], OK, [v])
    v = choice('rule', ['description', 'payee', 'fields', 'account', 'amount', 'status', 'date', 'skip', 'date_format'])
    imp('ruleempty', [RU, v, '\n'], OK, [v])
    v = choice('symbol', ['xy', '..', ',,'])
    imp('decimal', [RU, 'decimal_symbol ', v, '\n'], OK, [v])
    v = choice('path', ['gone.rules', 'r/x.rules', '/nowhere/y'])
    imp('ruleinclude', [RU, choice('k', ['include', 'use']), ' ', v, '\n'], OK, [v])
    v = choice('path', ['gone.csv', 'd/x.csv', '/nowhere/y'])
    imp('nocsv', RU, OK, [v], argv=('--csv', v))
    v = choice('path', ['gone.rules', 'd/x.rules', '/nowhere/y'])
    imp('norules', RU, OK, [v], argv=('--csv', CSV, '--rules', v))
    return out


BOUNDS = 'for every kind of refusal 2-112 offending texts (names, dates, statuses, amounts, schedules, properties, formats, paths, flags, rules), in balance, envelopes, register and import; unbalanced pairs over 41x41 amounts; assertions over 201 amounts and 2 accounts'
OUTSIDE = 'the wording of the messages; which of several mistakes is named; refusals that have no text to quote (an import rule missing, a nested block)'
