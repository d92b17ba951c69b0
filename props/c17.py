"""C17: CSV import turns each record into the entry its rules describe."""
from sf.common import *
from sf.imports import *

CSV, RULES = '/w/c.csv', '/w/c.csv.rules'
ACC = ''.join('account %s\n' % a for a in ('assets', 'food', 'fun', 'b', 'income:unknown', 'expenses:unknown', 'unknown'))
FIRST = '2020/01/01 * first\n    assets  10\n    b\n'


def imp(name, rules, records, header='h1,h2,h3', seed=1, fmt='%Y/%m/%d', head='', argv=None, csv=None, rtext=None, files=(), check=True, cwd='/w', extra=None, at=CSV, **opts):
    sc = Sc(name, seed=seed, **opts)
    sc.file(J, head, ACC, FIRST if not head else '')
    for rec in records:
        for f in rec:
            if isinstance(f, Var):
                sc.add(f)
    sc.file(at, csv if csv is not None else csv_text(records, header))
    if argv is None:
        sc.file(at + '.rules', rtext if rtext is not None else rules_text(rules))
    for f, t in files:
        sc.file(f, t)
    sc.run('i', '-f', J, '-n', *(argv or ['--csv', at]), cwd=cwd)

    def spec(p):
        if not accepted(p, p.runs[0], 'the import'):
            return
        t = appended(p, p.runs[0])
        recs = ([[header]] if header is not None else []) + records
        check_import(p, t, rules, recs, fmt)
        p.reach('imported')
        if extra:
            extra(p)
    sc.spec = spec
    return sc


F3 = ('fields', 'date, description, amount')
A1 = ('account', 'assets')


def scenarios(tier):
    T = tier == 'thorough'
    out = []

    def add(*a, **k):
        out.append(imp(*a, seed=1 + len(out), **k))
    N = 60 if not T else 600
    # the sign of the amount names the counter account
    v, w = intvar('v', -N, N), intvar('w', -N, N)
    add('sign', [F3, A1], [['2020/02/03', 'x', v]])
    add('sign2', [F3, A1], [['2020/02/03', 'x', v], ['2020/01/09', 'y', w]])
    v = intvar('v', -300, 300, scale=100)
    add('cents', [F3, A1], [['2020/02/03', 'x', v]])
    # several records, in file order whatever their dates; equal records stay several
    d = choice('d', ['2020/02/03', '2019/12/31', '2021/01/01', '2020/03/01'])
    v, w = intvar('v', 1, 99), intvar('w', 1, 99)
    add('order', [F3, A1], [['2020/02/04', 'x', v], [d, 'y', w], ['2020/02/01', 'z', '-7'], ['2020/02/05', 'q', '0']])
    add('equal', [F3, A1], [['2020/02/04', 'x', v], ['2020/02/04', 'x', v], ['2020/02/04', 'x', v]])
    # skip
    for n in (0, 1, 2, 3, 5):
        v = intvar('v', 1, 99)
        recs = [['2020/02/0%d' % (i + 1), 'r%d' % i, v if i % 2 else '-%d' % (3 + i)] for i in range(3)]
        add('skip%d' % n, [F3, A1, ('skip', str(n))], recs, header=None if n == 0 else 'h1,h2,h3')
    add('skipdefault', [F3, A1], [['2020/02/03', 'x', intvar('v', 1, 99)], ['2020/02/04', 'y', '5']], header='date,description,amount')
    add('skipreset', [('skip', '2'), F3, A1, ('skip', None)], [['2020/02/03', 'x', intvar('v', 1, 99)], ['2020/02/04', 'y', '5']])
    # fields: order, unused, missing, unnamed ones
    v = intvar('v', 1, 99)
    add('fields1', [('fields', 'amount, x, date, description, y'), A1], [[v, 'one', '2020/02/03', 'dsc', 'two'], ['-4', '', '2020/02/04', 'dd', '']], header='a,b,c,d,e')
    add('fields2', [('fields', 'date,description,amount'), A1], [['2020/02/03', 'dsc', v, 'more', 'most']], header='a,b,c,d,e')
    add('fields3', [('fields', ' date ,  when, what ,amount,kind'), A1, ('description', '%what% in %kind% (%when%)'), ('payee', '%what%'), ('comment', 'from %kind%, 100%% sure')], [['2020/02/03', 'noon', 'tea', v, 'shop'], ['2020/02/04', 'night', 'milk', '-3', 'bar']], header='a,b,c,d,e')
    add('fields4', [('fields', 'date, description'), ('fields', 'amount'), A1], [['2020/02/03', 'x', v]])
    # texts of fields
    t = choice('t', ['plain', 'two words', 'UPPER', 'semi-colon', 'quo"te'.replace('"', "'"), 'ümlaut', '12', 'x, y', '(z)'])
    add('text', [F3, A1], [['2020/02/03', t, v], ['2020/02/04', 'other', '-2']])
    add('quoted', [F3, A1], [['2020/02/03', 'x, "y" z', v], ['2020/02/04', 'a,b', '-2']], csv=None)
    for k, rule in enumerate(['payee', 'comment', 'note', 'description']):
        t = choice('t', ['one', 'two', 'three four'])
        add('into_' + rule, [('fields', 'date, description, amount, t'), A1, (rule, '<%t%> of %description%')], [['2020/02/03', 'x', v, t], ['2020/02/04', 'y', '-2', 'five']], header='a,b,c,d')
    # fields that are empty, fields without anything between them
    for k, (rule, val) in enumerate([('description', '%description%%t%'), ('description', '%t%%description%%t%'), ('description', '%t%'), ('comment', '%t%%t%'), ('payee', '(%t%%m%)'), ('comment', '%m%%t%%% %t%%m%'), ('description', '%%%t%%%')]):
        t, u = choice('t', ['', 'one', 'two three']), choice('m', ['', 'q'])
        add('blank%d' % k, [('fields', 'date, description, amount, t, m'), A1, (rule, val)], [['2020/02/03', 'x', v, t, u], ['2020/02/04', 'y', '-2', '', ''], ['2020/02/05', 'z', '-3', 'five', 'six']], header='a,b,c,d,e')
    # many fields, many records, a variable used many times, texts that end in dots
    big = ['date', 'description', 'amount'] + ['f%d' % i for i in range(9)]
    add('fields12', [('fields', ', '.join(big)), A1, ('payee', '%f8% and %f4%'), ('comment', '%f5%/%f6%/%f7%')], [['2020/02/03', 'x', v] + ['w%d' % i for i in range(8)] + [choice('t', ['one', 'two'])], ['2020/02/04', 'y', '-4'] + ['z%d' % i for i in range(9)]], header=','.join(big))
    add('records', [F3, A1], [['2020/02/%02d' % (i + 1), 'r%d' % i, v if i in (0, 9, 19) else str(i - 7)] for i in range(20)])
    add('often', [('fields', 'date, description, amount, t'), A1, ('payee', '%t%, %t%; %t%, %t%'.replace(';', ',')), ('comment', '%t%%t%%t%%t%%t%'), ('description', '%t% %description% %t% %description% %t% %description%')], [['2020/02/03', 'x', v, choice('t', ['one', 'two words'])], ['2020/02/04', 'y', '-2', 'five']], header='a,b,c,d')
    for k, rule in enumerate(['payee', 'comment', 'description']):
        add('dots%d' % k, [('fields', 'date, description, amount, t'), A1, (rule, '%t%')], [['2020/02/03', 'x', v, choice('t', ['Inc.', 'a...', 'x!', 'end-', 'b:', 'c,', '...', '.x', "o'", '(q)', '<z>', 'www.a.b', 'q_', 'n=', 'A&B', 'a/', '?', 'x?'])], ['2020/02/04', 'y', '-2', 'Ltd.']], header='a,b,c,d')
    add('mills', [F3, A1], [['2020/02/03', 'x', intvar('v', -12, 12, scale=1000)], ['2020/02/04', 'y', intvar('w', -12, 12, scale=100000)]])
    # characters that mean something in other kinds of csv or in journals
    odd = ['#5 x', '# x', 'x#', 'a\\b', 'ab\\', '\\', "it's 'x'", 'a|b', 'a\tb', '!x', '-', '+1', '%', '@ 3', '= 3', '*', '~', '{x}', '<y>', 'x:y', '\ufeffz', 'a/b', '$5', '\u20ac', '_']
    t = choice('t', [x for x in odd if '\t' not in x])
    add('odd1', [F3, A1], [['2020/02/03', t, v], ['2020/02/04', 'other', '-2']])
    add('odd2', [('fields', 't, date, description, amount'), A1], [[t, '2020/02/03', 'x', v], ['#c', '2020/02/04', 'y', '-2'], ['\\', '2020/02/05', 'z', '-2']], header='a,b,c,d')
    add('odd3', [('fields', 't, date, description, amount'), A1, ('comment', 'c')], [[choice('t', ['a;b', ';', 'a;b;c;d', 'x // y', 'a\tb', '[', ']', "'", '   ', ' x', 'x ']), '2020/02/03', 'x', v], [';', '2020/02/04', 'y', '-2']], header='a;x,b,c,d')
    add('odd4', [('fields', 't, date, description, amount'), A1, ('payee', '<%t%>')], [[t, '2020/02/03', 'x', v]], header='#a,b,c,d')
    q = [['2020/02/03', t, v], ['2020/02/04', 'c:\\\\x\\', '-2'], ['2020/02/05', '\\', '-2']]
    add('odd5', [F3, A1], q, csv=csv_text(q, 'h1,h2,h3', quote=True))
    add('lines', [('fields', 't, date, description, amount'), A1], [['a\nb', '2020/02/03', 'x', v], ['"', '2020/02/04', 'y', '-2'], ['""', '2020/02/05', 'z', '-2'], ['a\n\n2020/01/01,q,5', '2020/02/06', 'w', '-3']], header='a,b,c,d')
    # status
    s = choice('s', ['*', '~', '?'])
    add('status', [('fields', 'date, description, amount, s'), A1, ('status', '%s%')], [['2020/02/03', 'x', v, s], ['2020/02/04', 'y', '-2', '~']], header='a,b,c,d')
    for k, s in enumerate(['*', '?', '~', None]):
        add('status%d' % k, [('status', '*') if s is None else A1, F3, A1, ('status', s)], [['2020/02/03', 'x', v]])
    # dates
    for k, (f, ts) in enumerate([('%d.%m.%Y', ['03.02.2020', '31.12.2019', '29.02.2020']), ('%m/%d/%y', ['02/03/20', '12/31/19', '11/30/21']), ('%Y-%m-%d', ['2020-02-03', '2019-12-31', '2021-01-01']), ('%d %b %Y', ['03 Feb 2020', '31 Dec 2019', '29 Feb 2020']), ('%Y%m%d', ['20200203', '20191231', '20210228'])]):
        d = choice('d', ts)
        add('date%d' % k, [F3, A1, ('date_format', f)], [[d, 'x', v], [ts[1], 'y', '-3']])
    d = choice('d', ['03', '15', '29'])
    add('datepart', [('fields', 'y, m, d, description, amount'), A1, ('date', '%d%.%m%.20%y%'), ('date_format', '%d.%m.%Y')], [['20', '02', d, 'x', v], ['19', '11', '30', 'y', '-1']], header='a,b,c,d,e')
    add('datereset', [('date_format', '%d.%m.%Y'), ('date', '01.01.2020'), F3, A1, ('date_format', None), ('date', None)], [['2020/02/03', 'x', v]])
    add('journaldate', [F3, A1, ('date_format', '%d.%m.%Y')], [['03.02.2020', 'x', v], ['30.11.2020', 'y', '-3']], head='date_format %Y-%m-%d\n', fmt='%Y-%m-%d')
    # decimals
    for k, (rule, dec) in enumerate([('decimal_symbol', ','), ('decimal', ','), ('decimal', "'")]):
        def fm(n, dec=dec):
            return ('-' if n < 0 else '0') + '%d%s%02d' % (abs(n) // 100, dec, abs(n) % 100)
        v = intvar('v', -250, 250, scale=100, fmt=fm)
        add('decimal%d' % k, [F3, A1, (rule, dec)], [['2020/02/03', 'x', v], ['2020/02/04', 'y', '12%s5' % dec]])
    v = intvar('v', 1, 250, scale=100)
    add('decimaldot', [('decimal', ','), F3, A1, ('decimal', None)], [['2020/02/03', 'x', v]])
    add('group', [F3, A1], [['2020/02/03', 'x', v], ['2020/02/04', 'y', '1,234.50'.replace(',', '')]])
    # accounts and amounts
    v, w = intvar('v', 1, 99), intvar('w', 1, 99)
    F5 = ('fields', 'date, description, n, m, t')
    acc = choice('t', ['food', 'fun', 'b'])
    for k, rs in enumerate([
            [('account', 'assets'), ('amount', '%n%'), ('account2', '%t%')],
            [('account1', '%t%'), ('amount1', '%n%'), ('account2', 'assets')],
            [('account1', 'assets'), ('amount1', '-%n%'), ('account2', '%t%'), ('amount2', '%n%')],
            [('account', '%t%'), ('amount', '-%n%')],
            [('account1', 'assets'), ('amount1', '%n%'), ('account2', '%t%'), ('amount2', '%m%'), ('account3', 'unknown')],
            [('accountx', 'assets'), ('amountx', '%n% EUR'), ('accounty', '%t%')],
            [('account', 'assets'), ('amount', '$%n%')],
            [('account', 'assets'), ('amount', '-$%n%')],
            [('account', 'assets'), ('amount', '%n% BTC @ %m%'), ('account2', '%t%')],
            [('account', 'assets'), ('amount', '%n% BTC = %m%'), ('account2', '%t%')],
            [('account', 'assets'), ('amount', '%n% BTC @ $%m%'), ('account2', '%t%')],
            [('account', 'assets'), ('amount', '%m%'), ('amount', '%n%'), ('account', '%t%')],
            [('account', 'assets'), ('account2', '%t%'), ('amount2', '%n%')],
            [('account', '%t%'), ('account7', 'assets'), ('amount7', '-%n%'), ('amount3', '5')],
            [('account', 'assets'), ('amount', '%n%'), ('account2', 'fun'), ('account2', None)],
            [('account', 'assets'), ('amount', '%n%'), ('account2', '%t%'), ('amount2', '5'), ('amount2', None)],
            [('amount', '5'), ('account', 'assets'), ('amount1', '%n%'), ('account1', '%t%'), ('amount', None)]]):
        add('posting%d' % k, [F5] + rs, [['2020/02/03', 'x', v, w, acc], ['2020/02/04', 'y', '8', '8' if k != 4 else '5', 'food']], header='a,b,c,d,e')
    add('defaults', [('fields', 'date, description, account, amount')], [['2020/02/03', 'x', acc, v], ['2020/02/04', 'y', 'food', '-5']], header='a,b,c,d')
    cur = choice('cur', ['EUR', 'USD', 'BTC'])
    for k in range(3):
        c = ['EUR', 'USD', 'BTC'][k]
        add('currency%d' % k, [('fields', 'date, description, amount, cur'), A1, ('amount', '%amount% %cur%')], [['2020/02/03', 'x', v, c], ['2020/02/04', 'y', '-2', 'EUR']], header='a,b,c,d')
    # layout of the rules and the csv file
    v = intvar('v', -N, N)
    rs = [F3, A1, ('description', 'd %description%')]
    add('layout1', rs, [['2020/02/03', 'x', v]], rtext='\n; comment\n\nfields   date,description,amount  ; fields\n// more\naccount\tassets\n   description    d %description%\n\n')
    add('layout2', rs, [['2020/02/03', 'x', v], ['2020/02/04', 'y', '3']], csv=csv_text([['2020/02/03', 'x', v], ['2020/02/04', 'y', '3']], 'h1,h2,h3', eol='\r\n'))
    add('layout3', rs, [['2020/02/03', 'x', v], ['2020/02/04', 'y', '3']], csv=csv_text([['2020/02/03', 'x', v], ['2020/02/04', 'y', '3']], 'h1,h2,h3', quote=True))
    add('layout4', rs, [['2020/02/03', 'x', v], ['2020/02/04', 'y', '3']], csv=['h1,h2,h3\n\n2020/02/03,x,', v, '\n\n2020/02/04,y,3'])
    add('layout5', rs, [['2020/02/03', 'x', v]], rtext='   \n  ; comment\nfields   date,description,amount\n\t\n    // more\naccount assets\n \ndescription d %description%\n    ')
    add('empty', rs, [], csv='h1,h2,h3\n')
    # included rules, the rules given by name
    for k in ('include', 'use'):
        add('include_' + k, rs, [['2020/02/03', 'x', v]], rtext='fields date,description,amount\n%s r/more.rules\ndescription d %%description%%\n' % k, files=[('/w/r/more.rules', 'account assets\ndescription e\n')])
    add('include_twice', rs, [['2020/02/03', 'x', v]], rtext='include r/a.rules\nfields date,description,amount\nuse r/a.rules\ninclude r/b.rules\ndescription d %description%\n', files=[('/w/r/a.rules', 'account assets\ndescription e\n'), ('/w/r/b.rules', 'include r/a.rules\n')])
    add('byname1', rs, [['2020/02/03', 'x', v]], argv=['--csv', CSV, '--rules', '/w/r/other.rules'], files=[('/w/r/other.rules', rules_text(rs)), (RULES, 'account food\n')])
    add('byname2', rs, [['2020/02/03', 'x', v]], argv=['--rules-file', '/w/r/other.rules', '--csv-file', CSV], files=[('/w/r/other.rules', rules_text(rs))])
    # the rules lie beside the csv file, whatever its name
    for k, nm in enumerate(['/w/bank', '/w/b.CSV', '/w/a.b.csv', '/w/.csv', '/w/x.txt', '/w/d e/f g.csv', '/w/d.csv/x', '/w/ü.csv']):
        add('named%d' % k, rs, [['2020/02/03', 'x', v]], at=nm, files=[('/w/bank.csv.rules', 'account food\n'), ('/w/a.rules', 'account food\n'), ('/w/x.csv.rules', 'account food\n')])
    # figures of many digits
    for k, (lo, sc_) in enumerate([(123456789012, 100000), (98765432101, 1000), (10 ** 11, 100)]):
        add('digits%d' % k, [F3, A1], [['2020/02/03', 'x', intvar('v', lo, lo + 60, scale=sc_)], ['2020/02/04', 'y', '-12345678.9012']])
    # rules of many shapes
    for k in range(40 if not T else 400):
        x = WideImport(k, 0)
        add('wide%d' % k, x.rules, x.records, header=x.header, rtext=x.text())
    # with the automatic move in the same run, and the balances afterwards
    sc = Sc('after', seed=3)
    v, w = intvar('v', -N, N), intvar('w', -N, N)
    recs = [['2020/02/03', 'x', v], ['2020/02/04', 'y', w]]
    sc.file(J, ACC, FIRST)
    sc.file(CSV, csv_text(recs, 'a,b,c'))
    sc.file(RULES, rules_text(rs))
    sc.run('i', '-f', J, '--csv', CSV)
    sc.run('b', '-f', J, seed=5)

    def spec(p, v=v, w=w):
        if not accepted(p, p.runs[0]):
            return
        check_import(p, appended(p, p.runs[0]), rs, [['h']] + recs)
        if not accepted(p, p.runs[1]):
            return
        g = dict(R.balance(p, p.runs[1]))
        a, b = p.num(v), p.num(w)
        want = {'assets': a + b + Q(10), 'b': Q(-10), 'income:unknown': -(qmax(a, 0) + qmax(b, 0)), 'expenses:unknown': -(qmin(a, 0) + qmin(b, 0)), 'unknown': Q(0)}
        for n, x in want.items():
            p.must(g.get(n, {}).get('', Q(0)).near(x), 'the balance of %s after the import is wrong' % n)
        p.reach('imported')
    sc.spec = spec
    out.append(sc)
    return out


BOUNDS = 'up to 4 records of up to 5 fields (in part 20 records, 12 fields); amounts symbolic (whole numbers up to 60, 600 thorough; cents up to 3.00; 61 values each around 1.2, 99 and 1000 million), dates, texts, statuses, accounts symbolic among 3-9 values; five date formats, three decimal symbols, skip 0-5, 17 ways to write postings, prices; csv files of nine names; rules with comments, includes, repeated and reset rules; csv with quotes, blank lines and CRLF'
OUTSIDE = 'negative skip; fields that contain %name% themselves; the order of the postings inside an entry'
