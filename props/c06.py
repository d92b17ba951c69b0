"""C06: no input makes silverfox crash or hang."""
from sf.common import *
from props.c09 import SCHED
from props.c15 import CSV, RULES

ODD = ['', ' ', '\t', '\u3000', '-', '--', '$', '-$', '$-', '.', ',', '5', '5.', '.5', '-.5', '1,2,3', '5 5', '$5 EUR', 'EUR', 'x', 'é', '€5', '5€', '[', ']', '[]', '][', '@', '=', '!', '@ =', '! !', ';', '//', '/', '"', '%', '%s', '{}', '\x00', '\u202e', '1e5', '1e999', 'inf', 'NaN', '99999999999999999999999999', '0.000000000000000000001', '-0', '2020/02/30', '2020/02/29', '0000/00/00', '9999/12/31', '262143/01/01', '+999999/1/1', '-1/1/1', '2020/1/1/1', '*', '~', '?', '~~', 'account', 'include', 'envelope', 'expense', 'for', 'due', 'every', '😀', 'a' * 200, 'éé', '日本語日本語', 'ß;', 'é//']


def scenarios(tier):
    T = tier == 'thorough'
    out = []

    def sc_(name, files, runs, seed=None, clock=NOW, tty=100):
        sc = Sc(name, seed=seed if seed is not None else 1 + len(out))
        for f, t in files.items():
            sc.file(f, t)
        for a in runs:
            sc.run(*a, clock=clock, tty=tty)

        def spec(p):
            for r in p.runs:
                p.must(not r.crashed, 'the run ended with %s' % r.end)
            p.reach('error' if any(r.err for r in p.runs) else 'done')
        sc.spec = spec
        out.append(sc)
    HEAD = 'account assets\n    expense x due every 1st\n        amount 50\n        funding aggressive\n        for food\naccount food\naccount unknown\naccount income:unknown\naccount expenses:unknown\n'
    ENT = '2020/08/01 * x\n    assets  7\n    food\n'
    o = lambda n='o': choice(n, ODD)
    few = ['', ' ', '-', '5', '$5', '[', ']', '@', '!', '= 5', '\u3000', 'é', '2020/01/01', '*']
    f = lambda n: choice(n, few)
    NM = ['b', '-f', J, '-n']
    # one odd thing at each place of a line
    lines = {
        'header0': [o(), ' * x\n    assets  5\n    food\n'],
        'header1': ['2020/08/02 ', o(), ' x\n    assets  5\n    food\n'],
        'header1b': ['2020/08/02', o(), '* x\n    assets  5\n    food\n'],
        'header2': ['2020/08/02 * ', o(), '\n    assets  5\n    food\n'],
        'header3': ['2020/08/02 * x [', o(), ']\n    assets  5\n    food\n'],
        'header4': ['2020/08/02 * x ', o(), ' y\n    assets  5\n    food\n'],
        'header5': ['2020/08/02 * x [y] ', o(), '\n    assets  5\n    food\n'],
        'header6': ['2020/08/02 * ', o(), ' [x]\n    assets  5\n    food\n'],
        'header7': ['2020/08/02 * ', o(), '[é] z\n    assets  5\n    food\n'],
        'post0': ['2020/08/02 * x\n    ', o(), '  5\n    food\n'],
        'post1': ['2020/08/02 * x\n    assets  ', o(), '\n    food\n'],
        'post2': ['2020/08/02 * x\n    assets  5 ', o(), '\n    food\n'],
        'post3': ['2020/08/02 * x\n    assets  5 EUR @ ', o(), '\n    food\n'],
        'post4': ['2020/08/02 * x\n    assets  5 EUR = ', o(), '\n    food  3\n    unknown\n'],
        'post5': ['2020/08/02 * x\n    assets  5 ! ', o(), '\n    food\n'],
        'post6': ['2020/08/02 * x\n    assets  5\n    food\n', o(), '\n'],
        'post7': ['2020/08/02 * x\n    assets  5\n    food\n    ', o(), '\n'],
        'post8': ['2020/08/02 * x\n    assets  5 @ 3 ', o(), ' ! 5\n    food\n'],
        'env0': ['2020/08/02 * x\n    envelope ', o(), ' x 5\n'],
        'env1': ['2020/08/02 * x\n    envelope assets ', o(), ' 5\n'],
        'env2': ['2020/08/02 * x\n    envelope assets x ', o(), '\n'],
        'env3': ['2020/08/02 * x\n    envelope', o(), '\n'],
        'env4': ['2020/08/02 * x\n    envelope assets ', o(), '\n'],
        'kw0': ['currency ', o(), '\n', ENT],
        'kw1': ['date_format ', o(), '\n', ENT],
        'kw2': ['include ', o(), '\n', ENT],
        'kw3': ['account ', o(), '\n', ENT],
        'kw4': [o(), '\n', ENT],
        'kw5': ['account y\n    ', o(), '\n', ENT],
        'acc0': ['account y\n    expense ', o(), ' due every 1st\n        amount 5\n', ENT],
        'acc1': ['account y\n    expense z ', o(), '\n        amount 5\n', ENT],
        'acc2': ['account y\n    expense z due ', o(), '\n        amount 5\n', ENT],
        'acc3': ['account y\n    expense z due every ', o(), '\n        amount 5\n', ENT],
        'acc4': ['account y\n    expense z due every other ', o(), ' starting 2020/01/01\n        amount 5\n', ENT],
        'acc5': ['account y\n    goal z by ', o(), '\n        amount 5\n', ENT],
        'acc6': ['account y\n    goal z due every year starting ', o(), '\n        amount 5\n', ENT],
        'acc7': ['account y\n    goal z due every other friday starting ', o(), '\n        amount 5\n', ENT],
        'acc8': ['account y\n    goal z due every friday\n        amount ', o(), '\n        funding conservative\n2020/08/02 * x\n    y  5\n    food\n'],
        'acc9': ['account y\n    goal z due every friday\n        amount 5\n        funding ', o(), '\n', ENT],
        'acc10': ['account y\n    goal z due every friday\n        amount 5\n        for ', o(), '\n', ENT],
        'acc11': ['account y\n    goal z due every friday\n        ', o(), ' 5\n', ENT],
        'acc12': ['account y\n    goal z no ', o(), '\n        amount 5\n', ENT],
    }
    for nm, l in lines.items():
        env = nm.startswith(('acc', 'env'))
        sc_(nm, {J: [HEAD, l]}, [['e', '-f', J] if env else NM] + ([['b', '-f', J]] if T else []))
    # two odd things
    two = {
        'two0': [f('p'), ' ', f('q'), '\n    assets  5\n    food\n'],
        'two1': ['2020/08/02 * ', f('p'), f('q'), '\n    assets  5\n    food\n'],
        'two2': ['2020/08/02 * x\n    assets  ', f('p'), ' ', f('q'), '\n    food\n'],
        'two3': ['2020/08/02 * x\n    ', f('p'), '\n    ', f('q'), '\n'],
    }
    for nm, l in two.items():
        sc_(nm, {J: [HEAD, l]}, [NM])
    # the same in the middle of words that are not ASCII
    for nm, l in list(lines.items()):
        if nm.startswith(('header', 'post', 'acc', 'env')):
            g = choice('o', ['é', 'éé', '日本', '\u3000', 'é 5', '5é', 'aé ;é', 'é //é', '[é', 'é]', '\u00a0', '𝒳', 'é!é', 'ﬁ', 'İ'])
            m = [g if isinstance(x, Var) else x.replace('x', 'é日x').replace('food', 'fooé') for x in l]
            sc_('wide_' + nm, {J: [HEAD.replace('x due', 'é日x due').replace('food', 'fooé'), m]}, [['e', '-f', J] if nm.startswith(('acc', 'env')) else NM])
    # entries of strange shapes, all reports
    shapes = choice('s', ['2020/08/02 * x\n', '2020/08/02 *\n    assets  5\n    food\n', '2020/08/02\n', '    assets 5\n', '2020/08/02 * x\n    assets\n', '2020/08/02 * x\n    assets\n    food\n', '2020/08/02 * x\n    assets  0\n    food\n', '2020/08/02 * x\n    assets  5\n',
                          '2020/08/02 * x\n    envelope assets x 5\n    envelope assets x -5\n', '2020/08/02 * x\n    assets  5 EUR\n    food  -5 USD\n', '2020/08/02 * x\n    assets  5 EUR\n    food  -5 USD\n    unknown\n', '2020/08/02 * x\n    assets  5 EUR\n    food  3\n    unknown\n',
                          '2020/08/02 * x\n    assets  -0\n    food  0\n', '2020/08/02 * x\n    envelope assets x -500\n', '2020/08/02 * x\n    envelope assets x 5 EUR\n', '2020/08/02 * x\n    assets  5\n    envelope assets x\n    food\n', '\n\n\n', 'account\n', 'account assets\n', '', '2020/08/02 * x\r\n    assets  5\r\n    food\r\n', '\ufeff2020/08/02 * x\n    assets  5\n    food\n'])
    for c in ('b', 'e', 'r', 'i', 's', 'n'):
        sc_('shape_' + c, {J: [HEAD, ENT, shapes], CSV: 'a,b,c\n2020/01/01,x,5\n', RULES: 'fields date,description,amount\naccount assets\n'}, [[c, '-f', J] + (['--csv', CSV] if c == 'i' else [])])
    # no terminal, narrow terminals
    for w in (0, 1, 10):
        sc_('width%d' % w, {J: [HEAD, '2020/08/02 * x\n    assets  ', intvar('v', -9, 9), '\n    food\n']}, [['r', '-f', J, '-n'], ['e', '-f', J, '-n']], tty=w)
    # figures without sense: empty, negative and enormous targets, contents and balances
    nums = ['0', '-5', '0.00000001', '-0.00000001', '1', '50', '1000000000000', '-1000000000000', '99999999999999999999999999999999999999', '0.1']
    for k, fu in enumerate(['aggressive', 'conservative', 'manual']):
        for l, t in enumerate(nums if T or k == 1 else nums[:3] + nums[-2:]):
            sc_('figures%d_%d' % (k, l), {J: ['account a\n    expense x due every 1st\n        amount ', t, '\n        funding ', fu, '\naccount b\n2020/08/01 * x\n', choice('v', ['    a  %s\n    b\n2020/09/03 * x\n    envelope a x %s\n' % (v, w) for v in nums for w in (nums if T else nums[:6])])]}, [['e', '-f', J]])
    # long texts in which every character takes several bytes, at every offset; large day numbers
    long = choice('o', [p_ + c * 110 for p_ in ('', 'x', 'xx', 'xxx') for c in ('é', '€', '😀')])
    for nm, l in lines.items():
        if nm in ('header2', 'header3', 'header5', 'header6', 'post0', 'post2', 'post3', 'env1', 'kw0', 'kw3', 'acc0', 'acc9', 'acc10', 'acc1'):
            l = [long if isinstance(x, Var) else x for x in l]
            sc_('longtext_' + nm, {J: [HEAD, l]}, [['e' if nm.startswith(('acc', 'env')) else 'r' if nm.startswith('header') else 'b', '-f', J, '-n']])
    sc_('longnames', {J: ['account assets:', long, '\n    goal ', long, ' due every 1st\n        amount 50 ', choice('s', ['', '€' * 40, 'x' + '€' * 40]), '\n        funding aggressive\naccount food\n2020/08/01 * ', long, '\n    assets:', long, '  7\n    food\n']}, [['b', '-f', J], ['e', '-f', J], ['r', '-f', J]])
    nth = choice('o', ['0', '1', '29', '31', '32', '45', '100', '255', '256', '257', '65535', '65536', '2147483647', '2147483648', '4294967293', '4294967294', '4294967295', '4294967296', '9223372036854775807', '18446744073709551615', '18446744073709551616', '99999999999999999999'])
    for k, t in enumerate([['due every ', nth, 'th'], ['due every other ', nth, 'th starting 2020/01/01'], ['due every ', nth, ''], ['due every ', nth, 'th starting 2020/01/31'], ['due every other ', nth, 'st']]):
        sc_('nth%d' % k, {J: [HEAD, 'account y\n    expense z ', t, '\n        amount 5\n        funding ', ['conservative', 'aggressive'][k % 2], '\n2020/08/02 * x\n    y  5\n    food\n']}, [['e', '-f', J]])
    # dates: every day of some years as today, for every schedule; far away days and starting dates
    days = [D(1970, 1, 1), D(1999, 12, 31), D(2000, 2, 29), D(2019, 2, 28), D(2020, 2, 29), D(2020, 12, 31), D(2038, 1, 19), D(2100, 2, 28), D(2400, 2, 29), D(9999, 12, 30), D(9999, 12, 31)]
    starts = ['0001/01/01', '1600/02/29', '1969/12/31', '2020/02/29', '2021/01/31', '9999/12/31', '99999/12/31', '262142/12/31', '-262143/01/01']
    for k, (nm, sch, txt) in enumerate(SCHED):
        sc_('today_' + nm, {J: ['account a\n    expense x ', txt, '\n        amount 50\n        funding conservative\naccount b\n2020/08/01 * x\n    a  99\n    b\n2020/08/02 * x\n    envelope a x 3\n']}, [['e', '-f', J]], clock=datevar('today', days))
    for k, txt in enumerate(['due every year starting ', 'due every other 31st starting ', 'due every other friday starting ', 'due every 31st starting ', 'due every friday starting ', 'by ']):
        for l, today in enumerate([D(1970, 1, 1), D(2020, 2, 29), D(9999, 12, 31)]):
            sc_('start%d_%d' % (k, l), {J: ['account a\n    expense x ', txt, choice('s', starts if k != 1 else starts[:-1]), '\n        amount 50\n        funding conservative\naccount b\n2020/08/01 * x\n    a  99\n    b\n2020/08/02 * x\n    envelope a x 3\n']}, [['e', '-f', J]], clock=today)
    sc_('entrydate', {J: [HEAD, choice('d', starts + ['2020/02/30', '2020/00/01', '20/1/1', '0/0/0']), ' * x\n    assets  5\n    food\n    ;\n', choice('d2', starts[:4]), ' * y\n    envelope assets x 5\n']}, [['e', '-f', J]])
    # import: odd fields and rules, strange csv files
    R0 = 'fields date,description,amount\naccount assets\n'
    C0 = 'a,b,c\n2020/01/01,x,5\n'
    imp = ['i', '-f', J, '-n', '--csv', CSV]
    imps = {
        'csv0': (R0, ['a,b,c\n', o(), ',x,5\n']), 'csv1': (R0, ['a,b,c\n2020/01/01,', o(), ',5\n']), 'csv2': (R0, ['a,b,c\n2020/01/01,x,', o(), '\n']), 'csv3': (R0, [o(), '\n2020/01/01,x,5\n', ]), 'csv4': (R0, ['a,b,c\n2020/01/01,x,5', o(), ',"', '\n']),
        'rules0': ([R0, o(), '\n'], C0), 'rules1': ([R0, o(), ' 5\n'], C0), 'rules2': ([R0, 'description ', o(), '\n'], C0), 'rules3': ([R0, 'status ', o(), '\n'], C0), 'rules4': ([R0, 'date ', o(), '\n'], C0), 'rules5': ([R0, 'date_format ', o(), '\n'], C0),
        'rules6': ([R0, 'skip ', o(), '\n'], C0), 'rules7': ([R0, 'decimal ', o(), '\n'], C0), 'rules8': ([R0, 'amount ', o(), '\n'], C0), 'rules9': ([R0, 'account ', o(), '\n'], C0), 'rules10': ([R0, 'account2 ', o(), '\n'], C0), 'rules11': ([R0, 'fields ', o(), '\n'], C0),
        'rules12': ([R0, 'include ', o(), '\n'], C0), 'rules13': ([R0, 'if ', o(), '\n    comment x\n'], C0), 'rules14': ([R0, 'if x\n', o(), '\n    comment x\n'], C0), 'rules15': ([R0, 'if x\n    ', o(), '\n'], C0), 'rules16': ([R0, 'if x\n    comment ', o(), '\n'], C0), 'rules17': ([R0, 'payee ', o(), '\n'], C0),
        'rules18': (['fields ', o(), ',date,description,amount\naccount assets\n'], ['a,b,c,d\nx,2020/01/01,x,5\n']), 'rules19': ([R0, 'if', o(), '\n'], C0), 'rules20': ([R0, 'amount', o(), ' 5\naccount', ' food\n'], C0),
    }
    for nm, (r, c) in imps.items():
        sc_(nm, {J: HEAD, CSV: c, RULES: r}, [imp])
    sc_('csvshape', {J: HEAD, RULES: [R0, 'skip ', choice('n', ['0', '1', '2', '3', '9', '-1', '2147483647', '-2147483648']), '\n'], CSV: choice('c', ['', '\n', '\n\n\n', 'a', 'a,b,c', 'a,b,c\n', 'a,b,c\n2020/01/01,x\n', 'a,b,c\n2020/01/01,x,5,6\n', '"', 'a,b,c\n"2020/01/01,x,5\n', 'a,b,c\n"2020/01/01","x","5"', ',,\n,,\n,,\n', 'a\n2020/01/01,x,5\n'])}, [imp])
    sc_('norules', {J: HEAD, CSV: C0}, [imp])
    sc_('ruleself', {J: HEAD, CSV: C0, RULES: ['include ', choice('r', ['c.csv.rules', './c.csv.rules', '../w/c.csv.rules', 'none', '.', '/']), '\n', R0]}, [imp])
    sc_('selfinclude', {J: ['include ', choice('r', ['j.sfox', './j.sfox', '../w/j.sfox', 'k.sfox', '.', '..', '/', 'none/', '~']), '\n', HEAD], '/w/k.sfox': 'include j.sfox\n'}, [['b', '-f', J]])
    return out


BOUNDS = 'one odd text out of 70 at each of 68 places of a journal, a rules file and a csv record, two odd texts at 4 places; 22 entry shapes for every command; 10 x 10 x 6 targets, balances and contents; 11 days and 9 starting dates from year -262143 to 262142 for every schedule; 13 csv shapes; texts of 110 characters of several bytes at 14 places; 21 day numbers up to 2^64; terminal widths 0, 1, 10, 100'
OUTSIDE = 'combinations of more than two oddities; very long files; failing memory allocation; closed standard output; command line arguments that are not text'
