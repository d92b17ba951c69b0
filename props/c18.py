"""C18: conditional import rules apply to exactly the matching records."""
from sf.common import *
from sf.imports import *
from props.c17 import imp, F3, A1, ACC, CSV, RULES, J

F4 = ('fields', 'date, description, amount, t')


def scenarios(tier):
    T = tier == 'thorough'
    out = []

    def add(*a, **k):
        k.setdefault('header', 'a,b,c,d')
        out.append(imp(*a, seed=1 + len(out), **k))
    v = intvar('v', -40, 40)
    w = intvar('w', 1, 99)
    # case and place of the pattern; the pattern may stand in any field
    low = ['coffee', 'Coffee', 'COFFEE', 'cof fee', 'xcoffeex', 'coffe', 'the coffee', 'coffee shop', 'tea', '', 'cOFFEe', 'offee']
    for k, pat in enumerate(['coffee', 'COFFEE', 'Coffee', 'off', 'fee s']):
        t = choice('t', low)
        add('case%d' % k, [F4, A1, ('comment', 'plain'), ('if', [pat], [('comment', 'matched')])], [['2020/02/03', 'x', v, t], ['2020/02/04', 'y', '5', 'none'], ['2020/02/05', 'z', '5', pat.upper()]])
    t = choice('t', ['bar', 'foo', 'Foo', 'fo o'])
    add('field1', [F4, A1, ('if', ['foo'], [('payee', 'p')])], [['2020/02/03', t, w, 'q'], ['2020/02/04', 'q', '-3', 'foo']])
    add('field2', [('fields', 'date, description, amount'), A1, ('if', ['foo'], [('payee', 'p')])], [['2020/02/03', 'x', w, 'q', t], ['2020/02/04', 'q', '-3', 'foo', '']], header='a,b,c,d,e')
    add('number', [F4, A1, ('if', ['2020/02'], [('payee', 'february')]), ('if', ['/01/'], [('payee', 'january')])], [['2020/02/03', 'x', '7', t], ['2020/01/04', 'q', '-3', 'foo'], ['2020/03/04', 'q', '-3', 'x']])
    add('unicode', [F4, A1, ('if', ['Äpfel'], [('payee', 'fruit')])], [['2020/02/03', 'x', w, choice('t', ['äpfel', 'ÄPFEL', 'apfel', 'Äpfe', 'Birnen'])], ['2020/02/04', 'q', '-3', 'Äpfel']])
    # patterns: several, on their own lines
    for k, pats in enumerate([['foo', 'bar'], [None, 'foo'], [None, 'foo', 'bar', 'two words'], ['foo', 'two words'], ['iffy', 'account'], ['fields', 'skip 1', 'foo']]):
        t = choice('t', ['foo', 'bar', 'barfoo', 'two words', 'twowords', 'iffy', 'account assets', 'skip 1', 'other', 'if'])
        add('patterns%d' % k, [F4, A1, ('comment', 'plain'), ('if', pats, [('comment', 'matched'), ('status', '*')])], [['2020/02/03', 'x', w, t], ['2020/02/04', 'y', '-5', 'other']])
    # the first block that matches wins; blocks do not leak into each other
    for k, bl in enumerate([
            [('if', ['foo'], [('comment', 'one')]), ('if', ['bar'], [('comment', 'two')])],
            [('if', ['foo'], [('comment', 'one')]), ('if', ['bar'], [('payee', 'two')])],
            [('if', ['foo'], [('payee', 'one')]), ('if', ['foo', 'bar'], [('comment', 'two')]), ('if', ['bar'], [('status', '*')])],
            [('if', ['bar'], [('description', 'one %description%')]), ('if', ['foo'], [('account2', 'food')]), ('if', ['o'], [('amount', '-%amount%')])],
            [('if', ['foo'], [('comment', 'one')]), ('comment', 'later'), ('if', ['bar'], [('payee', 'two')]), ('payee', 'end')],
            [('comment', 'zero'), ('if', ['foo'], [('payee', 'one')]), ('comment', None), ('status', '*'), ('if', ['bar'], [('payee', 'two')])]]):
        t = choice('t', ['foo', 'bar', 'foobar', 'bar foo', 'none', 'xoo', ''])
        u = choice('u', ['foo', 'bar', 'none'])
        add('blocks%d' % k, [F4, A1, ('amount', '%amount%')] + bl, [['2020/02/03', 'x', w, t], ['2020/02/04', 'y', '-5', u], ['2020/02/05', 'z', '6', '']])
    # many blocks, many patterns
    ws = ['one', 'two', 'three', 'four', 'five', 'six', 'seven', 'eight', 'nine']
    t = choice('t', ws + ['none'])
    add('blocks9', [F4, A1, ('comment', 'c0')] + [('if', [x], [('comment', 'seen %d' % i)]) for i, x in enumerate(ws)], [['2020/02/03', 'x', w, t], ['2020/02/04', 'y', '-5', 'nine'], ['2020/02/05', 'z', '6', 'zero']])
    add('patterns9', [F4, A1, ('comment', 'c0'), ('if', ws[:8], [('comment', 'seen')]), ('if', [None] + ws, [('payee', 'p')])], [['2020/02/03', 'x', w, t], ['2020/02/04', 'y', '-5', 'nine'], ['2020/02/05', 'z', '6', 'eight']])
    add('rules9', [F4, A1, ('amount', '%amount%'), ('if', ['one', 'two'], [('comment', 'c'), ('payee', 'p'), ('status', '*'), ('description', 'd %t%'), ('account', 'fun'), ('account2', 'food'), ('amount', '-%amount%'), ('date', '2019/01/02')])], [['2020/02/03', 'x', w, choice('t', ['one', 'two', 'zero'])], ['2020/02/04', 'y', '-5', 'none']])
    # what a block may change
    ov = [[('account', 'fun')], [('account2', 'food')], [('account2', '%t%')], [('amount', '-%amount%')], [('amount', '%amount% EUR')], [('status', '?')], [('description', 'seen')], [('payee', '%t%!')], [('note', 'n')], [('account', 'fun'), ('account2', 'food'), ('amount', '%amount% BTC @ 5')], [('date', '2019/12/31')], [('skip', '9')]]
    for k, o in enumerate(ov):
        t = choice('t', ['food', 'fun'])
        add('override%d' % k, [F4, A1, ('amount', '%amount%'), ('if', ['food'], o)], [['2020/02/03', 'x', v if k in (0, 3) else w, t], ['2020/02/04', 'y', '-5', 'none'], ['2020/02/05', 'z', '5', 'FOOD' if k not in (2,) else 'food']])
    t = choice('t', ['food', 'fun'])
    d = choice('d', ['03.02.2020', '04.12.2019'])
    add('override_date', [F4, A1, ('if', ['.20'], [('date_format', '%d.%m.%Y')])], [[d, 'x', w, t], ['2020/02/04', 'y', '-5', 'none'], ['05.06.2020', 'z', '5', 'q']])
    v2 = intvar('v', 1, 200, scale=100, fmt=lambda n: '%d,%02d' % (n // 100, n % 100))
    add('override_decimal', [F4, A1, ('if', ['comma'], [('decimal', ',')])], [['2020/02/03', 'x', v2, 'comma'], ['2020/02/04', 'y', '-5.25', 'none'], ['2020/02/05', 'z', '5.5', 'q']])
    # resetting values
    pre = [('comment', 'c0'), ('payee', 'p0'), ('status', '*'), ('description', 'd0'), ('account2', 'fun')]
    for k, n in enumerate(['comment', 'note', 'payee', 'status', 'description', 'account2']):
        t = choice('t', ['foo', 'bar', 'foobar'])
        add('reset_' + n, [F4, A1, ('amount', '%amount%')] + pre + [('if', ['foo'], [(n, None)])], [['2020/02/03', 'x', w, t], ['2020/02/04', 'y', '-5', 'none']])
        add('resetall_' + n, [F4, A1, ('amount', '%amount%')] + pre + [(n, None), ('if', ['foo'], [('comment', 'q')])], [['2020/02/03', 'x', w, t], ['2020/02/04', 'y', '-5', 'none']])
    add('reset_date', [('date_format', '%d.%m.%Y'), F4, A1, ('if', ['foo'], [('date_format', None)])], [['2020/02/03', 'x', w, 'foo'], ['05.06.2020', 'z', '5', 'q']])
    add('reset_decimal', [('decimal', ','), F4, A1, ('if', ['foo'], [('decimal', None)])], [['2020/02/03', 'x', '1.5', 'foo'], ['2020/02/03', 'z', '1,25', choice('t', ['q', 'r'])], ['2020/02/05', 'z', w, 'foo']])
    # layout of blocks
    body = [F4, A1, ('comment', 'plain'), ('if', ['foo', 'bar'], [('comment', 'matched'), ('payee', 'p')]), ('if', ['baz'], [('payee', 'q')])]
    t = choice('t', ['foo', 'bar', 'baz', 'none'])
    rec = [['2020/02/03', 'x', w, t], ['2020/02/04', 'y', '-5', 'none']]
    R1 = 'fields date,description,amount,t\naccount assets\ncomment plain\n'
    add('layout0', body, rec, rtext=R1 + 'if foo\nbar\n  comment matched\n  payee p\nif baz\n  payee q')
    add('layout1', body, rec, rtext=R1 + '\nif foo\nbar\n\tcomment matched\n\tpayee p\n\n\nif baz\n\tpayee q\n\n')
    add('layout2', body, rec, rtext=R1 + 'if foo\n; note\nbar\n\n    comment matched ; yes\n// note\n    payee   p\n\nif\nbaz\n    payee q\n')
    add('layout3', body, rec, rtext=R1.replace('\n', '\r\n') + 'if foo\r\nbar\r\n  comment matched\r\n  payee p\r\nif baz\r\n  payee q\r\n')
    add('layout4', body, rec, rtext=R1 + '  \nif foo\n   \nbar\n  ; x\n  comment matched\n\t\n    // if baz\n  payee p\n    \nif baz\n \n  payee q\n ')
    # rules of many shapes
    for k in range(60 if not T else 600):
        x = WideImport(1000 + k, 3)
        add('wide%d' % k, x.rules, x.records, header=x.header, rtext=x.text())
    # blocks in an included rules file count from where it is included
    add('included', body, rec, rtext='include r/base.rules\nif baz\n    payee q\n', files=[('/w/r/base.rules', R1 + 'if foo\nbar\n    comment matched\n    payee p\n')])
    # the same rules file in several places: at the top and in blocks
    for k, top in enumerate(['', 'include r/common.rules\n', 'include r/more.rules\n']):
        add('shared%d' % k, [F4, A1] + ([('comment', 'seen')] if top else []) + [('if', ['foo'], [('comment', 'seen'), ('payee', 'p')]), ('if', ['bar'], [('payee', 'q'), ('comment', 'seen')])], rec,
            rtext=top + 'fields date,description,amount,t\naccount assets\nif foo\n    include r/common.rules\n    payee p\nif bar\n    payee q\n    use r/common.rules\n', files=[('/w/r/common.rules', 'comment seen\n'), ('/w/r/more.rules', 'comment no\ninclude r/common.rules\n')])
    # many records: each is judged for itself
    ts = [choice('t%d' % i, ['foo', 'bar', 'none']) for i in range(4 if T else 3)]
    add('each', [F4, A1, ('account2', 'b'), ('amount', '%amount%'), ('if', ['foo'], [('account2', None), ('payee', 'one')]), ('if', ['bar'], [('account2', 'food'), ('status', '?')])], [['2020/02/0%d' % (i + 1), 'r', '%d' % (i + 3), x] for i, x in enumerate(ts)])
    return out


BOUNDS = 'up to 4 records, up to 3 blocks of up to 4 patterns (in part 9 blocks, 9 patterns, 9 rules); the text that decides is symbolic among up to 12 values in one or several records; amounts symbolic; every rule overridden and reset inside a block'
OUTSIDE = 'patterns that match across the border of two fields; patterns with spaces at the end; nested blocks'
