"""C04: an amount is read as the number and currency it spells."""
import itertools, re
from sf.common import *

SYMS = ['$', 'EUR', '\u20ac', 'x', 'AAPL', 'lb', 'BITCOIN', 'goldcoins_of_x']


def spelled(t):
    """the documented spellings -> (number, symbol); 'refuse' for a text without a readable number; None: nothing claimed"""
    t = t.strip()
    if not re.search(r'\d', t):
        return 'refuse'
    u = t.replace('--', '') if re.fullmatch(r'(?:--)?[^-]*(?:--)?[^-]*', t) else t
    num = r'(?:\d{1,3}(?:,\d{3})+|\d+)(?:\.\d+)?'
    sym = r'[^\s\d.,;@!=/|-]+'
    for r in (r'(?P<m>-?)(?P<n>%s)(?: ?(?P<s>%s))?' % (num, sym), r'(?P<m>-?)(?P<s>%s) ?(?P<n>%s)' % (sym, num), r'(?P<s>%s) ?(?P<m>-?)(?P<n>%s)' % (sym, num)):
        g = re.fullmatch(r, u)
        if g:
            s = g.group('s') or ''
            if s in ('e', 'E') or (s and re.search(r'\d[eE]$', u)):
                return None
            q = F(g.group('n').replace(',', ''))
            return (-q if g.group('m') else q), s
    if len(re.findall(r'[.]', u)) > 1 and not re.search(r'[^\d.]', u):
        return 'refuse'
    return None


def spell(name, style, sym, v, neg, where='posting', seed=1):
    """one spelling with symbolic digits"""
    sc = Sc(name, seed=seed)
    t = []
    for piece in re.split(r'(N|S)', style):
        t.append(v if piece == 'N' else sym if piece == 'S' else piece)
    want = lambda p: -p.num(v) if neg else p.num(v)
    if where == 'posting':
        sc.file(J, 'account a\naccount b\n2020/01/01 * x\n    a  ', t, '\n    b\n')
        sc.run('b', '-f', J, '-n')
        sc.spec = lambda p: (expect_balances(p, p.runs[0], {'a': {sym: want(p)}, 'b': {sym: -want(p)}}), p.reach('read'))
    elif where == 'envelope':
        sc.file(J, 'account a\n    expense food due every 1st\n        amount ', 'S7'.replace('S', sym if sym else ''), '\n2020/09/12 * x\n    envelope a food ', t, '\n')
        sc.run('e', '-f', J, '-n')

        def spec(p):
            if not accepted(p, p.runs[0]):
                return
            g = R.envelopes(p, p.runs[0])
            x = g['a']['envs'][('expense', 'food')]
            p.must(x['sym'] == sym, 'currency of the envelope')
            p.must((x['now'] + x['next']).near(want(p)), 'an envelope posting is read as another number')
            p.reach('read')
        sc.spec = spec
    elif where == 'target':
        sc.file(J, 'account a\n    expense food due every 1st\n        amount ', t, '\n')
        sc.run('e', '-f', J, '-n')

        def spec(p):
            if not accepted(p, p.runs[0]):
                return
            x = R.envelopes(p, p.runs[0])['a']['envs'][('expense', 'food')]
            p.must(x['sym'] == sym, 'currency of the target')
            p.must(x['target'].near(want(p)), 'the amount of an envelope is read as another number')
            p.reach('read')
        sc.spec = spec
    else:
        # a price: native, so the symbol stays empty; the blank shows what was read
        op = {'cost': '@', 'total': '='}[where]
        sc.file(J, 'account a\naccount b\naccount c\n2020/01/01 * x\n    a  3 ZZZ ', op, ' ', t, '\n    b  1\n    c\n')
        sc.run('b', '-f', J, '-n')

        def spec(p):
            w = want(p) * 3 if where == 'cost' else want(p)
            expect_balances(p, p.runs[0], {'a': {'ZZZ': Q(3)}, 'b': {'': Q(1)}, 'c': {'': -w - 1}})
            p.reach('read')
        sc.spec = spec
    return sc


def soup(name, alphabet, n, pre='', post=''):
    """every text of n characters of the alphabet"""
    ts = [pre + ''.join(x) + post for x in itertools.product(alphabet, repeat=n)]
    ts = [t for t in ts if t.strip() and '//' not in t]
    sc = Sc(name)
    v = choice('t', ts)
    ex = [spelled(t) for t in ts]
    sc.file(J, 'account a\naccount b\n2020/01/01 * x\n    a  ', v, '\n    b\n')
    sc.run('b', '-f', J, '-n')
    bad = [i for i, e in enumerate(ex) if e == 'refuse']
    good = [i for i, e in enumerate(ex) if isinstance(e, tuple)]

    def spec(p):
        r = p.runs[0]
        if not r.ok:
            p.must(z3.Not(p.among(v, good)), 'a readable amount is refused: ' + r.err[-120:])
            p.must(r.out.strip() == '', 'a report in spite of an error')
            p.reach('refused')
            return
        p.reach('read')
        p.must(z3.Not(p.among(v, bad)), 'a text without a readable number is taken as an amount')
        for s in sorted({ex[i][1] for i in p.vals(v) if isinstance(ex[i], tuple)}):
            mine = [i for i in p.vals(v) if isinstance(ex[i], tuple) and ex[i][1] == s]
            with p.given(p.among(v, mine)):
                if not p.possible():
                    continue
                got = dict(R.balance(p, r)).get('a', {})
                p.must(set(got) == {s}, 'the currency %r is read as %r' % (s, sorted(got)))
                if set(got) == {s}:
                    tab = [ex[i][0] if i in set(mine) else ex[mine[0]][0] for i in range(v.n)]
                    p.must(got[s].near(p.num(v, tab)), 'another number is read')
    sc.spec = spec
    return sc


NONUM = ['abc', '$', '-', '.', ',', '--', 'EUR', '$-', 'one', 'NaN', 'inf', '-inf', 'infinity', '..', '-.', '$.', 'nan', 'e', '\u20ac', '-x', '%', '(', '*', '+', '$ -']


def nonum(name, where):
    v = choice('t', NONUM)
    sc = Sc(name)
    tpl = {'posting': ['account a\naccount b\n2020/01/01 * x\n    a  ', v, '\n    b\n'],
           'full': ['account a\naccount b\n2020/01/01 * x\n    a  ', v, '\n    b  0\n'],
           'envelope': ['account a\n    expense food due every 1st\n        amount 7\n2020/01/01 * x\n    envelope a food ', v, '\n'],
           'target': ['account a\n    expense food due every 1st\n        amount ', v, '\n'],
           'cost': ['account a\naccount b\n2020/01/01 * x\n    a  3 EUR @ ', v, '\n    b\n'],
           'total': ['account a\naccount b\n2020/01/01 * x\n    a  3 EUR = ', v, '\n    b\n'],
           'assertion': ['account a\naccount b\n2020/01/01 * x\n    a  3 EUR ! ', v, '\n    b\n']}[where]
    sc.file(J, tpl)
    cmd = choice('cmd', ['balance', 'envelopes'])
    sc.run(cmd, '-f', J)
    sc.spec = lambda p: (refused(p, p.runs[0], 'a text without a number'), p.reach('refused'))
    return sc


def scenarios(tier):
    T = tier == 'thorough'
    out = []
    digits = {
        'int': lambda: intvar('n', 1, 9999),
        'dec2': lambda: intvar('n', 0, 9999, scale=100, width=2),
        'dec8': lambda: intvar('n', 1, 9999, scale=10 ** 8, width=1),
        'long': lambda: intvar('n', 123456780, 123456789 + 4000),
        'group': lambda: intvar('n', 1000000, 1009999, fmt=lambda k: '%d,%03d,%03d' % (k // 1000000, k // 1000 % 1000, k % 1000)),
        'group2': lambda: Var('n', 9000, ['%d,%03d.%02d' % (1 + k // 1000, k % 1000, k % 100) for k in range(9000)], [F(1000 + k) + F(k % 100, 100) for k in range(9000)]),
        'nolead': lambda: intvar('n', 0, 999, scale=1000, fmt=lambda k: '.%03d' % k),
        'notail': lambda: intvar('n', 0, 999, fmt=lambda k: '%03d.' % k),
    }
    for d in digits:
        out.append(spell('plain_' + d, 'N', '', digits[d](), False))
        out.append(spell('minus_' + d, '-N', '', digits[d](), True))
        out.append(spell('twice_' + d, '--N', '', digits[d](), False))
    styles = [('SN', 0), ('S N', 0), ('NS', 0), ('N S', 0), ('-SN', 1), ('-S N', 1), ('S-N', 1), ('S -N', 1), ('-NS', 1), ('-N S', 1), ('--SN', 0), ('S--N', 0), ('--N S', 0), ('--NS', 0), ('--S--N', 0), ('----N S', 0), ('S----N', 0), ('-S--N', 1)]
    for i, (st, neg) in enumerate(styles):
        for k, sym in enumerate(SYMS):
            if not T and (i + k) % 3:
                continue
            d = list(digits)[(i + 2 * k) % 6]
            out.append(spell('style%d_%d_%s' % (i, k, d), st, sym, digits[d](), bool(neg), seed=1 + k))
            for w in ('envelope', 'target') if T else ('envelope',) if (i + k) % 2 else ('target',):
                if w == 'target' and neg:
                    continue
                out.append(spell('%s%d_%d_%s' % (w, i, k, d), st, sym, digits[d](), bool(neg), w))
    for d in ('int', 'dec2', 'group', 'group2'):
        for w in ('cost', 'total', 'target', 'envelope'):
            out.append(spell('%s_%s' % (w, d), 'N', '', digits[d](), False, w))
    for w in ('posting', 'full', 'envelope', 'target', 'cost', 'total', 'assertion'):
        out.append(nonum('nonum_' + w, w))
    out.append(soup('soup3', '05.-$x' if not T else '059.,-$xE', 3))
    out.append(soup('soup_mid', '5,.-x$ ', 2, '1', '7'))
    if T:
        out.append(soup('soup4', '5.-$x', 4))
        out.append(soup('soup_end', '5,.-x$ ', 3, '12'))
        out.append(soup('soup_start', '5,.-x$', 3, '', '70'))
    return out


BOUNDS = 'up to 10 000 numbers per spelling (up to 9 digits, up to 8 decimals, digit groups, no leading or trailing digit), 14 arrangements of sign and symbol, 6 symbols, as posting, envelope move, target, price and total; all texts of 3 (4 thorough) characters over small alphabets; 25 texts without digits'
OUTSIDE = 'texts that are not an amount but contain digits, such as 1 2, 5x3, 1e5 (nothing is claimed); other decimal symbols outside imports'
