"""C07: comments, blank lines and spacing carry no meaning."""
import re
from sf.common import *

K = '/w/k.sfox'


def base(v):
    """the lines of a journal that uses everything, as lists of words"""
    return [
        ['currency', '$'],
        ['date_format', '%Y/%m/%d'],
        ['include', 'inc.sfox'],
        ['account', 'assets:a'],
        ['    ', 'expense', 'food', 'due', 'every', '1st'],
        ['        ', 'amount', '50'],
        ['        ', 'funding', 'aggressive'],
        ['        ', 'for', 'ex:food'],
        ['    ', 'goal', 'trip', 'by', '2021/01/01'],
        ['        ', 'amount', '$31'],
        ['        ', 'funding', 'conservative'],
        ['    ', 'goal', 'gift', 'due', 'every', 'other', 'friday', 'starting', '2020/02/07'],
        ['        ', 'amount', '20', 'EUR'],
        ['account', 'ex:food'],
        ['account', 'equity'],
        ['2020/07/01', '*', 'Start', 'up', '[Me', 'too]'],
        ['    ', 'assets:a', v],
        ['    ', 'equity'],
        ['2020/08/05', '~', 'Buy', '[Shop]'],
        ['    ', 'assets:a', '-7'],
        ['    ', 'ex:food', '$7'],
        ['2020/08/06', '?', 'Move'],
        ['    ', 'envelope', 'assets:a', 'food', '3'],
        ['    ', 'envelope', 'assets:a', 'gift', '4', 'EUR'],
        ['2020/08/07', '*', 'Stock:'],
        ['    ', 'assets:b', '2', 'EUR', '@', '4'],
        ['    ', 'assets:a', '-8'],
        ['2020/08/08', '*', 'More'],
        ['    ', 'equity'],
        ['    ', 'assets:b', '1', 'EUR', '=', '4.5', '!', '3', 'EUR'],
    ]


INC = 'account assets:b\n'


def join(words, sep=None):
    """sep: {gap: parts}; a first word of blanks is the indentation"""
    o, k = [], 0
    for i, w in enumerate(words):
        if i:
            if i == 1 and isinstance(words[0], str) and not words[0].strip():
                pass
            else:
                # the number stands two blanks from its account
                o.append((sep or {}).get(k, '  ' if isinstance(words[0], str) and not words[0].strip() and i == 2 else ' '))
                k += 1
        o.append((sep or {}).get('indent', w) if i == 0 and isinstance(w, str) and not w.strip() else w)
    return o


def gaps(words):
    n = len(words) - 1
    return n - 1 if isinstance(words[0], str) and not words[0].strip() else n


def lines(v, sep={}, end={}, before={}, tail=''):
    o = []
    ls = base(v)
    for i, w in enumerate(ls):
        o += [before.get(i, ''), join(w, sep.get(i)), end.get(i, ''), '\n']
    return o + [before.get(len(ls), ''), tail]


def skeleton(t):
    t = re.sub(r'[-\d.\ue000-\uf8ff]+', '#', t)
    return re.sub(r'\s+', ' ', t)


def scenarios(tier):
    T = tier == 'thorough'
    out = []
    n = len(base(''))

    def pair(name, v, text, inc=INC, runs='e'):
        sc = Sc(name, seed=1 + len(out) % 5)
        sc.file(J, lines(v))
        sc.file(K, text)
        sc.file('/w/inc.sfox', INC)
        if inc is not INC:
            sc.file('/w/inc2.sfox', inc)
        for f in (J, K):
            for c in runs:
                sc.run(c, '-f', f, *([] if c == 'e' else ['-n']), tty=160)

        def spec(p):
            m = len(runs)
            for a, b, c in zip(p.runs[:m], p.runs[m:], runs):
                if not (accepted(p, a) and accepted(p, b)):
                    return
                same_figures(p, a, b, c, '')
                if c == 'e':
                    x, y = moves(p, a, NOW, J), moves(p, b, NOW, K)
                    p.must([q[:3] for q in x] == [q[:3] for q in y], 'the automatic moves differ')
                    for q, r in zip(x, y):
                        p.must(q[3].near(r[3]), 'an automatic move differs')
                    x, y = [{(n, k): e['due'] for n, g in R.envelopes(p, r).items() for k, e in g['envs'].items()} for r in (a, b)]
                    p.must(x == y, 'due dates differ: %r %r' % (x, y))
                else:
                    p.must(skeleton(a.out) == skeleton(b.out), 'the reports differ: %r %r' % (a.out, b.out))
                    untouched(p, b, 'the run')
            p.reach('same')
        sc.spec = spec
        out.append(sc)
    val = lambda: choice('v', ['60', '5', '999'])
    ends = [' ; 5', ';9', ' //5', ' // envelope assets:a food 9', '//', ' ;', '\t;[', ' ; ! 77', ';; ]', '//;', ' ; é\u3000', ' ;=1 @2 !3', '   ', '\t', ' ; // 2020/01/01 * y', ' ;account z', ';"', ';//', ';// note', ' ;//5', '///', '//;// x', ';/', ' ;/ 5', ' // ; // [']
    own = [';\n', '; 5\n', '//\n', '// account z\n', '    ; food\n', '\t// 7\n', '        ; amount 9\n', ' ;\n', '\n', '   \n', '\t\n', '\n\n\n', '; 2020/01/01 * y\n', ';    assets:a 5\n', '    //\n\n  ;\n', '\u3000\n', '            ;deep\n', ';// 5\n', '    ;//\n', '///\n', '//;\n', ';/ account z\n']
    blanks = ['  ', '   ', '\t', ' \t ', '      ']
    ind = {4: ['  ', '\t', '     ', '   '], 8: ['\t\t', '      ', '         ', '            ']}
    kinds = lambda i: 'bre' if T else 're' if i < n and base('')[i][0][0] == '2' else 'e' if i < 15 else 'be'
    for i in range(n):
        v = '60'
        pair('end%d' % i, v, lines(v, end={i: choice('c', ends)}), runs=kinds(i))
    for i in range(n + 1):
        v = '60'
        pair('own%d' % i, v, lines(v, before={i: choice('c', own)}), runs=kinds(i))
    for i in range(n):
        w = base('')[i]
        seps = {g: choice('g%d' % g, blanks if gaps(w) < 2 else blanks[:3] if gaps(w) < 3 else ['  ', '\t']) for g in range(min(gaps(w), 2))}
        if gaps(w) > 2:
            for g in range(2, gaps(w)):
                seps[g] = seps[g % 2]
        v = val() if i == 16 else '60'
        pair('space%d' % i, v, lines(v, sep={i: seps}), runs=kinds(i))
        # an amount's own words stay apart by one blank or more, its account by one or more
        if w[0].startswith(' '):
            pair('indent%d' % i, '60', lines('60', sep={i: dict(indent=choice('i', ind[len(w[0])]))}))
        else:
            pass
    v = val()
    c = choice('c', ends)
    pair('end_all', v, lines(v, end={i: c for i in range(n)}))
    c = choice('c', [x + 'long text ' * m for x in (';', ' ;', '//', '\t//') for m in (7, 13, 27)])
    pair('end_long', '60', lines('60', end={i: c for i in range(n)}))
    c = choice('c', [' ' * m + x for x in (';', '// 5', '; envelope') for m in (20, 50, 90)])
    pair('end_far', '60', lines('60', end={i: c for i in range(n)}))
    v = val()
    c = choice('c', own)
    pair('own_all', v, lines(v, before={i: c for i in range(n + 1)}))
    v = val()
    s = choice('s', blanks)
    pair('space_all', v, lines(v, sep={i: {g: s for g in range(9)} for i in range(n)}))
    pair('two', '60', lines('60', end={15: choice('c', ends[:5]), 16: choice('d', ends[3:8])}, before={17: choice('e', own[3:5])}))
    v = val()
    pair('eof', v, lines(v, tail=choice('c', ['; x', '//', '    ; 5', '    ', '\n\n', '   // 9\n   '])))
    for k in range(3):
        c = [choice('b', own) if k == 0 else '', 'account assets:b', choice('c', ends) if k == 1 else '', '\n', choice('d', own[:10]) if k == 2 else '']
        pair('inc%d' % k, '60', [x if x != 'inc.sfox' else 'inc2.sfox' for x in flat(lines('60'))], inc=c)
    return out


def flat(l):
    o = []
    for x in l:
        o += flat(x) if isinstance(x, list) else [x]
    return o


BOUNDS = 'a journal of 30 lines with every kind of line; one of 25 comments or blanks at the end of each line, one of 22 comments or blank lines before each line and at the end, one of 2-5 kinds of white space in every gap (two gaps of a line vary independently), 4 kinds of indentation per line, all lines together, in the journal and in an included file'
OUTSIDE = 'other journals; rules and csv files; comments inside quoted or bracketed text'
