"""C03: entries that do not balance are refused."""
from sf.common import *


def one(name, posts, nums, cmd='b', extra=(), seed=1, move=False, before=(), after=()):
    """posts: journal lines of one entry; accepted iff the numbers sum to zero"""
    sc = Sc(name, seed=seed)
    accts = ['assets:a', 'assets:b', 'assets:c', 'assets:d', 'assets:e']
    txt = [['account ', a, '\n', '    expense food due every 1st\n        amount 100\n        funding aggressive\n    goal usd due every 1st\n        amount $100\n' if a == 'assets:a' else ''] for a in accts]
    txt += list(before)
    txt += ['2020/01/05 * x\n'] + list(posts) + list(after)
    sc.file(J, txt)
    sc.run(cmd, '-f', J, *([] if move else ['--no-move']), tty=120)

    def spec(p):
        s = qsum([f(p) for f in nums])
        either(p, p.runs[0], s.same(0), 'an entry whose amounts sum to zero/not to zero')
    sc.spec = spec
    return sc


def scenarios(tier):
    T = tier == 'thorough'
    out = []

    def vs(n, **k):
        return [intvar('v%d' % i, -99, 99, **k) for i in range(n)]
    for n in (1, 2, 3, 4) if not T else (1, 2, 3, 4, 5):
        for scale in (1, 10, 100):
            v = vs(n, scale=scale, width=1 if scale == 10 else None)
            out.append(one('n%d_s%d' % (n, scale), [['  assets:%s  ' % 'abcde'[i], v[i], '\n'] for i in range(n)], [lambda p, x=x: p.num(x) for x in v], seed=n))
    # eight decimals
    v = intvar('a', 0, 30000, scale=10 ** 8, width=4)
    w = intvar('b', 0, 30000, scale=10 ** 8, width=4)
    out.append(one('tiny', [['  assets:a  ', v, '\n'], ['  assets:b  -', w, '\n']], [lambda p, v=v: p.num(v), lambda p, w=w: -p.num(w)]))
    # large amounts that differ in the last digits
    for k, (lo, scale) in enumerate([(100000000, 100), (10 ** 9, 100), (5 * 10 ** 9, 1000)]):
        v, w = intvar('a', lo, lo + 60, scale=scale), intvar('b', lo, lo + 60, scale=scale)
        out.append(one('large%d' % k, [['  assets:a  ', v, '\n'], ['  assets:b  -', w, '\n']], [lambda p, v=v: p.num(v), lambda p, w=w: -p.num(w)]))
    # many postings, the last ones symbolic
    for k, at in enumerate([(0, 9), (7, 8, 9), (5, 6)]):
        v = [intvar('v%d' % i, -99, 99) if i in at else None for i in range(10)]
        fix = [F(i - 4, 2) for i in range(10)]
        out.append(one('long%d' % k, [['  assets:%s  ' % 'abcde'[i % 5], v[i] if v[i] is not None else str(float(fix[i])), '\n'] for i in range(10)],
                       [(lambda p, x=v[i]: p.num(x)) if v[i] is not None else (lambda p, x=fix[i]: Q(x)) for i in range(10)], seed=1 + k))
    # foreign currency, prefix and suffix spelling of the same symbol
    v = vs(3)
    out.append(one('foreign', [['  assets:a  $', v[0], '\n'], ['  assets:b  ', v[1], '$\n'], ['  assets:c  ', v[2], ' $\n']], [lambda p, x=x: p.num(x) for x in v]))
    v = vs(2)
    out.append(one('foreign_cost', [['  assets:a  ', v[0], ' AAPL @ 3\n'], ['  assets:b  ', v[1], ' AAPL = 99\n']], [lambda p, x=x: p.num(x) for x in v]))
    # the same account twice
    v = vs(3)
    out.append(one('same', [['  assets:a  ', x, '\n'] for x in v], [lambda p, x=x: p.num(x) for x in v]))
    # envelope postings around them
    for k in range(3):
        v = vs(2)
        e = intvar('e', -99, 99)
        ps = [['  assets:a  ', v[0], '\n'], ['  assets:b  ', v[1], '\n']]
        ps.insert(k, ['  envelope assets:a food ', e, '\n'])
        if k == 1:
            ps.append(['  envelope assets:a usd $7\n'])
        out.append(one('env%d' % k, ps, [lambda p, x=x: p.num(x) for x in v]))
    # a balance assertion that holds does not exempt the entry
    for k in range(3):
        v = vs(2)
        ps = [['  assets:a  ', v[0], ' ! ' if k != 1 else '', v[0] if k != 1 else '', '\n'], ['  assets:b  ', v[1], ' ! ' if k else '', v[1] if k else '', '\n']]
        out.append(one('assert%d' % k, ps, [lambda p, x=x: p.num(x) for x in v], seed=1 + k))
    # other commands, other entries before and after
    good = ['2020/01/02 ? g\n  assets:d 12.5\n  assets:e -12.5\n']
    for cmd in 'er':
        v = vs(2)
        out.append(one('cmd_' + cmd, [['  assets:a  ', v[0], '\n'], ['  assets:b  ', v[1], '\n']], [lambda p, x=x: p.num(x) for x in v], cmd=cmd, before=good))
    v = vs(2)
    sc = one('move', [['  assets:c  ', v[0], '\n'], ['  assets:b  ', v[1], '\n']], [lambda p, x=x: p.num(x) for x in v], move=True, after=good)
    out.append(sc)
    # statuses and dates do not exempt an entry
    v = vs(2)
    st = choice('st', ['*', '~', '?'])
    sc = Sc('status')
    sc.file(J, 'account assets:a\naccount assets:b\n2030/01/01 ', st, ' later\n  assets:a ', v[0], '\n  assets:b ', v[1], '\n')
    sc.run('b', '-f', J)
    sc.spec = lambda p, v=v: either(p, p.runs[0], (p.num(v[0]) + p.num(v[1])).same(0), 'an entry')
    out.append(sc)
    return out


BOUNDS = 'entries of 1-5 postings (4 quick), and of 10 with two or three symbolic ones, amounts -99..99 at 0-2 decimals and 0..0.0003 at 8 decimals'
OUTSIDE = 'entries that mix currencies (nothing is claimed for them without a blank); sums beyond 5000, where rounding noise grows'
