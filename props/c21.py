"""C21: balance assertions are enforced."""
from sf.common import *

# an account with money to move: a journal that is accepted by mistake would be written to
HEAD = 'account f\n    expense x due every 1st\n        amount 100\n        funding aggressive\naccount a\n    expense y due every 1st\n        amount 100\n    goal z due every 1st\n        amount 100 EUR\naccount b\naccount assets:long:a\naccount eq\n2020/01/01 * s\n    f  60\n    eq\n'


def scenarios(tier):
    T = tier == 'thorough'
    out = []

    def gate(name, text, good, cmd='b', files=(), move=True, head=HEAD):
        sc = Sc(name, seed=1 + len(out) % 7)
        sc.file(J, head, text)
        for f, t in files:
            sc.file(f, t)
        sc.run(cmd, '-f', J, *([] if move else ['-n']), tty=120)

        def spec(p):
            r = p.runs[0]
            c = good(p)
            if r.ok:
                p.must(c, 'accepted, but an assertion does not hold')
                p.reach('accepted')
            else:
                p.must(z3.Not(c) if not isinstance(c, bool) else not c, 'refused, but every assertion holds: ' + r.err[-200:])
                refused(p, r, 'the journal')
                p.reach('refused')
        sc.spec = spec
        out.append(sc)
    iv = lambda n, lo=-99, hi=99, **k: intvar(n, lo, hi, **k)
    W = 999 if T else 150
    E = '2020/02/01 * x\n'
    # one posting; the asserted number as is
    for sc in (1, 10, 100) if not T else (1, 10, 100, 1000):
        v, w = iv('v', -W, W, scale=sc, width=None if sc == 1 else 2 if sc > 10 else 1), iv('w', -W, W, scale=sc, width=None if sc == 1 else 2 if sc > 10 else 1)
        gate('one_%d' % sc, [E, '    a  ', v, ' ! ', w, '\n    b\n'], lambda p, v=v, w=w: p.num(v).same(p.num(w)))
    # earlier entries count, later ones do not, whatever their dates
    for k, (d1, d2, d3) in enumerate([('2020/01/01', '2020/02/01', '2020/03/01'), ('2020/03/01', '2020/02/01', '2020/01/01'), ('2020/02/01', '2020/02/01', '2020/02/01'), ('2030/01/01', '2020/01/01', '2020/01/01')]):
        u, v, w = iv('u'), iv('v'), iv('w', -250, 250)
        gate('order%d' % k, [d1, ' * x\n    a  ', u, '\n    b\n', d2, ' ~ x\n    b\n    a  ', v, ' ! ', w, '\n', d3, ' ? x\n    a  7\n    b\n'], lambda p, u=u, v=v, w=w: (p.num(u) + p.num(v)).same(p.num(w)), cmd=['b', 'e', 'r', 'b'][k])
    # postings of the same entry: those above count, those below do not
    u, v, w = iv('u'), iv('v'), iv('w', -250, 250)
    gate('above', [E, '    a  ', u, '\n    a  ', v, ' ! ', w, '\n    b\n'], lambda p, u=u, v=v, w=w: (p.num(u) + p.num(v)).same(p.num(w)))
    u, v, w = iv('u'), iv('v'), iv('w')
    gate('below', [E, '    a  ', u, ' ! ', w, '\n    a  ', v, '\n    b\n'], lambda p, u=u, v=v, w=w: p.num(u).same(p.num(w)))
    u, w, x = iv('u'), iv('w'), iv('x')
    gate('two', [E, '    a  ', u, ' ! ', w, '\n    b  ! ', x, '\n'], lambda p, u=u, w=w, x=x: z3.And(p.num(u).same(p.num(w)), (p.num(u) + p.num(x)).same(0)))
    u, w, x = iv('u'), iv('w'), iv('x')
    gate('twice', [E, '    a  ', u, ' ! ', w, '\n    b  -3\n', '    eq\n2020/02/02 * y\n    a  4 ! ', x, '\n    b\n'], lambda p, u=u, w=w, x=x: z3.And(p.num(u).same(p.num(w)), (p.num(u) + 4).same(p.num(x))))
    # the blank amount
    for k in range(2):
        u, w = iv('u', -99, 99), iv('w', -120, 120)
        ps = [['    b  ', u, '\n'], ['    a  ! ', w, '\n']]
        gate('blank%d' % k, ['2020/01/03 * y\n    a  9\n    b\n', E, ps[k], ps[1 - k]], lambda p, u=u, w=w: (Q(9) - p.num(u)).same(p.num(w)))
    u, w = iv('u', -9, 9), iv('w', -40, 40)
    gate('blank_cost', [E, '    b  ', u, ' EUR @ 3\n    a  ! ', w, '\n    b  2\n'], lambda p, u=u, w=w: (p.num(u) * -3 - 2).same(p.num(w)))
    # an assertion beside a price, in either order; it counts in the posting's own currency
    for k, (x, y) in enumerate([(' ! W EUR', ' = 5'), (' ! W EUR', ' @ 3'), (' = 5', ' ! W EUR'), (' @ 3', ' ! W'), (' ! W', ' @ 3'), (' ! W', ' = $5')]):
        u, v, w = iv('u', 1, 40), iv('v', 1, 40), iv('w', -90, 90)
        sp = lambda t, w=w: [w if c == 'W' else c for c in t]
        gate('price%d' % k, ['2020/01/02 * p\n    a  ', u, ' EUR\n    b\n2020/01/02 * p\n    a  5\n    b\n', E, '    a  ', v, ' EUR', sp(x), sp(y), '\n    b\n'], lambda p, u=u, v=v, w=w: (p.num(u) + p.num(v)).same(p.num(w)), cmd=['b', 'e', 'r'][k % 3])
    # currencies
    for k, (x, y) in enumerate([(' EUR', ''), (' EUR', ' EUR'), (' EUR @ 3', ''), (' EUR = 7', ' EUR'), (' EUR', ' USD'), ('', ' EUR')]):
        u, v, w = iv('u'), iv('v'), intvar('w', 1, 250)
        ok = k < 4
        gate('cur%d' % k, ['2020/01/02 * p\n    a  ', u, ' EUR\n    b\n2020/01/02 * p\n    a  5\n    b\n2020/01/03 * p\n    a  6 USD\n    b\n', E, '    a  ', v, x, ' ! ', w, y, '\n    b  \n'],
             lambda p, u=u, v=v, w=w, ok=ok: (p.num(u) + p.num(v)).same(p.num(w)) if ok else False)
    u, w, x = iv('u'), iv('w'), iv('x')
    gate('readme', ['2020/01/03 * y\n    a  ', u, ' BTC\n    b\n2020/01/03 * y\n    a  2 ETH\n    b\n', E, '    a  -1 BTC ! ', w, '\n    b\n2020/02/02 * q\n    a  -2 ETH ! ', x, '\n    b\n'], lambda p, u=u, w=w, x=x: z3.And((p.num(u) - 1).same(p.num(w)), p.num(x).same(0)))
    for k, sp in enumerate([['$', 'V'], ['$-', 'V'], ['-$', 'V'], ['V', ' $'], ['--', 'V']]):
        u, w = iv('u', -9, 9), intvar('w', 0, 20)
        neg = k in (1, 2)
        gate('spell%d' % k, [E, '    a  ', '$' if k < 4 else '', u, '\n    b\n2020/02/02 * q\n    a  ', '$2' if k < 4 else '2', ' ! ', [w if s == 'V' else s for s in sp], '\n    b\n'],
             lambda p, u=u, w=w, neg=neg: (p.num(u) + 2).same(-p.num(w) if neg else p.num(w)))
    # other accounts, parents and envelope moves do not count
    u, v, w = iv('u'), iv('v'), iv('w')
    gate('others', [E, '    assets:long:a  ', u, '\n    a  ', v, ' ! ', w, '\n    b\n'], lambda p, v=v, w=w: p.num(v).same(p.num(w)))
    u, v, w = iv('u'), iv('v'), iv('w')
    gate('envelope', ['2020/01/03 * y\n    envelope a y ', u, '\n', E, '    envelope a y 3\n    a  ', v, ' ! ', w, '\n    envelope a z 2 EUR\n    b\n'], lambda p, v=v, w=w: p.num(v).same(p.num(w)))
    # sums that floating point numbers cannot represent, large and small amounts
    u, v, w = iv('u', 0, 9, scale=10, width=1), iv('v', 0, 9, scale=10, width=1), iv('w', 0, 18, scale=10, width=1)
    gate('tenths', [E, '    a  ', u, '\n    a  ', v, ' ! ', w, '\n    b\n'], lambda p, u=u, v=v, w=w: (p.num(u) + p.num(v)).same(p.num(w)))
    v, w = iv('v', 0, 300, scale=10 ** 6, width=6), iv('w', 0, 300, scale=10 ** 6, width=6)
    gate('small', [E, '    a  ', v, ' ! ', w, '\n    b\n'], lambda p, v=v, w=w: p.num(v).same(p.num(w)))
    v, w = intvar('v', 99999900, 99999999, scale=100), intvar('w', 99999900, 99999999, scale=100)
    gate('large', [E, '    a  ', v, ' ! ', w, '\n    b\n'], lambda p, v=v, w=w: p.num(v).same(p.num(w)))
    # many entries
    n = 6
    vs = [iv('v%d' % i, -9, 9) for i in range(n)]
    w = iv('w', -250, 250)
    gate('sum', [['2020/01/%02d * e\n    a  ' % (20 - i), vs[i], '\n    b\n'] for i in range(n)] + [E, '    a  0 ! ', w, '\n    b\n'], lambda p, vs=vs, w=w: qsum([p.num(x) for x in vs]).same(p.num(w)))
    # dated after today, today, long ago; entries of many postings
    for k, d in enumerate(['2030/02/01', '2020/09/15', '1971/01/01', '2020/09/17']):
        u, v, w = iv('u'), iv('v'), iv('w', -250, 250)
        gate('when%d' % k, ['2020/01/02 * y\n    a  ', u, '\n    b\n', d, ' * x\n    a  ', v, ' ! ', w, '\n    b\n'], lambda p, u=u, v=v, w=w: (p.num(u) + p.num(v)).same(p.num(w)), cmd=['b', 'e', 'r', 'b'][k])
    for k in range(2):
        u, v, w = iv('u'), iv('v'), iv('w', -250, 250)
        fill_ = ['    eq  %d\n' % i for i in range(5)] + ['    a  3\n'] + ['    f  1\n' for i in range(4)]
        gate('postings%d' % k, [E, '    a  ', u, '\n'] + fill_ + ['    a  ', v, ' ! ', w, '\n', '    b\n'] if k == 0 else [E] + fill_ + ['    a  ', u, '\n    b\n    a  ', v, ' ! ', w, '\n'],
             lambda p, u=u, v=v, w=w: (p.num(u) + p.num(v) + 3).same(p.num(w)))
    # in included files, and before a later include
    u, v, w = iv('u'), iv('v'), iv('w', -250, 250)
    gate('inc', ['2020/01/03 * y\n    a  ', u, '\n    b\ninclude k.sfox\n'], lambda p, u=u, v=v, w=w: (p.num(u) + p.num(v)).same(p.num(w)), files=[('/w/k.sfox', [E, '    a  ', v, ' ! ', w, '\n    b\n'])])
    u, v, w = iv('u'), iv('v'), iv('w', -250, 250)
    gate('inc2', ['include k.sfox\n', E, '    a  ', v, ' ! ', w, '\n    b\ninclude l.sfox\n'], lambda p, u=u, v=v, w=w: (p.num(u) + p.num(v)).same(p.num(w)), files=[('/w/k.sfox', ['2020/05/03 * y\n    a  ', u, '\n    b\n']), ('/w/l.sfox', ['2020/01/03 * y\n    a  5\n    b\n'])])
    # declared currency
    for k, (x, y) in enumerate([('$', ''), ('', '$'), ('$', '$')]):
        u, v, w = iv('u'), iv('v'), intvar('w', 0, 250)
        gate('declared%d' % k, ['2020/01/03 * y\n    a  ', u, '\n    b\n', E, '    a  ', x, v, ' ! ', y, w, '\n    b\n'], lambda p, u=u, v=v, w=w: (p.num(u) + p.num(v)).same(p.num(w)), head='currency $\n' + HEAD)
    # comments do not count
    v, w = iv('v'), iv('w')
    gate('comment', [E, '    a  ', v, ' ; ! 99\n    b  // ! 5\n2020/02/02 * x\n    a  1 ! ', w, ' ; ! 3\n    b\n'], lambda p, v=v, w=w: (p.num(v) + 1).same(p.num(w)))
    # no number after the mark
    bad = ['', ' x', ' -', ' EUR', ' 5', ' 5.0', ' 1 1', ' !']
    c = choice('c', bad[:6])
    gate('bad', [E, '    a  5 !', c, '\n    b\n'], lambda p, c=c: p.among(c, [4, 5]))
    return out


BOUNDS = 'amounts and assertions -99..99 (-150..150 single) (0-2 decimals; 6 decimals; near a million with cents), up to 7 earlier postings to the account, three currencies, the assertion on the first, a middle or the last posting, two assertions per entry, entries of 12 postings, dates in any order and after today, included files'
OUTSIDE = 'differences below a hundred-millionth; the undocumented mark !! ; an assertion of zero in a currency other than that of the posting'
