"""C24: the journal's date format governs every date in it."""
from sf.common import *
from sf.imports import *
from props.c17 import CSV, RULES
from props.c09 import BIG

# formats, and whether one variable may run through all days (texts of one length)
FMTS = ['%Y/%m/%d', '%Y-%m-%d', '%d.%m.%Y', '%m/%d/%Y', '%d/%m/%Y', '%Y%m%d', '%d-%b-%Y', '%y/%m/%d', '%m-%d-%y', '%Y-%j', '%d%m%Y', '%b/%d/%Y', '%F', '%D']


def st(d, fmt):
    return d.strftime(fmt)


def days(first, n, step=1):
    return [first + DAY * step * i for i in range(n)]


def dv(name, ds, fmt):
    return Var(name, len(ds), [st(d, fmt) for d in ds], list(ds))


def head(fmt, k=0):
    if fmt is None:
        return ''
    return ['date_format %s\n', 'date_format   %s  ; dates\n', '; x\ndate_format\t%s\n', 'date_format %s // x\n'][k % 4] % fmt


def scenarios(tier):
    T = tier == 'thorough'
    out = []

    def new(name):
        sc = Sc(name, seed=1 + len(out) % 5)
        out.append(sc)
        return sc

    # entries: each keeps its day, they are listed by day, and the day is shown in the format
    for k, fmt in enumerate([None] + FMTS):
        f = fmt or '%Y/%m/%d'
        ds = days(D(2019, 11, 20), 500 if not T else 1500)
        a = dv('a', ds, f)
        mid = D(2020, 4, 11)
        sc = new('entry%d' % k)
        j = Journal()
        j.fmt = f
        j.raw(head(fmt, k)).account('assets').account('b')
        j.entry(a, Post('assets', amt(F(5))), Post('b'), desc='moving')
        j.entry(mid, Post('assets', amt(F(7))), Post('b'), desc='fixed')
        sc.file(J, j.text())
        sc.run('r', '-f', J, '-n', tty=100)

        def spec(p, a=a, mid=mid, f=f):
            if not accepted(p, p.runs[0]):
                return
            g = R.register(p, p.runs[0])
            p.must(sorted(l['desc'] for l in g) == ['fixed', 'moving'], 'entries listed: %r' % [l['desc'] for l in g])
            if len(g) != 2:
                return
            first = g[0]['desc'] == 'moving'
            p.must(where(p, (lambda x, y: x <= y) if first else (lambda x, y: x > y), a, mid), 'the entries are not in the order of their days')
            for l in g:
                if l['desc'] == 'moving':
                    p.must(p.text_is(l['date'], a, {i: a.text[i] for i in p.vals(a)}), 'a date is shown as %s' % l['date'])
                else:
                    p.must(p.text_is(l['date'], None, st(mid, f)), 'a date is shown as %s' % l['date'])
            p.reach('before' if first else 'after')
        sc.spec = spec

    # formats without leading zeros: one length of text at a time
    for k, f in enumerate(['%e.%m.%Y', '%-d.%-m.%Y', '%-m/%-d/%y', '%Y/%-m/%-d', '%e-%b-%Y']):
        w = lambda d, f=f: st(d, f).strip()
        ds = days(D(2019, 11, 20), 420)
        for n in sorted({len(w(d)) for d in ds}):
            ok = [d for d in ds if len(w(d)) == n]
            a = Var('a', len(ok), [w(d) for d in ok], ok)
            mid = D(2020, 4, 3) if n % 2 else D(2020, 4, 13)
            sc = new('short%d_%d' % (k, n))
            sc.file(J, head(f, k), 'account assets\naccount b\n', a, ' * moving\n    assets  5\n    b\n', w(mid), ' * fixed\n    assets  7\n    b\n')
            sc.run('r', '-f', J, '-n', tty=100)

            def spec(p, a=a, mid=w(mid), md=mid):
                if not accepted(p, p.runs[0]):
                    return
                g = R.register(p, p.runs[0])
                p.must(sorted(l['desc'] for l in g) == ['fixed', 'moving'], 'entries listed: %r' % [l['desc'] for l in g])
                if len(g) != 2:
                    return
                first = g[0]['desc'] == 'moving'
                p.must(where(p, (lambda x, y: x <= y) if first else (lambda x, y: x > y), a, md), 'the entries are not in the order of their days')
                for l in g:
                    if l['desc'] == 'moving':
                        p.must(p.text_is(l['date'].strip(), a, {i: a.text[i] for i in p.vals(a)}), 'a date is shown as %s' % l['date'])
                    else:
                        p.must(p.text_is(l['date'].strip(), None, mid), 'a date is shown as %s' % l['date'])
                p.reach('before' if first else 'after')
            sc.spec = spec
            b = Var('b', len(ok), [w(d) for d in ok], ok)
            sc = new('shortonce%d_%d' % (k, n))
            sc.file(J, head(f, k), 'account a\n    goal y by ', b, '\n        amount 1\n    goal z due every year starting ', b, '\n        amount 1\n')
            sc.run('e', '-f', J, '-n', clock=D(2019, 11, 19))

            def spec(p, b=b):
                if not accepted(p, p.runs[0]):
                    return
                for e in 'yz':
                    t = R.envelopes(p, p.runs[0])['a']['envs'][('goal', e)]['due']
                    p.must(t is not None, 'no due date is shown')
                    if t is not None:
                        p.must(p.text_is(t, b, {i: b.vals[i].isoformat() for i in p.vals(b)}), 'the due date is read as another day: %s' % t)
                p.reach('coming')
            sc.spec = spec

    # due dates and starting dates
    for k, fmt in enumerate([None] + FMTS):
        f = fmt or '%Y/%m/%d'
        once = dv('once', days(D(2020, 8, 1), 300 if not T else 900), f)
        sc = new('once%d' % k)
        sc.file(J, head(fmt, k), 'account a\n    goal y ', ['by ', 'due ', 'due by '][k % 3], once, '\n        amount 1\n')
        sc.run('e', '-f', J, '-n', clock=NOW)

        def spec(p, once=once):
            if not accepted(p, p.runs[0]):
                return
            t = R.envelopes(p, p.runs[0])['a']['envs'][('goal', 'y')]['due']
            coming = [i for i in p.vals(once) if once.vals[i] > NOW]
            if t is None:
                p.must(z3.Not(p.among(once, coming)), 'no due date is shown')
                p.reach('past')
            else:
                p.must(p.among(once, coming), 'a due date that has passed is shown')
                p.must(p.text_is(t, once, {i: once.vals[i].isoformat() for i in p.vals(once)}), 'the due date is read as another day: %s' % t)
                p.reach('coming')
        sc.spec = spec
        # yearly from a starting date, which has to be read to know the day of the year
        s = dv('s', days(D(2020, 9, 20), 360), f)
        sc = new('start%d' % k)
        sc.file(J, head(fmt, k), 'account a\n    expense y due every year starting ', s, '\n        amount 1\n')
        sc.run('e', '-f', J, '-n', clock=NOW)

        def spec(p, s=s):
            if not accepted(p, p.runs[0]):
                return
            t = R.envelopes(p, p.runs[0])['a']['envs'][('expense', 'y')]['due']
            p.must(t is not None, 'no due date is shown')
            if t is not None:
                p.must(p.text_is(t, s, {i: s.vals[i].isoformat() for i in p.vals(s)}), 'the starting date is read as another day: %s' % t)
            p.reach('coming')
        sc.spec = spec

    # what silverfox appends, on every day; the next run understands it as today
    for k, fmt in enumerate([None] + FMTS):
        f = fmt or '%Y/%m/%d'
        today = datevar('today', days(D(2019, 12, 20), 120 if not T else 800))
        sc = new('move%d' % k)
        j = Journal()
        j.fmt = f
        j.raw(head(fmt, k)).account('a', Env('x', amt(BIG), ('never',), 'due every 31st', funding='aggressive')).account('b')
        j.entry(D(2019, 12, 1), Post('a', amt(F(50))), Post('b'))
        sc.file(J, j.text())
        sc.run('b', '-f', J, clock=today)
        sc.run('b', '-f', J, clock=today, seed=4)

        def spec(p, today=today, f=f):
            for r in p.runs:
                if not accepted(p, r):
                    return
            ms = moves(p, p.runs[0], today, fmt=f)
            p.must(len(ms) == 1, 'one move is expected: %r' % (ms,))
            same, base, rest = p.runs[1].files[J]
            p.must(rest.strip() == '' and same == base, 'the second run of the day does not find the move of today')
            p.reach('moved')
        sc.spec = spec

    # imports: the rules' format reads the csv, the journal's format writes the entry
    for k, (jf, rf) in enumerate([(None, '%d.%m.%Y'), ('%d.%m.%Y', None), ('%d.%m.%Y', '%m/%d/%Y'), ('%Y-%m-%d', '%Y%m%d'), ('%m/%d/%Y', '%d/%m/%Y'), ('%d/%m/%Y', '%m/%d/%Y'), ('%d-%b-%Y', '%y/%m/%d'), ('%Y-%j', '%D')]):
        d = dv('d', days(D(2019, 12, 20), 120 if not T else 500), rf or '%Y/%m/%d')
        sc = new('import%d' % k)
        sc.file(J, head(jf, k), 'account assets\naccount income:unknown\n')
        sc.file(CSV, 'h1,h2,h3\n', d, ',shop,5\n', st(D(2020, 11, 10), rf or '%Y/%m/%d'), ',last,6\n')
        sc.file(RULES, 'fields date,description,amount\naccount assets\n', 'date_format %s\n' % rf if rf else '')
        sc.run('i', '-f', J, '-n', '--csv', CSV)

        def spec(p, d=d, jf=jf or '%Y/%m/%d'):
            if not accepted(p, p.runs[0], 'the import'):
                return
            es = R.entries(p, appended(p, p.runs[0]))
            p.must([e['desc'] for e in es] == ['shop', 'last'], 'entries written: %r' % [e['desc'] for e in es])
            if len(es) == 2:
                p.must(p.text_is(es[0]['date'], d, {i: st(d.vals[i], jf) for i in p.vals(d)}), 'an entry is dated %s' % es[0]['date'])
                p.must(p.text_is(es[1]['date'], None, st(D(2020, 11, 10), jf)), 'an entry is dated %s' % es[1]['date'])
            p.reach('imported')
        sc.spec = spec

    # the format of the first part governs it, the format of the second the rest and what is appended
    for k, (f1, f2, how) in enumerate([(None, '%d.%m.%Y', 0), ('%m/%d/%Y', '%d/%m/%Y', 0), ('%d/%m/%Y', '%m/%d/%Y', 0), (None, '%Y-%m-%d', 1), ('%d/%m/%Y', '%m/%d/%Y', 1), ('%d/%m/%Y', '%m/%d/%Y', 2), (None, '%d-%m-%Y', 3)]):
        g1, g2 = f1 or '%Y/%m/%d', f2
        a, b = dv('a', days(D(2020, 1, 1), 12, 31), g1), dv('b', days(D(2020, 1, 2), 12, 31), g2)
        sc = new('change%d' % k)
        e1 = [a, ' * one\n    assets  5\n    b\n']
        e2 = [b, ' * two\n    assets  7\n    b\n']
        acc = 'account assets\n    expense x due every 1st\n        amount 100\n        funding aggressive\naccount b\n'
        if how == 0:
            sc.file(J, head(f1, k), acc, e1, head(f2), e2)
        else:
            sc.file(J, head(f1, k), acc, e1, 'include more.sfox\n', e2)
            names = ['more', 'deep', 'deeper'][:how]
            for x, y in zip(names, names[1:]):
                sc.file('/w/%s.sfox' % x, 'include %s.sfox\n' % y)
            sc.file('/w/%s.sfox' % names[-1], head(f2))
        sc.run('r', '-f', J, tty=100)

        def spec(p, a=a, b=b, g2=g2):
            if not accepted(p, p.runs[0]):
                return
            g = R.register(p, p.runs[0])
            p.must(sorted(l['desc'] for l in g) == ['one', 'two'], 'entries listed: %r' % [l['desc'] for l in g])
            if len(g) != 2:
                return
            first = g[0]['desc'] == 'one'
            p.must(where(p, (lambda x, y: x <= y) if first else (lambda x, y: x > y), a, b), 'the entries are not in the order of their days')
            for l in g:
                v = a if l['desc'] == 'one' else b
                p.must(p.text_is(l['date'], v, {i: st(v.vals[i], g2) for i in p.vals(v)}), 'a date is shown as %s' % l['date'])
            ms = moves(p, p.runs[0], NOW, fmt=g2)
            p.must(len(ms) == 1, 'one move is expected: %r' % (ms,))
            p.reach('first' if first else 'second')
        sc.spec = spec

    # dates in any other format are refused, wherever they stand
    day = D(2020, 11, 25)
    for k, fmt in enumerate([None] + FMTS[1:8]):
        f = fmt or '%Y/%m/%d'
        texts = sorted({st(day, g) for g in FMTS if len(st(day, g)) == len(st(day, g)) and g not in (f,)} - {st(day, f)})
        texts = [t for t in texts if not readable(t, f)] + [st(day, f)]
        places = [('%s * x\n    a  1\n    b\n', 'b'), ('account c\n    goal z by %s\n        amount 1\n', 'e'), ('account c\n    expense z due every year starting %s\n        amount 1\n', 'e')]
        for m, (pl, cmd) in enumerate(places):
            t = choice('t', texts)
            x, y = pl.split('%s')
            sc = new('other%d_%d' % (k, m))
            sc.file(J, head(fmt, k), 'account a\naccount b\n', x, t, y)
            sc.run(cmd, '-f', J)

            def spec(p, t=t, n=len(texts)):
                either(p, p.runs[0], p.among(t, [n - 1]), 'a date in another format')
            sc.spec = spec
    # a format in which dates cannot be written
    t = choice('t', ['', ' ', ' ; %Y/%m/%d', ' %Q', ' %Y/%m/%', ' %H:%M', ' %Y/%m/%d', ' %d.%m.%Y ; x'])
    sc = new('format')
    sc.file(J, 'account a\naccount b\ndate_format', t, '\n')
    sc.run('b', '-f', J)

    def spec(p):
        either(p, p.runs[0], p.among(t, [6, 7]), 'the format')
    sc.spec = spec
    return out


def readable(t, f):
    import datetime
    # chrono reads one- and two-digit numbers, and a year of any length: leave out what could be read at all
    g = {'%F': '%Y-%m-%d', '%D': '%m/%d/%y'}.get(f, f)
    try:
        datetime.datetime.strptime(t, g)
        return True
    except ValueError:
        pass
    import re
    seps = re.sub(r'%.', '', g)
    return re.sub(r'[0-9A-Za-z]', '', t) == seps


BOUNDS = '14 date formats besides the default one, 5 more without leading zeros; entry dates, once-only due dates, starting dates and today symbolic over 120-500 (1500 thorough) days; formats changed midway and in an included file; csv dates in 8 pairs of formats'
OUTSIDE = 'formats with spaces, time zones or years of more than four digits; the form of the due date in the envelopes report (C08)'
