"""C20: including a file is the same as writing its text in place."""
from sf.common import *
from props.c09 import SCHED, BIG
from props.c19 import expect_register

M1 = SCHED[0][1:]
K = '/w/single.sfox'


def same_run(p, a, b, cmd, what):
    p.must((a.err == '') == (b.err == ''), 'one is refused, the other is not%s: %r %r' % (what, a.err[-150:], b.err[-150:]))
    if a.err == '' and b.err == '':
        same_figures(p, a, b, cmd, what)


def scenarios(tier):
    T = tier == 'thorough'
    out = []
    N = 60 if not T else 500

    def blocks(v, w):
        """a journal in pieces, with its meaning"""
        j = Journal()
        parts = []

        def cut():
            parts.append(j.items)
            j.items = []
        j.account('assets', Env('x', amt(BIG), *M1, for_=['food'])).account('b')
        cut()
        j.account('food').account('income')
        cut()
        j.entry(D(2020, 8, 5), Post('assets', amt(v)), Post('income'), desc='one')
        cut()
        j.entry(D(2020, 9, 2), Post('assets', amt(w), env='x'), desc='two')
        j.entry(D(2020, 8, 3), Post('food', amt(F(4))), Post('assets'), desc='three')
        cut()
        j.entry(D(2020, 8, 5), Post('b', amt(w)), Post('assets'), desc='four')
        cut()
        j.items = [x for p_ in parts for x in p_]
        return j, parts

    LAY = {
        # name -> {file: [block numbers and 'include ...' lines]}
        'flat': {J: [0, 'include a.sfox\n', 2, 3, 4], '/w/a.sfox': [1]},
        'last': {J: [0, 1, 2, 'include a.sfox'], '/w/a.sfox': [3, 4]},
        'all': {J: ['include a.sfox\n', 'include b.sfox\n'], '/w/a.sfox': [0, 1], '/w/b.sfox': [2, 3, 4]},
        'nested': {J: ['include d/a.sfox\n', 4], '/w/d/a.sfox': [0, 'include e/b.sfox\n', 3], '/w/d/e/b.sfox': [1, 'include c.sfox\n'], '/w/d/e/c.sfox': [2]},
        'up': {J: ['include d/a.sfox\n', 'include ./d/../z.sfox\n'], '/w/d/a.sfox': [0, 'include ../y.sfox\n', 2], '/w/y.sfox': [1], '/w/z.sfox': [3, 'include d/b.sfox\n'], '/w/d/b.sfox': [4]},
        'siblings': {J: ['include d/a.sfox\n', 'include e/a.sfox\n', 'include a.sfox\n', 4], '/w/d/a.sfox': [0], '/w/e/a.sfox': [1, 'include more.sfox\n'], '/w/e/more.sfox': [2], '/w/a.sfox': [3]},
        'deep': {J: ['include 1/j.sfox\n'], '/w/1/j.sfox': ['include 2/j.sfox\n', 4], '/w/1/2/j.sfox': ['include 3/j.sfox\n', 3], '/w/1/2/3/j.sfox': ['include ../../../0/j.sfox\n', 2], '/w/0/j.sfox': [0, 1]},
        'spaced': {J: [0, 'include   a.sfox   ; here\n', '\n// x\n', 2, '\ninclude\tb.sfox', '\n', 4], '/w/a.sfox': ['\n; nothing\n', 1], '/w/b.sfox': [3, '\n\n']},
        'empty': {J: [0, 'include a.sfox\n', 1, 2, 3, 'include b.sfox\n', 4], '/w/a.sfox': [''], '/w/b.sfox': ['; only a comment']},
        'return': {J: ['include d/a.sfox\n', 'include d/e/k.sfox\n'], '/w/d/a.sfox': [0, 'include e/b.sfox\n', 'include c.sfox\n', 'include ../m.sfox\n'], '/w/d/e/b.sfox': ['include ../g/h.sfox\n', 'include q.sfox\n'], '/w/d/g/h.sfox': ['; nothing\n'], '/w/d/e/q.sfox': [1], '/w/d/c.sfox': [2], '/w/m.sfox': [3], '/w/d/e/k.sfox': [4], '/w/d/e/c.sfox': ['decoy'], '/w/d/g/q.sfox': ['decoy'], '/w/c.sfox': ['decoy']},
        'crowd': {J: ['include p%d.sfox\n' % i for i in range(9)], **{'/w/p%d.sfox' % i: [i // 2] if i % 2 == 0 else ['; part %d\n' % i] for i in range(9)}},
        'chain': {J: [0, 'include c0/j.sfox\n', 4], **{'/w/' + '/'.join('c%d' % h for h in range(i + 1)) + '/j.sfox': ['; %d\n' % i] + ([1] if i == 3 else []) + (['include c%d/j.sfox\n' % (i + 1)] if i < 8 else [2, 3]) for i in range(9)}},
    }
    for k, (nm, lay) in enumerate(LAY.items()):
        for cmd in ('b', 'e', 'r'):
            if cmd == 'r' and nm in ('all', 'deep', 'empty') and not T:
                continue
            v, w = intvar('v', -N if cmd == 'b' else 1, N), intvar('w', 1, N)
            j, parts = blocks(v, w)
            sc = Sc('%s_%s' % (nm, cmd), seed=1 + k)
            for f, ps in lay.items():
                sc.file(f, [parts[x] if isinstance(x, int) else x for x in ps])
            sc.file(K, j.text())
            sc.run(cmd, '-f', J, '-n', tty=100, cwd='/w')
            sc.run(cmd, '-f', K, '-n', tty=100, cwd='/w')

            def spec(p, j=j, cmd=cmd):
                a, b = p.runs
                if not accepted(p, a):
                    return
                same_run(p, a, b, cmd, ' between the split journal and the single file')
                for r in p.runs:
                    untouched(p, r, 'reading')
                if cmd == 'b':
                    expect_balances(p, a, balances(p, j.entries))
                elif cmd == 'e':
                    expect_envelopes(p, a, j, NOW)
                p.reach('same')
            sc.spec = spec
            out.append(sc)
    # order matters: what an included file declares counts from there on; date formats and currencies too
    v = intvar('v', 1, N)
    E1 = ['2020/08/05 * x\n    a  ', v, '\n    b\n']
    E2 = ['05.08.2020 * x\n    a  $', v, '\n    b  -', v, '\n']
    for k, lay in enumerate([
            {J: [E1, 'include d.sfox\n'], '/w/d.sfox': ['account a\naccount b\n']},
            {J: ['include d.sfox\n', E1], '/w/d.sfox': ['account a\naccount b\n']},
            {J: ['include d/f.sfox\n', E2], '/w/d/f.sfox': ['account a\naccount b\ndate_format %d.%m.%Y\ncurrency $\n']},
            {J: ['account a\naccount b\ndate_format %d.%m.%Y\ncurrency $\n', 'include d/f.sfox\n'], '/w/d/f.sfox': [E2]},
            {J: ['account a\naccount b\n', 'include d/f.sfox\n', E2, 'date_format %d.%m.%Y\ncurrency $\n'], '/w/d/f.sfox': ['']},
            {J: ['include d.sfox\n', 'include d.sfox\n', E1], '/w/d.sfox': ['account a\naccount b\n']},
            {J: ['account a\naccount b\n', 'include d.sfox\n', 'include d.sfox\n', E1], '/w/d.sfox': [E1]},
            {J: ['account a\n', 'include d.sfox\n', E1], '/w/d.sfox': ['account b\n2020/01/01 * x\n    a  1 ! 2\n    b\n']},
    ]):
        sc = Sc('scope%d' % k, seed=1 + k)
        for f, ps in lay.items():
            sc.file(f, ps)
        single = [(lay['/w/' + x.split()[1]] if isinstance(x, str) and x.startswith('include') else x) for x in lay[J]]
        sc.file(K, single)
        sc.run('b', '-f', J, '-n')
        sc.run('b', '-f', K, '-n')

        def spec(p):
            a, b = p.runs
            same_run(p, a, b, 'b', ' between the split journal and the single file')
            p.must((a.out.strip() == '') == (b.out.strip() == ''), 'one prints a report, the other does not')
            p.reach('accepted' if a.err == '' else 'refused')
        sc.spec = spec
        out.append(sc)
    # what the innermost of several files declares counts in all that follows
    for k, decl in enumerate(['date_format %d.%m.%Y\n', 'currency $\n', 'account c\n', 'account b\n']):
        for depth in (2, 3, 4):
            v = intvar('v', 1, N)
            e = [['05.08.2020 * x\n    a  ', v, '\n    b\n'], ['2020/08/05 * x\n    a  $', v, '\n    b  -', v, '\n'], ['2020/08/05 * x\n    a  ', v, '\n    c\n'], ['2020/08/05 * x\n    a  ', v, '\n    b\n']][k]
            h = 'account a\n' + ('account b\n' if k < 3 else '')
            sc = Sc('inner%d_%d' % (k, depth), seed=1 + k)
            sc.file(J, h, 'include i1.sfox\n', e)
            for i in range(1, depth + 1):
                sc.file('/w/i%d.sfox' % i, 'include i%d.sfox\n' % (i + 1) if i < depth else decl, ['; back\n', e][i % 2])
            sc.file(K, h, decl, [e] * (1 + len([i for i in range(1, depth + 1) if i % 2])))
            sc.run('b', '-f', J, '-n')
            sc.run('b', '-f', K, '-n')

            def spec(p):
                if accepted(p, p.runs[0]):
                    same_run(p, p.runs[0], p.runs[1], 'b', ' between the split journal and the single file')
                    p.reach('same')
            sc.spec = spec
            out.append(sc)
    # a missing file is refused, wherever it is named
    for k, lay in enumerate([{J: ['include none.sfox\n']}, {J: ['include d/a.sfox\n'], '/w/d/a.sfox': ['include b.sfox\n'], '/w/b.sfox': ['']}, {J: ['include d\n'], '/w/d/a.sfox': ['']}, {J: ['include\n']}, {J: ['include j.sfox\n']}, {J: ['include d/a.sfox\n'], '/w/d/a.sfox': ['include ../j.sfox\n']}]):
        sc = Sc('missing%d' % k, seed=1 + k)
        v = intvar('v', 1, 9)
        for f, ps in lay.items():
            sc.file(f, ['account a\naccount b\n2020/08/01 * x\n    a  ', v, '\n    b\n'] if f == J else '', ps)
        sc.run('b', '-f', J)

        def spec(p):
            refused(p, p.runs[0], 'an include that cannot be followed')
            p.reach('refused')
        sc.spec = spec
        out.append(sc)
    # new entries go to the main journal, however it was named, from wherever
    for k, (arg, cwd) in enumerate([('j.sfox', '/w'), ('./j.sfox', '/w'), ('w/j.sfox', '/'), ('../j.sfox', '/w/d'), (J, '/w/d')]):
        sc = Sc('append%d' % k, seed=1 + k)
        v = intvar('v', 1, N)
        sc.dirs.append('/w/d/e')
        sc.file(J, 'include d/a.sfox\naccount b\ninclude d/e/c.sfox\n')
        sc.file('/w/d/a.sfox', 'account a\n    expense x due every 1st\n        amount 50\n        funding aggressive\ninclude e/j.sfox\n')
        sc.file('/w/d/e/j.sfox', 'account c\n')
        sc.file('/w/d/j.sfox', 'decoy')
        sc.file('/w/d/e/c.sfox', '2020/08/01 * x\n    a  ', v, '\n    b\n')
        sc.run('b', '-f', arg, cwd=cwd)
        sc.run('b', '-f', arg, cwd=cwd, seed=9)

        def spec(p, v=v):
            if not accepted(p, p.runs[0]):
                return
            j = Journal()
            j.account('a', Env('x', amt(F(50)), *M1, funding='aggressive')).account('b')
            j.entry(D(2020, 8, 1), Post('a', amt(v)), Post('b'))
            ms = check_moves(p, p.runs[0], j, NOW, exact=True)
            p.must(len(ms) == 1, 'nothing is moved')
            accepted(p, p.runs[1])
            untouched(p, p.runs[1], 'the second run')
            p.reach('moved')
        sc.spec = spec
        out.append(sc)
    # relative paths on the command line keep their meaning after includes
    for k, (args, cwd) in enumerate([(['-f', 'j.sfox', '--csv', 'c.csv'], '/w'), (['-f', '../j.sfox', '--csv', 'c.csv', '--rules', 'x/r.rules'], '/w/d'), (['--csv', 'd/c.csv', '-f', 'j.sfox', '--rules', 'd/x/r.rules'], '/w'), (['--csv', 'w/c.csv', '-f', 'w/j.sfox'], '/')]):
        sc = Sc('relative%d' % k, seed=1 + k)
        v = intvar('v', 1, N)
        sc.file(J, 'include d/a.sfox\naccount b\n')
        sc.file('/w/d/a.sfox', 'account assets\naccount income:unknown\ninclude e/b.sfox\n')
        sc.file('/w/d/e/b.sfox', 'account food\n')
        for f in ('/w/c.csv', '/w/d/c.csv'):
            sc.file(f, 'a,b,c\n2020/01/02,x,', v, '\n')
        sc.file('/w/c.csv.rules', 'fields date,description,amount\naccount assets\n')
        sc.file('/w/d/x/r.rules', 'fields date,description,amount\naccount food\n')
        sc.file('/w/d/e/c.csv', 'decoy')
        sc.file('/w/d/c.csv.rules', 'account b\nfields date,description,amount\n')
        sc.run('i', *args, cwd=cwd)

        def spec(p, v=v, k=k):
            if not accepted(p, p.runs[0], 'the import'):
                return
            es = R.entries(p, appended(p, p.runs[0]))
            p.must(len(es) == 1, '%d entries' % len(es))
            want = 'food' if k in (1, 2) else 'assets'
            if es:
                q = [x for x in es[0]['postings'] if x['account'] == want]
                p.must(len(q) == 1 and q[0]['n'] is not None, 'the import used other files than named')
                if len(q) == 1 and q[0]['n'] is not None:
                    p.must(q[0]['n'].near(p.num(v)), 'the amount is wrong')
            p.reach('imported')
        sc.spec = spec
        out.append(sc)
    return out


BOUNDS = 'five pieces of a journal spread over up to five files in twelve layouts, nested up to four (in part nine) deep; balance, envelopes and register; amounts symbolic up to 60 (500 thorough); declarations, date format and currency on either side of an include; five ways to name the main journal, four to name the imported files'
OUTSIDE = 'symbolic links; absolute paths inside include lines'
