"""C15: the journal is only appended to; failed or read-only runs leave it alone."""
from sf.common import *
from props.c09 import SCHED, BIG

M1 = SCHED[0][1:]
CSV, RULES = '/w/c.csv', '/w/c.csv.rules'
ENOSPC, EIO, EACCES, EINTR = 28, 5, 13, 4


def base(v=None, w=None, funding='aggressive', inc=True):
    """a journal with an include, envelopes and a symbolic balance"""
    j = Journal()
    if inc:
        j.raw('include sub/more.sfox\n')
    j.account('assets', Env('x', amt(F(100)), *M1, funding=funding), Env('y', amt(F(30)), *SCHED[3][1:], kind='goal', funding='conservative'))
    j.account('food').account('income:unknown').account('expenses:unknown').account('unknown')
    j.entry(D(2020, 8, 1), Post('assets', amt(v if v is not None else F(500))), Post('food'))
    if w is not None:
        j.entry(D(2020, 9, 1), Post('assets', amt(w), env='x'))
    return j


INC = 'account b\naccount c\n2020/01/02 * inc\n    b  5\n    c\n'
RUL = 'fields date, description, amount\naccount assets\n'


def files(sc, j, csv=None, rules=RUL, tail=''):
    sc.file(J, j.text(), tail)
    sc.file('/w/sub/more.sfox', INC)
    sc.file('/w/other.txt', 'keep me')
    if csv is not None:
        sc.file(CSV, csv)
        sc.file(RULES, rules)


def complete(p, text, n=None):
    """the appended text is made of whole entries: it ends a line, and each entry has its postings"""
    if text == '':
        return []
    p.must(text.endswith('\n'), 'the appended text does not end its last line')
    es = R.entries(p, text)
    for e in es:
        p.must(len(e['postings']) > 0, 'an entry without postings was written')
    if n is not None:
        p.must(len(es) == n, '%d entries were written, not %d' % (len(es), n))
    return es


def scenarios(tier):
    T = tier == 'thorough'
    out = []

    def sc_(name, setup, spec, seed=1):
        sc = Sc(name, seed=seed)
        setup(sc)
        sc.spec = spec
        out.append(sc)
    # --no-move in every place: nothing is written by any report
    for k, (c, fl) in enumerate([('b', ['-n']), ('e', ['--no-move']), ('r', ['-n']), ('s', ['-n']), ('n', ['-n']), ('envelopes', ['-n']), ('balance', ['--no-move'])]):
        for pre in (0, 1):
            def setup(sc, c=c, fl=fl, pre=pre, k=k):
                v = intvar('v', -50, 200)
                files(sc, base(v))
                a = fl + ['-f', J] if pre else ['-f', J] + fl
                sc.run(c, *a, tty=100)

            def spec(p, c=c):
                untouched(p, p.runs[0], '%s --no-move' % c)
                p.reach('read only')
            sc_('nomove_%s%d' % (c, pre), setup, spec, seed=1 + k)
    # with moves: only the end of the main journal grows, whatever its last line looks like
    for k, tail in enumerate(['', '\n', '\n\n\n', '    ; comment without a line end', '; x', '  ', '2020/09/02 * last\n    assets  5\n    food', '2020/09/02 * last\n    assets  5\n    food   \n    ']):
        def setup(sc, tail=tail):
            v = intvar('v', 0, 200)
            sc.data['j'] = j = base(v)
            if 'last' in tail:
                j.entries.append(Entry(D(2020, 9, 2), [Post('assets', amt(F(5))), Post('food')]))
            files(sc, j, tail=tail)
            sc.run('b', '-f', J)
            sc.run('b', '-f', J, '-n', seed=4)

        def spec(p, k=k):
            r = p.runs[0]
            if not accepted(p, r):
                return
            complete(p, appended(p, r), n=None)
            ms = check_moves(p, r, p.sc.data['j'], NOW, exact=False)
            p.reach('moved' if ms else 'nothing')
            accepted(p, p.runs[1], 'the journal after the move')
            if p.runs[1].ok:
                es = p.sc.data['j'].entries + ([as_entry(ms, NOW)] if ms else []) + [Entry(D(2020, 1, 2), [Post('b', amt(F(5))), Post('c')])]
                expect_balances(p, p.runs[1], balances(p, es))
                untouched(p, p.runs[1], '--no-move')
        sc_('tail%d' % k, setup, spec, seed=1 + k)
    # every command that is done moves in the same way; unsupported ones too
    for k, c in enumerate(['b', 'e', 'r', 's', 'n', 'i']):
        def setup(sc, c=c):
            v = intvar('v', 0, 200) if c in 'br' else intvar('v', 0, 9)
            sc.data['j'] = j = base(v, inc=c != 'r')
            if c == 'e':
                j = sc.data['j'] = Journal()
                j.account('assets', Env('x', amt(BIG), *M1, funding='aggressive')).account('food')
                j.entry(D(2020, 8, 1), Post('assets', amt(v)), Post('food'))
            files(sc, j)
            sc.run(c, '-f', J, tty=100)

        def spec(p, c=c):
            ms = moves(p, p.runs[0], NOW)
            judge_moves(p, ms, p.sc.data['j'], NOW, exact=False)
            complete(p, appended(p, p.runs[0]))
            p.reach('moved' if ms else 'nothing')
        sc_('cmd_' + c, setup, spec, seed=1 + k)
    # a refused journal: nothing is written by any command, wherever the mistake is
    BAD = ['2020/09/02 * x\n    assets  5\n    nowhere\n', '2020/09/02 * x\n    assets  5\n    food  6\n', '2020/13/02 * x\n    assets  5\n    food\n',
           'include nothing.sfox\n', '2020/09/02 * x\n    assets\n    food\n', 'account food\n', '2020/09/02 * x\n    assets  1 ! 99\n    food\n', 'date_format\n']
    for c in ('b', 'e', 'r', 'i'):
        def setup(sc, c=c):
            b = choice('bad', BAD)
            files(sc, base(), csv='a,b,c\n2020/01/01,d,5\n', tail=b)
            sc.run(c, '-f', J, *(['--csv', CSV] if c == 'i' else []), tty=100)

        def spec(p, c=c):
            refused(p, p.runs[0], 'a journal with a mistake')
            p.reach('refused')
        sc_('refused_' + c, setup, spec)
    # mistakes inside the included file
    def setup(sc):
        b = choice('bad', BAD)
        sc.file(J, base().text())
        sc.file('/w/sub/more.sfox', 'account assets2\n', b)
        sc.run('b', '-f', J)

    def spec(p):
        refused(p, p.runs[0], 'an included file with a mistake')
        p.reach('refused')
    sc_('refused_inc', setup, spec)
    # writing fails: not at all, at once, after some bytes, then for good
    for k, (c, faults) in enumerate([
            ('b', [('write', 0, ENOSPC, 0)]), ('b', [('write', 0, 0, 1), ('write', 1, ENOSPC, 0)]), ('b', [('write', 0, 0, 40), ('write', 1, EIO, 0)]),
            ('b', [('write', 0, 0, 7), ('write', 1, 0, 11), ('write', 2, ENOSPC, 0)]),
            ('i', [('write', 0, ENOSPC, 0)]), ('i', [('write', 0, 0, 20), ('write', 1, ENOSPC, 0)]), ('i', [('write', 0, 0, 70), ('write', 1, EIO, 0)]),
            ('i', [('write', 0, 0, 33), ('write', 1, 0, 50), ('write', 2, EIO, 0)]), ('e', [('write', 0, 0, 30), ('write', 1, EIO, 0)])]):
        def setup(sc, c=c, faults=faults):
            # index i: the first i faults happen as listed and the rest do not
            v = intvar('v', 1, 90)
            csv = 'a,b,c\n2020/01/01,first,5\n2020/02/01,second,-7\n'
            if c == 'i':
                j = base(inc=False)
                j.accounts = {}
            else:
                j = base(v)
            if c == 'e':
                j = Journal().raw('include sub/more.sfox\n')
                j.account('assets', Env('x', amt(BIG), *M1, funding='aggressive')).account('food')
                j.entry(D(2020, 8, 1), Post('assets', amt(v)), Post('food'))
            sc.data['j'] = j
            files(sc, j, csv=csv)
            fs = []
            sw = sc.add(Var('fault', len(faults) + 1, [str(i) for i in range(len(faults) + 1)], list(range(len(faults) + 1))))
            for i, (op, nth, e, keep) in enumerate(faults):
                for x in range(i + 1, len(faults) + 1):
                    fs.append(dict(op=op, path=J, nth=nth, errno=e, keep=keep, **{'if': (sw, x)}))
            sc.data['sw'] = sw
            sc.run(c, '-f', J, *(['-n', '--csv', CSV] if c == 'i' else []), faults=fs)

        def spec(p, c=c, faults=faults):
            r = p.runs[0]
            p.must(not r.crashed, 'silverfox crashes when a write fails')
            sw = p.sc.data['sw']
            failing = [i for i in p.vals(sw) if i > 0 and faults[i - 1][3] == 0]
            p.must(r.err == '' or p.among(sw, failing), 'an error without a failure')
            t = appended(p, r)
            if failing:
                with p.given(p.among(sw, failing)):
                    p.must(t == '' and r.files[J][0] == r.files[J][1], 'a failed write left something behind')
                    p.must(r.err != '', 'a failed write is not reported')
                    p.reach('failed')
            if len(failing) < len(p.vals(sw)):
                with p.given(z3.Not(p.among(sw, failing))):
                    complete(p, t, 2 if c == 'i' else 1)
                    p.reach('written')
        sc_('fault_%s%d' % (c, k), setup, spec, seed=1 + k)
    # the process ends at its n-th write: all of it is there, or nothing that means anything
    for c in ('b', 'i'):
        def setup(sc, c=c):
            n = sc.add(Var('n', 6, list('012345'), list(range(6))))
            files(sc, base(), csv='a,b,c\n2020/01/01,first,5\n2020/02/01,second,-7\n2020/03/01,third,9\n')
            sc.run(c, '-f', J, *(['-n', '--csv', CSV] if c == 'i' else []), faults=[dict(op='write', path=J, nth=i, errno=-1, keep=0, **{'if': (n, i)}) for i in range(6)])
            sc.run('b', '-f', J, '-n', seed=3)

        def spec(p, c=c):
            t = appended(p, p.runs[0])
            es = complete(p, t) if t.strip() else []
            p.must(len(es) in (0, 3 if c == 'i' else 1), 'the end of the process leaves a part of the entries behind')
            if c == 'b' and es:
                p.must(len(es[0]['postings']) == 2, 'the end of the process leaves a part of the move behind')
            if len(p.runs) > 1:
                accepted(p, p.runs[1], 'the journal that is left behind')
            p.reach('all' if es else 'nothing')
        sc_('killed_' + c, setup, spec)
    # the same with much to write
    for c in ('b', 'i'):
        def setup(sc, c=c):
            n = sc.add(Var('n', 6, list('012345'), list(range(6))))
            j = base(inc=False)
            if c == 'b':
                j.account('big', *[Env('envelope-%d-%s' % (i, 'x' * 60), amt(F(2)), *M1, funding='aggressive') for i in range(130)])
                j.entry(D(2020, 8, 1), Post('big', amt(F(1000))), Post('food'))
            files(sc, j, csv=['a,b,c\n'] + ['2020/01/%02d,record %d %s,%d\n' % (1 + i % 28, i, 'y' * 60, i + 1) for i in range(120)])
            sc.run(c, '-f', J, *(['-n', '--csv', CSV] if c == 'i' else []), faults=[dict(op='write', path=J, nth=i, errno=-1, keep=0, **{'if': (n, i)}) for i in range(6)])
            sc.run('b', '-f', J, '-n', seed=3)

        def spec(p, c=c):
            t = appended(p, p.runs[0])
            es = complete(p, t) if t.strip() else []
            p.must(len(es) in (0, 120 if c == 'i' else 1), 'the end of the process leaves a part of the entries behind')
            if c == 'b' and es:
                p.must(len(es[0]['postings']) == 132, 'the end of the process leaves a part of the move behind: %d' % len(es[0]['postings']))
            if len(p.runs) > 1:
                accepted(p, p.runs[1], 'the journal that is left behind')
            p.reach('all' if es else 'nothing')
        sc_('killed_big_' + c, setup, spec)

        def setup(sc, c=c, kill=setup):
            kill(sc)
            n = sc.vars[0] if isinstance(sc.vars, list) else list(sc.vars.values())[0]
            sc.runs[0]['faults'] = [dict(op='write', path=J, nth=h, errno=0 if h < i else ENOSPC, keep=5000 if h < i else 0, **{'if': (n, i)}) for i in range(6) for h in range(i + 1)]

        def spec(p, c=c):
            r = p.runs[0]
            p.must(not r.crashed, 'silverfox crashes when a write fails')
            if r.err:
                untouched(p, r, 'a run that could not write')
            else:
                es = complete(p, appended(p, r), 120 if c == 'i' else 1)
            accepted(p, p.runs[1], 'the journal that is left behind')
            p.reach('failed' if r.err else 'written')
        sc_('fault_big_' + c, setup, spec)
    # opening for writing, or reading, fails
    for k, (c, op, nth) in enumerate([('b', 'open', 1), ('i', 'open', 1), ('b', 'open', 0), ('i', 'open', 0), ('b', 'read', 0), ('e', 'open', 1)]):
        def setup(sc, c=c, op=op, nth=nth):
            e = sc.add(Var('errno', 3, list('123'), [EACCES, EIO, ENOSPC]))
            files(sc, base(), csv='a,b,c\n2020/01/01,first,5\n2020/02/01,second,-7\n')
            sc.run(c, '-f', J, *(['-n', '--csv', CSV] if c == 'i' else []), faults=[dict(op=op, path=J, nth=nth, errno=x, keep=0, **{'if': (e, i)}) for i, x in enumerate(e.vals)])

        def spec(p):
            r = p.runs[0]
            p.must(not r.crashed, 'silverfox crashes when a file cannot be used')
            # a journal opened in another way than expected may see no failure at all
            if r.err != '':
                untouched(p, r, 'a run that could not use its journal')
            p.reach('failed' if r.err else 'worked')
        sc_('open_%s_%s%d' % (c, op, nth), setup, spec, seed=1 + k)
    # an import in which one record fails adds none
    for k in range(3):
        def setup(sc, k=k):
            b = choice('rec', ['2020/03/01,ok,00000007', '2020/13/01,bad,0000007', '2020/03/01,bad,seventy', '2020/03/01,[bad,000007', 'none,bad,000000000007', '2020/03/01,bad', '2020/03/01,bad,000007,9', '2020/03/01', '2020/03/01,bad,'])
            recs = ['2020/01/01,first,5', '2020/02/01,second,-7']
            recs.insert(k, b)
            lines = [[r, '\n'] for r in recs]
            files(sc, base(), csv=['a,b,c\n', lines])
            sc.data['b'] = b
            sc.run('i', '-f', J, '-n', '--csv', CSV)

        def spec(p, k=k):
            b, r = p.sc.data['b'], p.runs[0]
            p.must(not r.crashed, 'crash')
            ok = p.is_(b, 0)
            if r.err == '':
                p.must(ok, 'a record that cannot be read is imported')
                complete(p, appended(p, r), 3)
                p.reach('imported')
            else:
                p.must(z3.Not(ok), 'a good import is refused: ' + r.err[-200:])
                untouched(p, r, 'an import with a bad record')
                p.reach('refused')
        sc_('record%d' % k, setup, spec, seed=1 + k)
    # the same with moves: only the day's complete move may be added
    def setup(sc):
        v = intvar('v', 0, 200)
        b = choice('rec', ['2020/03/01,ok,00000007', '2020/13/01,bad,0000007', '2020/03/01,bad,seventy'])
        sc.data['j'] = j = base(v)
        sc.data['b'] = b
        files(sc, j, csv=['a,b,c\n2020/01/01,first,5\n', b, '\n'])
        sc.run('i', '-f', J, '--csv', CSV)

    def spec(p):
        b, r = p.sc.data['b'], p.runs[0]
        p.must(not r.crashed, 'crash')
        es = complete(p, appended(p, r))
        auto = [e for e in es if any(q['kind'] == 'e' for q in e['postings'])]
        ms = [(q['account'], q['env'], q['sym'], q['n']) for e in auto for q in e['postings']]
        judge_moves(p, ms, p.sc.data['j'], NOW, exact=False)
        p.must(len(auto) <= 1, 'several automatic entries')
        rest = [e for e in es if e not in auto]
        if r.err == '':
            p.must(p.is_(b, 0), 'a bad record is imported')
            p.must(len(rest) == 2, '%d of 2 records imported' % len(rest))
            p.reach('imported')
        else:
            p.must(z3.Not(p.is_(b, 0)), 'a good import is refused')
            p.must(not rest, 'an import with a bad record adds some of its records')
            p.reach('refused')
    sc_('record_moves', setup, spec)
    # nothing to move: nothing is written, in whatever currency
    for k, s in enumerate(['', 'EUR', '$']):
        def setup(sc, s=s):
            v = intvar('v', 0, 60)
            j = sc.data['j'] = Journal()
            j.account('assets', Env('x', amt(F(40), s), *M1, funding='aggressive'), Env('y', amt(F(30), s), *SCHED[3][1:], kind='goal', funding='conservative')).account('food')
            j.entry(D(2020, 8, 1), Post('assets', amt(F(40), s)), Post('food'))
            j.entry(D(2020, 9, 1), Post('assets', amt(v, s), env='x'))
            files(sc, j)
            sc.run('b', '-f', J)

        def spec(p):
            if accepted(p, p.runs[0]):
                ms = check_moves(p, p.runs[0], p.sc.data['j'], NOW, exact=False)
                complete(p, appended(p, p.runs[0]), 1 if ms else None)
                p.must(bool(ms) or appended(p, p.runs[0]) == '', 'an entry without a move is written')
                p.reach('moved' if ms else 'nothing')
        sc_('nothing%d' % k, setup, spec, seed=1 + k)
    # missing files and wrong command lines leave everything alone
    for k, argv in enumerate([['i', '-f', J, '-n'], ['i', '-f', J, '-n', '--csv', '/w/none.csv'], ['i', '-f', J, '-n', '--csv', CSV, '--rules', '/w/none'], ['b', '-f', '/w/none'], ['b', '-f'], ['b', '-f', J, '--bogus'], ['x', '-f', J], ['i', '-f', J, '-n', '--csv', '/w/other.txt']]):
        def setup(sc, argv=argv):
            files(sc, base(intvar('v', 0, 9)), csv='a,b,c\n2020/01/01,first,5\n')
            sc.run(*argv)

        def spec(p):
            r = p.runs[0]
            p.must(not r.crashed, 'crash')
            p.must(r.err != '', 'the mistake is not reported')
            untouched(p, r, 'a run that fails')
            p.reach('refused')
        sc_('usage%d' % k, setup, spec)
    return out


BOUNDS = 'journal with one included file, two envelopes and a symbolic balance (up to 200); six subcommands; eight ways the journal can end; eight kinds of mistakes in the journal or the included file; writes that fail at once or after up to three pieces, of short and of long texts, failing opens and reads; the process ending at any of its first six writes; imports of three records one of which (symbolic) is bad'
OUTSIDE = 'power loss (what a write call accepted counts as written); files changed by other programs meanwhile; failing close or truncate calls'
