"""C23: command line and environment select the journal and the action."""
import itertools
from sf.common import *
from props.c09 import SCHED, BIG
from props.c15 import CSV, RULES
from props.c19 import expect_register

M1 = SCHED[0][1:]
FILES = ['/w/a.sfox', '/w/d/b.sfox', '/w/c.sfox']
TEXTS = [['/w/a.sfox', 'a.sfox', './a.sfox', 'd/../a.sfox'], ['/w/d/b.sfox', 'd/b.sfox', './d//b.sfox'], ['/w/c.sfox', 'c.sfox']]
MISS = ['none.sfox', '/w/none.sfox', 'd/a.sfox', 'nodir/a.sfox', 'a.sfo', 'A.sfox']


def journals(v):
    js = []
    for k, f in enumerate(FILES):
        j = Journal()
        n = 'assets:' + 'abc'[k]
        j.account(n, Env('x', amt(BIG), *M1, funding='aggressive')).account('eq').account('income:unknown')
        j.entry(D(2020, 1, 2), Post(n, A([v, '.%d' % (k + 1)], lambda p, v=v, k=k: p.num(v) + F(k + 1, 10))), Post('eq'), desc='first')
        js.append(j)
    return js


def scenarios(tier):
    T = tier == 'thorough'
    out = []

    def setup(name, v):
        sc = Sc(name, seed=1 + len(out) % 5)
        js = journals(v)
        for f, j in zip(FILES, js):
            sc.file(f, j.text())
        out.append(sc)
        return sc, js

    def nothing(p, r, what):
        p.must(r.err.strip() != '', '%s: no error is reported' % what)
        p.must(r.out.strip() == '', '%s: a report is printed' % what)
        untouched(p, r, what)

    def shows(p, r, js, k, cmd, move):
        """the run worked on journal k and on no other"""
        if not accepted(p, r, 'journal %d' % k):
            return
        j = js[k]
        es = list(j.entries)
        if move:
            same, base, rest = r.files[FILES[k]]
            p.must(same == base, 'the journal was not only appended to')
            untouched(p, r, 'the run', but=(FILES[k],))
            ms = moves(p, r, NOW, FILES[k])
            p.must(len(ms) == 1, 'one move into the journal is expected, not %r' % (ms,))
            judge_moves(p, ms, j, NOW)
            if ms:
                es.append(as_entry(ms, NOW))
        else:
            untouched(p, r, 'the run')
        if cmd == 'b':
            expect_balances(p, r, balances(p, es))
        elif cmd == 'e':
            expect_envelopes(p, r, j, NOW, entries=es)
        elif cmd == 'r':
            expect_register(p, r, j.entries)
        p.reach('journal %d' % k)
    V = lambda: intvar('v', 1, 99)
    # where the journal comes from: all combinations of the flag and the two variables
    for fl, s, l in itertools.product((None, '-f', '--file'), (0, 1), (0, 1)):
        if not (fl or s or l):
            continue
        for cmd in ('b', 'e', 'r') if T else ('ber'[len(out) % 3],):
            sc, js = setup('from_%s%d%d%s' % (fl or '', s, l, cmd), V())
            a, e1, e2 = (choice(n, TEXTS[0] + TEXTS[1] + MISS[:2] if i == 0 else TEXTS[1] + TEXTS[2] + MISS[:1] if i == 1 else TEXTS[2] + TEXTS[0] + MISS[:1]) for i, n in enumerate(('f', 'sf', 'lf')))
            sc.run(cmd, *([fl, a] if fl else []), env=([('SILVERFOX_FILE', e1)] if s else []) + ([('LEDGER_FILE', e2)] if l else []), tty=100)
            x = a if fl else e1 if s else e2

            def spec(p, x=x, js=js, cmd=cmd):
                for i in p.vals(x):
                    with p.given(p.is_(x, i)):
                        if p.possible():
                            k = next((k for k, t in enumerate(TEXTS) if x.text[i] in t), None)
                            if k is None:
                                nothing(p, p.runs[0], 'a missing journal')
                                p.reach('missing')
                            else:
                                shows(p, p.runs[0], js, k, cmd, True)
            sc.spec = spec
    # neither
    sc, js = setup('nofile', V())
    sc.run(choice('c', ['b', 'e', 'r', 'balance', 'register', 'envelopes', 'import']), env=[('LEDGER', 'a.sfox'), ('SILVERFOX', 'a.sfox'), ('FILE', 'a.sfox')])
    sc.spec = lambda p: (nothing(p, p.runs[0], 'no journal given'), p.reach('error'))
    sc, js = setup('noargs', V())
    sc.run(env=[('SILVERFOX_FILE', 'a.sfox')])
    sc.spec = lambda p: (untouched(p, p.runs[0], 'no subcommand'), p.must(not p.runs[0].crashed, 'the run crashed'), p.reach('help'))
    # missing files of all kinds
    for fl in ('-f', '--file'):
        sc, js = setup('missing' + fl, V())
        sc.run(choice('c', ['b', 'e', 'r']), fl, choice('f', MISS), env=[('SILVERFOX_FILE', 'a.sfox'), ('LEDGER_FILE', 'c.sfox')])
        sc.spec = lambda p: (nothing(p, p.runs[0], 'a missing journal'), p.reach('error'))
    # names of all kinds
    names = ['my ledger.sfox', 'journal', '.hidden', 'é–x.sfox', 'a=b.sfox', 'x.csv', '~me.sfox', 'two.dots.ledger', '$HOME.sfox', 'd e/f g.sfox', '@f', 'a,b;c.sfox']
    for how in range(3):
        sc, js = setup('names%d' % how, V())
        for nm in names:
            sc.file('/w/' + nm, js[0].text())
        x = choice('f', names)
        sc.run('b', '-n', *(['-f', x] if how == 0 else []), env=[[], [('SILVERFOX_FILE', x)], [('LEDGER_FILE', x)]][how])
        sc.spec = lambda p, js=js: (accepted(p, p.runs[0]) and expect_balances(p, p.runs[0], balances(p, js[0].entries)), untouched(p, p.runs[0], 'the run'), p.reach('shown'))
    # flags in any order, before or after each other; with and without moves
    for nm, move in (('-n', False), ('--no-move', False), (None, True)):
        for cmd in 'ber':
            sc, js = setup('order_%s_%s' % (nm or '', cmd), V())
            perms = list(itertools.permutations([['-f', 'a.sfox'], [nm] if nm else ['--rules', 'q'], ['--csv', 'zz']])) + list(itertools.permutations([['--file', 'a.sfox'], [nm] if nm else ['--rules-file', 'q'], ['--csv-file', 'zz']]))
            perms = [[a for g in p for a in g] for p in perms]
            n = len(perms[0])
            x = choice('o', ['%d' % i for i in range(len(perms))])
            sc.add(x)
            sc.run(choice('c', {'b': ['b', 'balance', 'bal'], 'e': ['e', 'envelopes', 'env'], 'r': ['r', 'register', 'reg']}[cmd]), *[x.as_text(lambda i, t=t: perms[i][t]) for t in range(n)], env=[('SILVERFOX_FILE', 'c.sfox')], tty=100)
            sc.spec = lambda p, js=js, cmd=cmd, move=move: shows(p, p.runs[0], js, 0, cmd, move)
    # import: the records go to the selected journal, wherever the flags stand
    for k in range(2):
        for env in (0, 1):
            sc, js = setup('import%d%d' % (k, env), V())
            w = intvar('w', 1, 99)
            sc.file('/w/x.csv', 'a,b,c\n2020/03/04,pay,', w, '\n')
            sc.file('/w/x.csv.rules' if k == 0 else '/w/y.rules', 'fields date,description,amount\naccount assets:b\naccount2 eq\n')
            if k:
                sc.file('/w/x.csv.rules', 'fields date,description,amount\naccount eq\naccount2 assets:b\n')
            perms = []
            for c, r in (('--csv', '--rules'), ('--csv-file', '--rules-file')):
                gs = [[c, 'x.csv'], [r, 'y.rules'] if k else ['-n'], ['--no-move'] if env else ['-f', 'd/b.sfox']]
                perms += [[a for g in p for a in g] for p in itertools.permutations(gs)]
            x = choice('o', ['%d' % i for i in range(len(perms))])
            sc.add(x)
            sc.run(choice('c', ['i', 'import']), *[x.as_text(lambda i, t=t, perms=perms: perms[i][t]) for t in range(len(perms[0]))], env=[('SILVERFOX_FILE', 'd/b.sfox' if env else 'c.sfox'), ('LEDGER_FILE', 'a.sfox')])

            def spec(p, js=js, w=w, move=(k == 1 and not env)):
                r = p.runs[0]
                if not accepted(p, r):
                    return
                f = FILES[1]
                same, base, rest = r.files[f]
                p.must(same == base, 'the journal was not only appended to')
                untouched(p, r, 'the import', but=(f,))
                es = R.entries(p, rest)
                p.must(len(es) == (2 if move else 1), 'entries written: %d' % len(es))
                if es:
                    q = {x['account']: x['n'] for x in es[-1]['postings'] if x['kind'] == 'c'}
                    p.must(q.get('assets:b') is not None and q['assets:b'].near(p.num(w)), 'the record is not in the selected journal as its rules say: %r' % q)
                p.reach('imported')
            sc.spec = spec
    # missing values
    bads = [['b', '-f'], ['b', '--file'], ['e', '-n', '-f'], ['r', '-f', 'a.sfox', '--csv'], ['b', '-f', 'a.sfox', '--rules'], ['b', '-f', 'a.sfox', '--csv-file'], ['e', '-f', 'a.sfox', '-n', '--rules-file'], ['i', '-f', 'a.sfox', '--csv'], ['b', '--csv'], ['b', '--rules', 'x', '-f']]
    # unknown flags, at every place
    unk = ['-x', '--fil', '--files', '-F', '--no', '-no-move', '--nomove', '--file=a.sfox', 'foo', '', '-', '--', '-fn', '--help', 'a.sfox', '-fa.sfox', '--FILE', '--csvfile', '-N']
    for u in unk:
        bads += [['b', u], ['b', u, 'a.sfox'], ['b', '-f', 'a.sfox', u], ['e', u, '-f', 'a.sfox'], ['r', '-f', 'a.sfox', u, 'x'], ['b', '-n', '-f', 'a.sfox', u, 'x'], ['b', '-f', 'a.sfox', u, '-n']]
    # unknown subcommands
    for u in ['', 'x', 'Balance', 'B', '-f', '--balance', '-b', ' balance', 'ünew', 'help', '1', 'q', '-n', 'account', 'total', 'ｂ', '\tb', '.', '(b)alance']:
        bads += [[u, '-f', 'a.sfox'], [u, '-n', '--file', 'a.sfox'], [u]]
    for n in sorted({len(b) for b in bads}):
        g = [b for b in bads if len(b) == n]
        for e in (0, 1):
            sc, js = setup('bad%d_%d' % (n, e), V())
            x = choice('o', ['%d' % i for i in range(len(g))])
            sc.add(x)
            sc.run(*[x.as_text(lambda i, t=t, g=g: g[i][t]) for t in range(n)], env=[('SILVERFOX_FILE', 'a.sfox')] if e else [])

            def spec(p, x=x, g=g):
                r = p.runs[0]
                nothing(p, r, 'silverfox %s' % (' or '.join(' '.join(map(repr, g[i])) for i in list(p.vals(x))[:3])))
                p.must(not r.crashed, 'the run crashed')
                p.reach('error')
            sc.spec = spec
    return out


BOUNDS = 'journals of 15 names; every combination of -f/--file and the two variables over 3 journals in two directories and missing files; every order of up to 3 flags in both spellings; 19 unknown flags at 7 places, 10 missing values, 19 unknown subcommands, with and without $SILVERFOX_FILE; amounts 1..99'
OUTSIDE = 'flags given twice; empty variables; the unsupported subcommands (s)ummary and (n)ew; further letters of a subcommand after the first'
