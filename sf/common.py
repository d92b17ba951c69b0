"""Judgements that several properties share."""
from datetime import date as D
from fractions import Fraction as F
import z3
from .core import *
from .model import *
from . import reports as R

J = '/w/j.sfox'
NOW = D(2020, 9, 13)      # a Sunday


def refused(p, run, what):
    """an error on stderr, no report, no file touched"""
    p.must(run.err.strip() != '', '%s is not refused (no error message)' % what)
    p.must(run.out.strip() == '', '%s: a report is printed all the same' % what)
    untouched(p, run, what)


def untouched(p, run, what, but=()):
    for f, (same, base, rest) in run.files.items():
        if f not in but:
            p.must(same == base and rest == '', '%s: the file %s is changed' % (what, f))


def accepted(p, run, what='the journal'):
    p.must(run.ok, '%s is not accepted: %s %s' % (what, run.end, run.err[-300:]))
    return run.ok


def either(p, run, cond, what):
    """accepted iff cond; returns whether the run was a success"""
    if run.ok:
        p.must(cond, '%s is accepted, but has to be refused' % what)
        p.reach('accepted')
        return True
    p.must(z3.Not(cond) if not isinstance(cond, bool) else not cond, '%s is refused, but has to be accepted: %s' % (what, run.err[-200:]))
    p.must(run.out.strip() == '', '%s: refused, but a report is printed' % what)
    untouched(p, run, what)
    p.reach('refused')
    return False


def expect_balances(p, run, want, names=None):
    """want: {account: {sym: Q}}: the report shows exactly these sums"""
    if not accepted(p, run):
        return
    got = R.balance(p, run)
    order = [a for a, _ in got]
    p.must(order == sorted(order), 'accounts are not in name order: %r' % order)
    p.must(len(set(order)) == len(order), 'an account is listed twice: %r' % order)
    g = dict(got)
    for a, w in want.items():
        p.must(a in g, 'account %s is not listed' % a)
        if a not in g:
            continue
        for s in sorted(set(w) | set(g[a])):
            if s not in w:
                p.must(g[a][s].same(0), 'account %s has an amount of %r it never received' % (a, s))
            elif s not in g[a]:
                p.must(w[s].near(0), 'account %s lacks its %r amount' % (a, s))
            else:
                p.must(g[a][s].near(w[s]), 'balance of %s in %r is wrong' % (a, s or 'native'))
    for a in g:
        if a not in want:
            p.must(z3.And([q.same(0) for q in g[a].values()]), 'account %s is listed with money but has no postings' % a)


def simple(name, j, seed=1, argv=('b', '--no-move'), clock=NOW, more=None, **opts):
    """a journal, a balance, and the sums it has to show"""
    sc = Sc(name, seed=seed, **opts)
    sc.file(J, j.text())
    sc.run(argv[0], '-f', J, *argv[1:], clock=clock)

    def spec(p):
        expect_balances(p, p.runs[0], balances(p, j.entries))
        p.reach('accepted')
        if more:
            more(p)
    sc.spec = spec
    return sc


def expect_envelopes(p, run, j, today, entries=None, st=None, due=True, what='', only=None):
    """the envelopes report: contents and due dates, available amounts (or only one of these)"""
    if not accepted(p, run):
        return
    today = Date.of(today)
    got = R.envelopes(p, run)
    st = st if st is not None else contents(p, j, today, entries)
    accts = [a for a, es in j.accounts.items() if es]
    p.must(sorted(got) == sorted(accts), 'accounts shown: %r' % sorted(got))
    for a in accts:
        if a not in got:
            continue
        g = got[a]
        keys = [(e.kind, e.name) for e in j.accounts[a]]
        p.must(sorted(g['envs']) == sorted(keys), 'envelopes shown for %s: %r' % (a, sorted(g['envs'])))
        for e in j.accounts[a]:
            x = g['envs'].get((e.kind, e.name))
            if x is None:
                continue
            if only == 'available':
                continue
            now, nxt = shown(st[(a, e.name)])
            p.must(x['sym'] == e.target.sym, 'currency of %s' % e.name)
            p.must(x['target'].near(e.target.q(p)), 'target of %s/%s is wrong' % (a, e.name))
            p.must(x['now'].near(now), 'now amount of %s/%s is wrong%s' % (a, e.name, what))
            p.must(x['next'].near(nxt), 'next amount of %s/%s is wrong%s' % (a, e.name, what))
            if due and only is None:
                expect_due(p, x['due'], e, today)
        if only == 'contents':
            continue
        if only == 'available':
            # relative to the contents shown
            av = dict(balances(p, entries if entries is not None else j.entries).get(a, {}))
            for x in g['envs'].values():
                av[x['sym']] = av.get(x['sym'], Q(0)) - x['now'] - x['next']
        else:
            av = available(p, j, a, st, entries)
        for s in sorted(set(av) | set(g['available'])):
            w, h = av.get(s, Q(0)), g['available'].get(s, Q(0))
            p.must(h.near(w, tol=F(8, 10 ** 8)) if only else h.near(w), 'available amount of %s in %r is wrong%s' % (a, s or 'native', what))


def expect_due(p, text, e, today):
    today = Date.of(today)

    def fmt(d):
        return None if d is None else d.isoformat()
    if today.var is None:
        w = fmt(next_due(e, today.fixed))
        if text is None or w is None:
            p.must(text is None and w is None, 'due date of %s is %s, not %s' % (e.name, text, w))
        else:
            p.must(p.text_is(text, None, w), 'due date of %s is %s, not %s' % (e.name, text, w))
        return
    v = today.var
    exp = {i: fmt(next_due(e, today.vals[i])) for i in p.vals(v)}
    if text is None:
        p.must(p.among(v, [i for i in exp if exp[i] is None]), 'no due date is shown for %s' % e.name)
        return
    p.must(p.among(v, [i for i in exp if exp[i] is not None]), 'a due date is shown for %s, which has none left' % e.name)
    p.must(p.text_is(text, v, {i: exp[i] or '' for i in exp}), 'due date of %s is wrong' % e.name)


# ---------------------------------------------------------------- automatic moves

def appended(p, run, path=J):
    """the text a run added to the main journal; everything else has to stay as it was"""
    same, base, rest = run.files.get(path, (0, 0, ''))
    p.must(same == base, 'the journal was not only appended to')
    untouched(p, run, 'the run', but=(path,))
    return rest


def moves(p, run, today, path=J, fmt='%Y/%m/%d'):
    """[(account, envelope, symbol, number)]: what the run moved; anything else it wrote is a violation"""
    out = []
    for e in R.entries(p, appended(p, run, path)):
        t = Date.of(today)
        if t.var is None:
            p.must(p.text_is(e['date'], None, t.fixed.strftime(fmt)), 'a move is dated %s' % e['date'])
        else:
            p.must(p.text_is(e['date'], t.var, {i: t.vals[i].strftime(fmt) for i in p.vals(t.var)}), 'a move is not dated today')
        for q in e['postings']:
            p.must(q['kind'] == 'e', 'an automatic entry moves real money on %s' % q['account'])
            if q['kind'] == 'e':
                out.append((q['account'], q['env'], q['sym'], q['n']))
    return out


def eachday(p, today):
    """for every possible today: its date, under the condition that it is today"""
    t = Date.of(today)
    if t.var is None:
        yield t.fixed
        return
    for i in p.vals(t.var):
        with p.given(p.is_(t.var, i)):
            if p.possible():
                yield t.vals[i]


def moved(ms, acct, env):
    return qsum([n for a, e, s, n in ms if (a, e) == (acct, env)])


def check_moves(p, run, j, today, entries=None, exact=True, what='', once=True):
    """C12 (bounds) and, with exact, C13 (how much); returns the moves"""
    ms = moves(p, run, today)
    judge_moves(p, ms, j, today, entries, exact, what, once)
    return ms


def as_entry(ms, day):
    """moves as an entry of the model"""
    return Entry(day, [Post(a, A([], n, s), env=e) for a, e, s, n in ms])


def judge_moves(p, ms, j, today, entries=None, exact=True, what='', once=True):
    envs = {(a, e.name): e for a, es in j.accounts.items() for e in es}
    for a, n, s, q in ms:
        p.must((a, n) in envs, 'money is moved to %s/%s, which does not exist%s' % (a, n, what))
        p.must(q > 0, 'a move into %s/%s is not positive%s' % (a, n, what))
        if (a, n) in envs:
            p.must(s == envs[a, n].target.sym, 'money is moved to %s/%s in the wrong currency%s' % (a, n, what))
    if once:
        p.must(len({m[:2] for m in ms}) == len(ms), 'an envelope gets several moves in one run%s' % what)
    for day in eachday(p, today):
        st = contents(p, j, day, entries)
        for a, es in j.accounts.items():
            if not es:
                continue
            av = available(p, j, a, st, entries)
            for s in {e.target.sym for e in es}:
                group = [e for e in es if e.target.sym == s]
                avail = qmax(av.get(s, Q(0)), 0)
                over, should, allm = Q(0), Q(0), Q(0)
                for e in group:
                    x = st[(a, e.name)]
                    tgt = e.target.q(p)
                    n = moved(ms, a, e.name)
                    allm = allm + n
                    tot = x.now + x.next
                    over = over + qmax(-tot, 0)
                    # bounds; an envelope overdrawn as a whole may be brought back to zero
                    lacks = qmax(qmax(tgt - x.next - qmin(x.now, 0), -tot), 0)
                    p.must(n <= lacks + TOL, 'more is moved into %s/%s than it lacks%s' % (a, e.name, what))
                    due = next_due(e, day)
                    if due is None or e.funding in (None, 'manual'):
                        p.must(n.same(0), 'money is moved into %s/%s, which is not to be filled%s' % (a, e.name, what))
                        continue
                    p.must(z3.Or(z3.Not(x.today), n.same(0)), 'money is moved into %s/%s again today%s' % (a, e.name, what))
                    want = qmax(tgt - x.next, 0)
                    if e.funding == 'conservative':
                        want = want / (due - day).days
                    should = should + ite(x.today, 0, want)
                    if exact:
                        p.must(z3.Or(x.today, x.now < 0, n <= want + TOL), 'too much is moved into %s/%s%s' % (a, e.name, what))
                        if len(group) == 1:
                            p.must(z3.Or(x.today, x.now < 0, n.near(qmin(want, avail))), 'the move into %s/%s is wrong%s' % (a, e.name, what))
                p.must(allm <= avail + over + TOL, 'more is moved in %s than is available%s' % (a, what))
                if exact:
                    healthy = z3.And([z3.Not(st[(a, e.name)].now < 0) for e in group])
                    p.must(z3.Or(z3.Not(healthy), allm.near(qmin(should, avail), tol=F(6, 10 ** 8))), 'the moves in %s do not add up%s' % (a, what))


TOL = F(3, 10 ** 8)


def same_figures(p, a, b, cmd, what):
    """two runs report the same figures"""
    if cmd == 'b':
        x, y = [{(n, s): q for n, m in R.balance(p, r) for s, q in m.items()} for r in (a, b)]
    elif cmd == 'e':
        x, y = {}, {}
        for r, o in ((a, x), (b, y)):
            for n, g in R.envelopes(p, r).items():
                for s, q in g['available'].items():
                    o[n, 'available', s] = q
                for k, e in g['envs'].items():
                    for f in ('now', 'next', 'target'):
                        o[n, k, f] = e[f]
    else:
        x, y = [], []
        for r, o in ((a, x), (b, y)):
            for i, l in enumerate(R.register(p, r)):
                for s, (u, v) in l['amounts'].items():
                    o += [((i, l['frm'], l['to'], s, 0), u), ((i, l['frm'], l['to'], s, 1), v)]
        x, y = dict(x), dict(y)
    p.must(sorted(x, key=repr) == sorted(y, key=repr), 'what is listed differs%s' % what)
    for k in x:
        if k in y:
            p.must(x[k].near(y[k]), '%s differs%s' % (k, what))
