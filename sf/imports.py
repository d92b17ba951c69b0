"""What import rules mean: an independent reading, over records with symbolic fields.

rules: list of (name, value) and ('if', [patterns], [(name, value), ...]); value None stands for `-`.
records: list of lists of fields; a field is a string, a text Var (its value decides, index by index) or a numeric Var."""
import re
import itertools

import z3
from .core import *
from .model import *
from . import reports as R
import datetime

DEFAULT = dict(comment='', date_format='%Y/%m/%d', date='%date%', decimal='.', description='%description%', payee='', skip='1', status='~')
ALIAS = dict(note='comment', decimal_symbol='decimal')


def rules_text(rules, ind='    '):
    o = []
    for r in rules:
        if r[0] == 'if':
            pats = r[1]
            o.append('if%s\n' % (' ' + pats[0] if pats[0] is not None else ''))
            o += [q + '\n' for q in pats[1:]]
            o += ['%s%s %s\n' % (ind, n, '-' if v is None else v) for n, v in r[2]]
        elif r[0] == 'raw':
            o.append(r[1])
        elif isinstance(r[1], list):
            o += [r[0], ' '] + r[1] + ['\n']
        else:
            o.append('%s %s\n' % (r[0], '-' if r[1] is None else r[1]))
    return o


def csv_text(records, header=None, eol='\n', quote=False):
    o = [header + eol] if header is not None else []
    for rec in records:
        for i, f in enumerate(rec):
            o += [',' if i else '']
            q = quote or (isinstance(f, str) and re.search(r'[",\n]', f)) or (isinstance(f, Var) and any(',' in t for t in f.text))
            o += ['"', f.replace('"', '""') if isinstance(f, str) else f, '"'] if q else [f]
        o.append(eol)
    return o


def settings(rules, lower):
    """the rules that apply to a record whose text (in lower case, fields separated) is lower"""
    cur = dict(DEFAULT, accounts={}, amounts={}, fields=[])

    def put(c, n, v):
        n = ALIAS.get(n, n)
        if n == 'fields':
            c['fields'] = c['fields'] + [x.strip() for x in v.split(',')]
        elif n in DEFAULT:
            c[n] = DEFAULT[n] if v is None else v
        else:
            m = re.fullmatch(r'(account|amount)(.*)', n)
            d = c[m.group(1) + 's'] = dict(c[m.group(1) + 's'])
            if v is None:
                d.pop(m.group(2), None)
            else:
                d[m.group(2)] = v
    hit = None
    for r in rules:
        if r[0] == 'raw':
            continue
        if r[0] == 'if':
            if hit is None and any(q.lower() in lower for q in r[1] if q is not None):
                hit = dict(cur)
                for n, v in r[2]:
                    put(hit, n, v)
        else:
            put(cur, *r)
    return hit if hit is not None else cur


NUMC = '\ue900'


def number_of(p, text, nums, dec):
    """a number, possibly with a symbolic field in it"""
    t = text.strip()
    neg = 0
    while t and t[0] in '-' + NUMC:
        if t[0] == '-':
            neg ^= 1
            t = t[1:]
        else:
            break
    if t.startswith(NUMC):
        assert len(t) == 2, text
        q = p.num(nums[ord(t[1]) - 0xE901])
    else:
        q = Q(Fraction(t.replace(dec, '.')))
    return -q if neg else q


def amount_of(p, text, nums, dec):
    t = text.strip()
    m = re.fullmatch(r"(-?)([^\s\d.,'\-\ue900]*)\s*(-?(?:\ue900.|[\d.,']+))\s*([^\s\d.,'\-\ue900]*)", t)
    assert m, repr(text)
    q = number_of(p, m.group(1) + m.group(3) if not (m.group(1) and m.group(3).startswith('-')) else m.group(3)[1:], nums, dec)
    return m.group(2) or m.group(4), q


def expected(p, rules, records):
    """yields (conditions, entries) for every combination of the text fields that is possible on this path"""
    tv = []
    for rec in records:
        for f in rec:
            if isinstance(f, Var) and f.vals is None and f not in tv:
                tv.append(f)
    for combo in itertools.product(*[p.vals(v) for v in tv]):
        idx = dict(zip([v.name for v in tv], combo))
        conds = [p.is_(v, i) for v, i in zip(tv, combo)]
        root = settings(rules, '\0')
        es = []
        for rec in records[max(int(root['skip']), 0):]:
            es.append(entry_of(p, rules, rec, idx))
        yield conds, es


def entry_of(p, rules, rec, idx):
    nums = []
    vals, low = [], []
    for f in rec:
        if isinstance(f, Var):
            if f.vals is None:
                vals.append(f.text[idx[f.name]])
            else:
                nums.append(f)
                vals.append(NUMC + chr(0xE900 + len(nums)))
        else:
            vals.append(f)
    c = settings(rules, '\0'.join(vals).lower())
    env = dict(zip(c['fields'], vals))

    def inj(s):
        return re.sub(r'%%|%([^%]+)%', lambda m: '%' if m.group(0) == '%%' else env.get(m.group(1), m.group(0)), s)
    accounts = c['accounts'] or {'': '%account%'}
    amounts = c['amounts'] or {'': '%amount%'}
    posts = []
    for k, a in accounts.items():
        t = inj(a + (' ' + amounts[k] if k in amounts else ''))
        f = t.split(None, 1)
        acct, rest = f[0], (f[1] if len(f) > 1 else '')
        d = dict(account=acct, sym=None, n=None, cost=None, total=None)
        m = re.split(r'\s*([@=])\s*', rest)
        if m[0].strip():
            d['sym'], d['n'] = amount_of(p, m[0], nums, c['decimal'])
        if len(m) > 1:
            d['cost' if m[1] == '@' else 'total'] = amount_of(p, m[2], nums, c['decimal'])
        posts.append(d)
    if len(posts) == 1:
        n = posts[0]['n']
        posts.append(dict(account=lambda acct: ite_account(n, acct), sym=None, n=None, cost=None, total=None))
    return dict(date=datetime.datetime.strptime(inj(c['date']), c['date_format']).date(), status=inj(c['status']), desc=inj(c['description']),
                payee=inj(c['payee']) if c['payee'].strip() else None, comment=inj(c['comment']) if c['comment'].strip() else '', postings=posts)


def ite_account(n, acct):
    return {'expenses:unknown': n < 0, 'income:unknown': n > 0, 'unknown': n.same(0)}.get(acct, z3.BoolVal(False))


def norm(s):
    return ' '.join(s.split())


def check_import(p, text, rules, records, fmt='%Y/%m/%d'):
    """the appended text holds exactly the entries that the rules make of the records"""
    got = R.entries(p, text)
    for conds, es in expected(p, rules, records):
        with p.given(*conds):
            if not p.possible():
                continue
            p.must(len(got) == len(es), '%d entries are written for %d records' % (len(got), len(es)))
            if len(got) != len(es):
                continue
            for k, (g, e) in enumerate(zip(got, es)):
                w = 'record %d: ' % (k + 1)
                p.must(txt(p, g['date'], e['date'].strftime(fmt)), w + 'the date is %r, not %s' % (g['date'], e['date']))
                p.must(txt(p, g['status'], norm(e['status'])), w + 'the status is %r' % g['status'])
                p.must(txt(p, norm(g['desc']), norm(e['desc'])), w + 'the description is %r, not %r' % (g['desc'], e['desc']))
                p.must((g['payee'] is None) == (e['payee'] is None), w + 'payee %r, not %r' % (g['payee'], e['payee']))
                if g['payee'] is not None and e['payee'] is not None:
                    p.must(txt(p, norm(g['payee']), norm(e['payee'])), w + 'the payee is %r, not %r' % (g['payee'], e['payee']))
                p.must(txt(p, norm(g['comment']), norm(e['comment'])), w + 'the comment is %r, not %r' % (g['comment'], e['comment']))
                postings(p, g['postings'], e['postings'], w)


def txt(p, got, want):
    return p.text_is(got, None, want)


def fits(p, g, e):
    """condition: this written posting is that expected one"""
    if g['kind'] != 'c':
        return z3.BoolVal(False)
    cs = []
    if callable(e['account']):
        cs.append(e['account'](g['account']))
    else:
        cs.append(p.text_is(g['account'], None, e['account']))
    if e['n'] is None:
        # a blank amount may stay blank
        cs.append(z3.BoolVal(g['n'] is None))
    else:
        if g['n'] is None or g['sym'] != e['sym']:
            return z3.BoolVal(False)
        cs.append(g['n'].near(e['n']))
    for k in ('cost', 'total'):
        if (g[k] is None) != (e[k] is None):
            return z3.BoolVal(False)
        if e[k] is not None:
            cs.append(z3.And(z3.BoolVal(g[k][0] == e[k][0]), g[k][1].near(e[k][1])))
    return z3.And(cs)


def postings(p, got, want, w):
    p.must(len(got) == len(want), w + '%d postings, not %d' % (len(got), len(want)))
    if len(got) != len(want):
        return
    # some matching of written postings with expected ones holds
    alts = []
    for perm in itertools.permutations(range(len(want))):
        alts.append(z3.And([fits(p, got[i], want[k]) for i, k in enumerate(perm)]))
    p.must(z3.Or(alts), w + 'the postings are not those of the rules: %r' % [(g['account'], g['sym']) for g in got])


# ---- rules and records of many shapes

WORDS = ['coffee', 'Tea House', 'x', 'shop 12', 'caf\u00e9', 'BAR', 'Rent', 'tee', 'a-b', "joe's", 'UPPER lower', 'seven', 'fund', 'zoo (big)', 'sub.way', 'Stra\u00dfe']
FORMATS = ['%Y/%m/%d', '%Y/%m/%d', '%d.%m.%Y', '%m/%d/%y', '%Y-%m-%d', '%d-%b-%Y']


class WideImport:
    """shape number k: rules, records and a layout of the rules file; one amount and up to two texts are symbolic"""

    def __init__(self, k, blocks):
        import random
        r = self.r = random.Random('import%d' % k)
        fmt = r.choice(FORMATS)
        dec = ',' if r.random() < .25 else '.'
        names = ['date', 'description', 'amount', 't', 'm'][:r.choice([3, 4, 5, 5])]
        r.shuffle(names)
        extra = r.random() < .3
        if extra:
            names.insert(r.randrange(len(names) + 1), 'unused')
        self.names = names
        words = r.sample(WORDS, 7)
        shape = r.choice(['one', 'one', 'two', 'both'])
        # records
        tv = choice('t', r.sample(words, 4))
        uv = choice('u', r.sample(words, 3))
        if dec == '.':
            nv = r.choice([intvar('v', -30, 30), intvar('v', 0, 250, scale=100), intvar('v', 1, 80)])
        else:
            nv = intvar('v', -150, 150, scale=100, fmt=lambda n: ('-' if n < 0 else '0') + '%d,%02d' % (abs(n) // 100, abs(n) % 100))
        nrec = r.randint(1, 3)
        skip = r.choice([None, None, 0, 1, 2]) if nrec > 1 else r.choice([None, None, 0, 1])
        recs = []
        sym = r.randrange(nrec)
        for i in range(nrec):
            d = datetime.date(r.choice([2019, 2020, 2021]), r.randint(1, 12), r.randint(1, 28))
            c = ('%d.%02d' % (r.randint(-99, 99), r.randint(0, 99))) if r.random() < .5 else str(r.randint(-500, 500))
            val = dict(date=d.strftime(fmt), description=uv if i == sym and r.random() < .4 else r.choice(words), amount=nv if i == sym else c.replace('.', dec),
                       t=tv if i == sym and r.random() < .8 else r.choice(words + ['', '']), m=r.choice(words + ['', '']), unused=r.choice(['', '0', 'zz', 'date']))
            recs.append([val[n] for n in names])
        self.records = recs
        self.header = {None: 'h,', 0: None, 1: 'h,', 2: 'h,'}[skip]
        if self.header:
            self.header = ','.join('h%d' % i for i in range(len(names)))

        def text():
            x = ['"', '%description%', r.choice(WORDS), '<%t%>' if 't' in names else 'T', '%m%' if 'm' in names else 'M', '50%%', '%description% %description%', '%nothing']
            return r.choice([x[1], x[2], x[3], x[1] + ' ' + x[3], x[2] + ' ' + x[5], x[4] + '/' + x[3], x[6], x[1] + ('%t%' if 't' in names else x[1])])
        ACCS = ['assets', 'food', 'fun', 'b']
        body = []
        if shape == 'one':
            body += [('account', r.choice(ACCS))]
            if r.random() < .5:
                body += [('amount', r.choice(['%amount%', '%amount%', '-%amount%', '%amount% EUR', '$%amount%', '%amount% BTC @ 2']))]
        elif shape == 'two':
            i, k2 = r.sample(['', '1', '2', 'x', '10'], 2)
            body += [('account' + i, 'assets'), ('amount' + i, r.choice(['%amount%', '-%amount%', '%amount% points'])), ('account' + k2, r.choice(ACCS[1:]))]
        else:
            body += [('account1', 'assets'), ('amount1', '%amount%'), ('account2', r.choice(ACCS[1:])), ('amount2', '-%amount%')]
        if fmt != '%Y/%m/%d' or r.random() < .2:
            body.append(('date_format', fmt))
        if dec != '.':
            body.append((r.choice(['decimal', 'decimal_symbol']), dec))
        if skip is not None:
            body.append(('skip', str(skip)))
        for n in ('comment', 'payee', 'description', 'note'):
            if r.random() < .4:
                body.append((n, text()))
        if r.random() < .5:
            body.append(('status', r.choice('*~?')))
        r.shuffle(body)
        if r.random() < .15:
            body.append((r.choice(['comment', 'payee', 'description', 'status']), None))
        f = ('fields', r.choice([', ', ',', ' ,  ']).join(names))
        body.insert(r.randrange(len(body) + 1), f)

        def block():
            pats = [r.choice([w, w.upper(), w.lower(), w[:3].strip() or w]) for w in r.sample(words, r.randint(1, 3))]
            if r.random() < .2:
                pats = [None] + pats
            ov = []
            for _ in range(r.randint(1, 3)):
                n = r.choice(['comment', 'payee', 'description', 'status', 'account', 'amount'])
                if n == 'status':
                    ov.append((n, r.choice(['*', '~', '?', None])))
                elif n in ('comment', 'payee', 'description'):
                    ov.append((n, text() if r.random() < .7 else None))
                elif n == 'account':
                    a = [x[0] for x in body if x[0].startswith('account')]
                    ov.append((r.choice(a), r.choice(ACCS)))
                elif shape != 'both':
                    a = [x[0] for x in body if x[0].startswith('amount')]
                    if a:
                        ov.append((a[0], r.choice(['%amount%', '-%amount%', '%amount% NOK', '%amount% BTC = 12'])))
                if r.random() < .15 and shape == 'two':
                    ov.append(([x[0] for x in body if x[0].startswith('account') and x[0] != 'if' and 'amount' + x[0][7:] not in [y[0] for y in body]][0], None))
            return ('if', pats, ov or [('comment', 'seen')])
        if blocks:
            for _ in range(r.randint(1, blocks)):
                # after the fields, or the block would not know them
                body.insert(r.randint(body.index(f) + 1, len(body)), block())
        # a block that knows less than it needs is not a case
        self.rules = self.sane(body)

    def sane(self, body):
        need = [x for x in body if x[0] != 'if' and re.match('account|amount|fields|date|decimal', x[0])]
        rest = [x for x in body if x not in need]
        return need + rest

    def text(self):
        """the rules file, with blank lines, comments and spacing"""
        r = self.r
        out = []
        for x in self.rules:
            if r.random() < .3:
                out.append(r.choice(['\n', '   \n', '; note\n', '  // note\n', '\t\n', '\n\n', '   ; if x\n']))
            if x[0] == 'if':
                ls = rules_text([x], ind=r.choice(['  ', '    ', '\t', ' ']))
                for l in ls:
                    out.append(l)
                    if r.random() < .2:
                        out.append(r.choice(['\n', '   \n', '; note\n', '  // note\n']))
            else:
                l = rules_text([x])[0]
                if r.random() < .3:
                    l = l.replace(' ', r.choice(['  ', '\t', '    ']), 1)
                if r.random() < .2:
                    l = l[:-1] + r.choice(['  ; note', ' // x']) + '\n'
                out.append(l)
        return ''.join(out)
