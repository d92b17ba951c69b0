"""Readers for what silverfox prints and writes. They look at the figures, not at the layout."""
import re
from .core import Q, PU, Bad

N = r'-?\d+(?:\.\d+)?'
SYM = r'[^\s\d.,;@!=|/-]+'
AMT = re.compile(r'(?:(%s) ?(%s)|(%s) (%s)(?!\S)|(%s))' % (SYM, N, N, SYM, N))


def amount(p, s):
    """one amount -> (symbol or '', number)"""
    t = s.strip()
    m = AMT.fullmatch(t)
    if not m:
        raise Bad('not an amount: %r' % t)
    a, b, c, d, e = m.groups()
    sym, num = (a, b) if a else (d, c) if d else ('', e)
    q = p.number(num)
    if q is None:
        raise Bad('not a number: %r' % num)
    if sym == getattr(p, 'native', None):
        sym = ''
    return sym or '', q


def amounts_in(p, s, n=None):
    """all amounts in a stretch of text"""
    out, pos = [], 0
    t = s.strip()
    while pos < len(t):
        m = AMT.match(t, pos)
        if not m:
            raise Bad('cannot read amounts in %r' % t)
        out.append(amount(p, m.group(0)))
        pos = m.end()
        while pos < len(t) and t[pos].isspace():
            pos += 1
    if n is not None and len(out) != n:
        raise Bad('expected %d amounts in %r' % (n, t))
    return out


def balance(p, run):
    """-> [(account, {symbol: number})] in the order printed"""
    out = []
    for l in run.out.split('\n'):
        if not l.strip():
            continue
        if l[0].isspace():
            if not out:
                raise Bad('amount without an account: %r' % l)
            sym, q = amount(p, l)
        else:
            f = l.split(None, 1)
            out.append((f[0], {}))
            if len(f) == 1:
                continue
            sym, q = amount(p, f[1])
        if sym in out[-1][1]:
            raise Bad('currency %r twice for %r' % (sym, out[-1][0]))
        out[-1][1][sym] = q
    return out


def envelopes(p, run):
    """-> {account: dict(available={sym: n}, envs={(type, name): dict(now, next, target, due)}, order=[...])}"""
    res, acct, sect, env = {}, None, None, None
    for l in run.out.split('\n'):
        if not l.strip():
            continue
        ind = len(l) - len(l.lstrip(' '))
        t = l.strip()
        if ind == 0:
            if t in res:
                raise Bad('account %r is shown twice' % t)
            acct = res[t] = dict(available={}, envs={}, order=[])
            sect = None
            continue
        if acct is None:
            raise Bad('no account before %r' % l)
        if ind == 2:
            if t not in ('available', 'expenses', 'goals'):
                raise Bad('unknown section %r' % t)
            sect = t
        elif sect == 'available':
            sym, q = amount(p, t)
            if sym in acct['available']:
                raise Bad('currency twice in available')
            acct['available'][sym] = q
        elif ind == 4:
            k = ('expense' if sect == 'expenses' else 'goal', t)
            if k in acct['envs']:
                raise Bad('envelope %r is shown twice' % t)
            env = acct['envs'][k] = dict(due=None)
            acct['order'].append(k)
        else:
            m = re.match(r'(now|next)(?: \(on ([^)]*)\))?\s+(.*?) / (.*?) \|(.*)\|$', t)
            if not m or env is None:
                raise Bad('cannot read %r' % l)
            s1, a = amount(p, m.group(3))
            s2, b = amount(p, m.group(4))
            if s1 != s2:
                raise Bad('two currencies in %r' % l)
            env[m.group(1)] = a
            env['sym'] = s1
            env['target'] = b
            env['bar_' + m.group(1)] = m.group(5)
            if m.group(1) == 'next':
                env['due'] = m.group(2)
    for a in res.values():
        for k, e in a['envs'].items():
            if 'now' not in e or 'next' not in e:
                raise Bad('envelope %r lacks a line' % (k,))
    return res


REG = re.compile(r'^ ?(\S+) +(.) (.*?)\s+(\S+) -> (\S+)\s\s+(\S.*)$')


def register(p, run):
    """-> [dict(date, status, desc, frm, to, amounts={sym: (amount, running)})]"""
    out = []
    for l in run.out.split('\n'):
        if not l.strip():
            continue
        if l[0] == ' ' and not REG.match(l):
            if not out:
                raise Bad('continuation without an entry: %r' % l)
            t = l
        else:
            m = REG.match(l)
            if not m:
                raise Bad('cannot read register line %r' % l)
            out.append(dict(date=m.group(1), status=m.group(2), desc=m.group(3), frm=m.group(4), to=m.group(5), amounts={}))
            t = m.group(6)
        (s1, a), (s2, b) = amounts_in(p, t, 2)
        if s1 != s2:
            raise Bad('two currencies in one register line %r' % l)
        if s1 in out[-1]['amounts']:
            raise Bad('currency twice in one register entry')
        out[-1]['amounts'][s1] = (a, b)
    return out


def strip_comment(l):
    m = re.search(r'//|;', l)
    return (l[:m.start()], l[m.end():].strip()) if m else (l, '')


def entries(p, text):
    """entries in appended journal text -> [dict(date, status, desc, payee, comment, postings=[...])]"""
    out = []
    for l in text.split('\n'):
        if not l.strip():
            continue
        body, com = strip_comment(l)
        if not l[0].isspace():
            f = body.split()
            if len(f) < 2:
                raise Bad('cannot read entry header %r' % l)
            d = ' '.join(f[2:])
            payee = None
            m = re.match(r'(.*?)\s*\[(.*)\]', d)
            if m:
                d, payee = m.group(1), m.group(2)
            out.append(dict(date=f[0], status=f[1], desc=d, payee=payee, comment=com, postings=[]))
        else:
            if not out:
                raise Bad('posting without an entry: %r' % l)
            f = body.split()
            if not f:
                continue
            if f[0] == 'envelope':
                if len(f) < 4:
                    raise Bad('cannot read envelope posting %r' % l)
                sym, q = amount(p, ' '.join(f[3:]))
                out[-1]['postings'].append(dict(kind='e', account=f[1], env=f[2], sym=sym, n=q))
            else:
                d = dict(kind='c', account=f[0], sym=None, n=None, cost=None, total=None, assertion=None)
                rest = ' '.join(f[1:])
                m = re.split(r' ?(@|!|=) ', rest)
                if m[0].strip():
                    d['sym'], d['n'] = amount(p, m[0])
                for op, v in zip(m[1::2], m[2::2]):
                    d[{'@': 'cost', '=': 'total', '!': 'assertion'}[op]] = amount(p, v)
                out[-1]['postings'].append(d)
    return out
