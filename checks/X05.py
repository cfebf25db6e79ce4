"""Texts of XML Schema's simple types through the real decoders and encoders, judged by specs/regex/Lex."""
import itertools


def c(s):
    return [ord(x) for x in s]


def digits(r, n):
    return ''.join(r.choice('0001234567899') for _ in range(n))


def number(r, k):
    s = r.choice(['', '', '-', '+'])
    if k == 'int':
        s += digits(r, r.choice([1, 2, 5, 12, 30]))
    else:
        s += digits(r, r.choice([0, 1, 1, 2, 4]))
        if r.random() < 0.7:
            s += '.' + digits(r, r.choice([0, 1, 1, 2, 4]))
    if k in ('dbl', 'flt') and r.random() < 0.6:
        if r.random() < 0.1:
            return s + r.choice(['E400', 'e-400', 'E+999', 'E99999', 'E-12345', 'E0050' if k == 'dbl' else 'E0020'])
        s += r.choice('eE') + r.choice(['', '', '-', '+']) + r.choice([str(r.randrange(10)), str(r.randrange(26)), '0' + str(r.randrange(26)), '0'])
    if r.random() < 0.15:
        j = r.randrange(len(s) + 1)
        s = r.choice([s[:j] + r.choice('+-.eE, x0INF') + s[j:], s[:j] + s[j + 1:], s[::-1]])
    return s


def run(ctx):
    r = ctx.rng
    n = 1 if ctx.quick else 30
    recs = []
    for k in ('int', 'dec', 'dbl', 'flt'):
        recs += [{'k': k, 's': c(number(r, k))} for _ in range(1500 * n)]
        recs += [{'k': k, 's': c(''.join(w))} for m in range(0, 4 if ctx.quick else 6) for w in itertools.product('-+01.E' if k != 'int' else '-+01. ', repeat=m)]
    recs += [{'k': k, 's': c(s)} for k in ('dbl', 'flt') for s in ('INF', '-INF', 'NaN')]
    recs += [{'k': 'bool', 's': c(s)} for s in ('true', 'false', '0', '1', '', 'TRUE', 'True', ' true', '00', '01', '2', 'yes', 't', 'falsee', 'false ', '-1')]
    for k in ('replace', 'collapse'):
        recs += [{'k': k, 's': c(''.join(w))} for m in range(0, 6 if ctx.quick else 8) for w in itertools.product('a b\n'.replace('b', ''), repeat=m)]
        recs += [{'k': k, 's': c(''.join(r.choice('ab\xa0\u2003 \t\n\r') for _ in range(r.randrange(14))))} for _ in range(800 * n)]
    names = ['apples', 'oranges', 'pears', 'plum', 'poires', 'fig']
    for _ in range(1200 * n):
        vs = r.sample([1, 2, 3, 4, 10, 20], r.choice([2, 3, 3]))
        t = [{'n': c(x), 'v': v} for x, v in zip(names, vs)]
        for x in names[len(vs):len(vs) + r.choice([0, 1, 2])]:
            t.append({'n': c(x), 'v': r.choice(vs)})
        ws = []
        for _ in range(r.choice([0, 1, 2, 3, 3, 4, 6])):
            w = ''.join(map(chr, r.choice(t)['n']))
            ws.append(r.choice([w, w, w, w, w.title(), w.upper()]) if r.random() < 0.95 else r.choice(['', w[1:], w + ',', 'none']))
        s = ''.join(r.choice([' ', '  ', '\n', '\t ']) + w for w in ws)
        recs.append({'k': 'enum', 't': t, 'lower': r.random() < 0.8, 's': c(r.choice([s, s.strip(), s + ' ']))})
    x = lambda s: ''.join(map(chr, s))
    for v, o in ctx.judge('regex', 'LexTrace', ctx.drive('lex_io.py', recs)):
        ctx.count('texts refused' if v['err'] else v['k'], 1)
        if v['bad']:
            got = o['st'] if o['st'] != 'ok' else repr(x(o['got'])) if 'got' in o else '%s %r %s %r' % (o['list'], x(o['enc']), [(d['v'], x(d['w'])) for d in o['dict']], x(o['denc']))
            ctx.violate('%s %r%s' % (v['k'], x(o['s']), ' %s' % [(x(t['n']), t['v']) for t in o['t']] if 't' in o else ''),
                        '%s %r gives %s%s' % (v['k'], x(o['s']), got, '' if v['k'] == 'enum' else ', expected %s' % ('ValueError' if v['want'] == [-1] else repr(x(v['want'])))), o)
