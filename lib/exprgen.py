"""Literals, context and random sources for the expression checks."""
from fractions import Fraction


def V(t, n=False, a=0, d=1, s=()):
    return {'t': t, 'n': n, 'u': False, 'x': False, 'a': a, 'd': d, 's': list(s)}


def cs(s):
    return [ord(c) for c in s]


def lits():
    """(text, value) of the literals used; no two have the same value"""
    L = []
    for i in (0, 1, 2, 3, 5, 7, 12, 100, -1, -4):
        L.append((str(i), V('Int32', a=i)))
    for i in (0, 2, 7, -3, 15):
        L.append(('%dL' % i, V('Int64', a=i)))
    for x in ('0', '0.5', '1.5', '2.5', '-2.5', '3', '0.25', '-0.75', '10'):
        f = Fraction(x)
        for suf, t in (('D', 'Double'), ('F', 'Single')):
            L.append((('%.2f' % float(f)) + suf, V(t, a=f.numerator, d=f.denominator)))
    for x in ('0', '0.5', '1.5', '2.5', '-2.5', '-0.5', '3', '0.1', '1.25', '10', '-7.3'):
        f = Fraction(x)
        L.append((x + 'M', V('Decimal', a=f.numerator, d=f.denominator)))
    for s in ('', 'a', 'b', 'abc', 'ABC', ' ab ', "o'b", 'abcabc', 'bc', 'c', 'M.T', 'M.R', 'Edm.String', 'Edm.Int32', 'Edm.Int64', 'Edm.Double',
              'Edm.Decimal', 'Edm.Single', 'Edm.Boolean', 'Edm.Int16', 'Edm.Nonsense', 'x and y', u'\u00e9A', "''", "it''s"):
        L.append(("'%s'" % s.replace("'", "''"), V('String', s=cs(s))))
    L += [('true', V('Boolean', a=1)), ('false', V('Boolean', a=0)), ('null', V('Null', n=True))]
    for y, mo, d, h, mi, s in ((2012, 2, 29, 12, 30, 45), (2012, 2, 29, 12, 30, 46), (1999, 12, 31, 23, 59, 59), (2000, 1, 1, 0, 0, 0)):
        L.append(("datetime'%04d-%02d-%02dT%02d:%02d:%02d'" % (y, mo, d, h, mi, s), V('DateTime', s=[y, mo, d, h, mi, s * 1000])))
    for g in ('00000000-0000-0000-0000-000000000001', 'ffffffff-0000-4000-8000-0123456789ab'):
        h = g.replace('-', '')
        L.append(("guid'%s'" % g, V('Guid', s=[int(h[i:i + 2], 16) for i in range(0, 32, 2)])))
    for b in ('00ff', '0102', ''):
        L.append(("binary'%s'" % b, V('Binary', s=list(bytes.fromhex(b)))))
    return L


LITS = lits()
BYT = {}
for _t, _v in LITS:
    BYT.setdefault(_v['t'], []).append(_t)
ROW1 = {'I16': '7', 'I32': '-4', 'I64': '15L', 'By': '5', 'Db': '2.50D', 'Sg': '0.25D', 'De': '-2.5M', 'St': "'abcabc'", 'Bo': 'true',
        'DT': "datetime'2012-02-29T12:30:45'", 'Gu': "guid'ffffffff-0000-4000-8000-0123456789ab'", 'Bi': "binary'0102'",
        'Cx/I32': '12', 'Cx/St': "'bc'", 'Cx/Dp/Db': '1.50D'}
ROW2 = {'I16': '3', 'I32': '5', 'I64': '-3L', 'By': '1', 'Db': '-0.75D', 'Sg': '3.00D', 'De': '0.1M', 'St': "' ab '", 'Bo': 'false',
        'DT': "datetime'1999-12-31T23:59:59'", 'Gu': "guid'00000000-0000-0000-0000-000000000001'", 'Bi': "binary'00ff'"}
TYPES = {'I16': 'Int16', 'I32': 'Int32', 'I64': 'Int64', 'By': 'Byte', 'Db': 'Double', 'Sg': 'Single', 'De': 'Decimal', 'St': 'String', 'Bo': 'Boolean',
         'DT': 'DateTime', 'Gu': 'Guid', 'Bi': 'Binary'}
METHODS = {'endswith': 'SS', 'indexof': 'SS', 'replace': 'SSS', 'startswith': 'SS', 'tolower': 'S', 'toupper': 'S', 'trim': 'S', 'substring': 'SI',
           'substringof': 'SS', 'concat': 'SS', 'length': 'S', 'year': 'D', 'month': 'D', 'day': 'D', 'hour': 'D', 'minute': 'D', 'second': 'D',
           'round': 'N', 'floor': 'N', 'ceiling': 'N'}
BIN = ['or', 'and', 'eq', 'ne', 'lt', 'gt', 'le', 'ge', 'add', 'sub', 'mul', 'div', 'mod']


def env():
    val = dict(LITS)

    def row(r):
        out = []
        for n, t in r.items():
            if '/' not in n:
                out.append([n, dict(val[t], t=TYPES[n])])
        for n, t in TYPES.items():
            out.append(['N' + n, V(t, n=True)])
        return out

    def obj(t, a, n=False, s=()):
        return V(t, n=n, a=a, s=s)
    c1 = row(ROW1) + [['ID', V('Int32', a=1)], ['Cx', obj('Complex', 3)], ['One', obj('Entity', 2, s=[1])], ['None', V('Null', n=True)]]
    c2 = row(ROW2) + [['ID', V('Int32', a=7)], ['Back', obj('Entity', 1, s=[1])]]
    c3 = [['I32', dict(val['12'])], ['St', dict(val["'bc'"])], ['Dp', obj('Complex', 4)]]
    c4 = [['Db', dict(val['1.50D'])], ['NSt', V('String', n=True)]]
    names = []
    for t, v in LITS:
        if v['t'] == 'String':
            s = ''.join(map(chr, v['s']))
            names.append([t, s[4:] if s.startswith('Edm.') else s])
    return {'lits': [[t, v] for t, v in LITS], 'names': names, 'fq': ['M.T', 'M.R', '?', '?'], 'ctx': [{'p': c1}, {'p': c2}, {'p': c3}, {'p': c4}]}


class Gen(object):
    def __init__(self, rng):
        self.r = rng

    def leaf(self, want):
        r = self.r
        cls = {'N': ['Int32', 'Int64', 'Double', 'Single', 'Decimal'], 'I': ['Int32'], 'S': ['String'], 'B': ['Boolean'], 'D': ['DateTime'],
               'G': ['Guid'], 'X': ['Binary']}
        if r.random() < 0.08:
            return ('lit', 'null')
        t = r.choice(cls[want])
        if r.random() < 0.45:
            ps = [n for n, tt in TYPES.items() if tt == t or (want == 'N' and tt in ('Int16', 'Byte') and r.random() < 0.3)]
            n = r.choice(ps)
            if r.random() < 0.2:
                n = 'N' + n
            k = r.random()
            if k < 0.12:
                return ('path', ['One', n])
            if k < 0.16:
                return ('path', ['One', 'Back', n])
            if k < 0.2 and want in 'NI':
                return ('path', ['Cx', 'I32']) if r.random() < .5 else ('path', ['Cx', 'Dp', 'Db'])
            if k < 0.2 and want == 'S':
                return ('path', ['Cx', 'St']) if r.random() < .5 else ('path', ['Cx', 'Dp', 'NSt'])
            if k < 0.22:
                return ('path', ['None', n])
            if k < 0.24:
                return r.choice([('path', ['None']), ('path', ['One']), ('path', ['Cx'])])
            return ('path', [n])
        return ('lit', r.choice(BYT[t]))

    def expr(self, want, d):
        r = self.r
        if r.random() < 0.04:
            want = r.choice('NISBDGX')
        if d <= 0 or (want in 'DGX'):
            return self.leaf(want)
        k = r.random()
        if want == 'B':
            if k < 0.1:
                return self.leaf('B')
            if k < 0.3:
                return ('un', 'not', self.expr('B', d - 1))
            if k < 0.55:
                return ('bin', r.choice(['and', 'or']), self.expr('B', d - 1), self.expr('B', d - 1))
            if k < 0.87:
                w = r.choice('NNNISSDGX')
                op = r.choice(['eq', 'ne', 'lt', 'gt', 'le', 'ge'])
                if w == 'X' and r.random() < .8:
                    op = r.choice(['eq', 'ne'])
                return ('bin', op, self.expr(w, d - 1), self.expr(w, d - 1))
            if k < 0.95:
                return self.call(r.choice(['endswith', 'startswith', 'substringof']), d)
            return self.castlike('isof', d)
        if want in 'NI':
            if k < 0.15:
                return self.leaf(want)
            if k < 0.3:
                return ('un', '-', self.expr(want, d - 1))
            if k < 0.75:
                return ('bin', r.choice(['add', 'sub', 'mul', 'div', 'mod']), self.expr(want, d - 1), self.expr(want, d - 1))
            if k < 0.95:
                m = r.choice(['indexof', 'length', 'year', 'month', 'day', 'hour', 'minute', 'second'] if want == 'I' else ['round', 'floor', 'ceiling', 'length'])
                return self.call(m, d)
            return self.castlike('cast', d)
        if k < 0.25:
            return self.leaf('S')
        return self.call(r.choice(['replace', 'tolower', 'toupper', 'trim', 'substring', 'concat', 'substring']), d)

    def call(self, m, d):
        sig = METHODS[m]
        if m == 'substring' and self.r.random() < 0.5:
            sig = 'SII'
        if self.r.random() < 0.02:
            sig = sig + 'S'
        return ('call', m, [self.expr(s, d - 1) for s in sig])

    def castlike(self, op, d):
        t = self.r.choice(["'Edm.String'", "'Edm.Int32'", "'Edm.Int64'", "'Edm.Double'", "'Edm.Decimal'", "'Edm.Single'", "'Edm.Boolean'", "'M.T'", "'M.R'",
                           "'Edm.Int16'", "'Edm.Nonsense'"])
        a = [] if self.r.random() < 0.15 else [self.expr(self.r.choice('NISB'), d - 1)] if self.r.random() < .9 else [('path', ['One'])]
        return ('call', op, a + [('lit', t)])

    # ------------------------------------------------------------ printing
    def prec(self, e):
        if e[0] == 'bin':
            return {'or': 1, 'and': 2, 'eq': 3, 'ne': 3, 'lt': 4, 'gt': 4, 'le': 4, 'ge': 4, 'add': 5, 'sub': 5}.get(e[1], 6)
        return 7 if e[0] == 'un' else 10

    def toks(self, e, extra):
        r = self.r

        def wrap(x, m):
            t = self.toks(x, extra)
            if self.prec(x) < m or r.random() < extra:
                return [['sym', '(', '']] + t + [['sym', ')', '']]
            return t
        if e[0] == 'lit':
            return [['lit', e[1], 'String' if e[1][0] == "'" else '']]
        if e[0] == 'path':
            out = []
            for i, n in enumerate(e[1]):
                if i:
                    out.append(['sym', '/', ''])
                out.append(['name', n, ''])
            return out
        if e[0] == 'un':
            return [['sym', '-', ''] if e[1] == '-' else ['name', 'not', '']] + wrap(e[2], 7)
        if e[0] == 'bin':
            p = self.prec(e)
            return wrap(e[2], p) + [['name', e[1], '']] + wrap(e[3], p + 1)
        out = [['name', e[1], ''], ['sym', '(', '']]
        for i, x in enumerate(e[2]):
            if i:
                out.append(['sym', ',', ''])
            out += self.toks(x, extra)
        return out + [['sym', ')', '']]

    def spoil(self, ts):
        """random edits of the token sequence: mostly not expressions any more"""
        r = self.r
        ts = [list(t) for t in ts]
        for _ in range(r.choice([1, 1, 2])):
            k = r.random()
            i = r.randrange(len(ts) + 1)
            tok = r.choice([['sym', '(', ''], ['sym', ')', ''], ['sym', ',', ''], ['sym', '/', ''], ['sym', '-', ''], ['name', 'not', ''], ['name', 'eq', ''],
                            ['name', 'add', ''], ['name', 'I32', ''], ['lit', '5', ''], ['name', 'bogus', ''], ['lit', "'a'", 'String'], ['name', 'and', '']])
            if k < 0.4 and ts:
                del ts[min(i, len(ts) - 1)]
            elif k < 0.8:
                ts.insert(i, tok)
            elif ts:
                ts[min(i, len(ts) - 1)] = tok
            if not ts:
                ts = [tok]
        return ts


def merged(ts):
    """a sign directly in front of a number belongs to the number; in doubt keep them apart"""
    return ts


def render(ts, rng=None):
    """text of a token sequence: spaces where they are needed, and sometimes where they are allowed"""
    out = ''
    prev = None
    for k, s, _ in ts:
        need = False
        if prev:
            need = prev[0] in ('name', 'lit') and k in ('name', 'lit')
            if prev[0] == 'sym' and prev[1] == '-' and k in ('lit',):
                need = True
            if prev[0] == 'sym' and prev[1] == '-' and s == '-':
                need = False
            if prev[0] == 'name' and prev[1] in ('not',) + tuple(BIN):
                need = True
            if k == 'name' and s in BIN:
                need = True
            if prev[0] in ('name',) and (s == '('):
                need = prev[1] in BIN or prev[1] == 'not'
            if k == 'sym' and s == '-' and prev[0] in ('lit', 'name'):
                need = True
        if need or (rng and rng.random() < 0.06 and prev and s != '/' and prev[1] != '/' and not (prev[0] == 'name' and s == '(')):
            out += ' '
        out += s
        prev = (k, s)
    return out
