"""Random QTI items, expressions, rules and sessions, with the XML form of each."""
import itertools
from fractions import Fraction
from xml.sax.saxutils import escape, quoteattr

NS = 'http://www.imsglobal.org/xsd/imsqti_v2p1'
BASES = ['boolean', 'integer', 'float', 'string', 'identifier', 'point', 'pair', 'directedPair', 'duration']
IDS = ['A', 'B', 'C', 'a']


def q(x):
    return [x.numerator, x.denominator]


def qtext(x):
    return str(float(Fraction(*x)))


def text(b, k):
    """the lexical form of a scalar"""
    if b == 'boolean':
        return 'true' if k[0] else 'false'
    if b == 'integer':
        return str(k[0])
    if b in ('float', 'duration'):
        return qtext(k)
    if b == 'point':
        return '%d %d' % tuple(k)
    return ''.join(chr(c) for c in k)


def code(s):
    return [ord(c) for c in s]


def val(c, b, v=(), f=(), g=()):
    return {'s': 'v', 'c': c, 'b': b, 'v': list(v), 'f': list(f), 'g': list(g)}


class G(object):
    def __init__(self, rng):
        self.r = rng
        self.slip = 1.0      # how often a type rule is broken

    def scalar(self, b):
        r = self.r
        if b == 'boolean':
            return [r.randrange(2)]
        if b == 'integer':
            return [r.choice([0, 1, 2, 3, -1, -2, -7, 5, 7, 10, 25])]
        if b in ('float', 'duration'):
            return q(Fraction(r.choice([0, 1, 2, 3, 4, 5, 6, 7, 10, 14, 40, 99, -1, -2, -3, -10, 401]), r.choice([1, 1, 2, 4, 8])))
        if b == 'string':
            return code(r.choice(['a', 'A', 'ab', 'aB', 'b', 'bab', 'AbA', 'abc', 'x y', '\xe9a']))
        if b == 'identifier':
            return code(r.choice(IDS))
        if b == 'point':
            return [r.choice([0, 1, 2, 3, 5, 8, 10, 12, -1]), r.choice([0, 1, 2, 4, 5, 7, 10, 11, -2])]
        if b in ('pair', 'directedPair'):
            p = [r.choice(IDS), r.choice(IDS)]
            if b == 'pair':
                p.sort()
            return code(' '.join(p))
        raise ValueError(b)

    def value(self, c, b, null=0.2):
        r = self.r
        if c == 'single':
            return val(c, b, [] if r.random() < null else [self.scalar(b)])
        if c == 'record':
            if r.random() < null:
                return val(c, '')
            f = sorted(r.sample(['f', 'g', 'h'], r.randint(1, 3)))
            g = [r.choice(BASES) for _ in f]
            return val(c, '', [self.scalar(x) for x in g], f, g)
        n = 0 if r.random() < null else r.randint(1, 4)
        return val(c, b, [self.scalar(b) for _ in range(n)])

    # ------------------------------------------------------------ declarations
    def area(self):
        r = self.r
        s = r.choice(['rect', 'circle', 'ellipse', 'poly', 'default'])
        if s == 'default':
            return s, []
        if s == 'rect':
            return s, [r.randint(0, 11) for _ in range(4)]
        if s == 'circle':
            return s, [r.randint(0, 10), r.randint(0, 10), r.randint(0, 8)]
        if s == 'ellipse':
            return s, [r.randint(0, 10), r.randint(0, 10), r.randint(1, 8), r.randint(1, 8)]
        n = r.randint(3, 5)
        cs = [r.randint(0, 12) for _ in range(2 * n)]
        if r.random() < 0.4:
            cs = cs + cs[:2]
        return s, cs

    def num(self):
        return self.scalar('float')

    def decl(self, k, i):
        r = self.r
        c = r.choice(['single', 'single', 'ordered', 'multiple'] + (['record'] if k != 'T' else []))
        b = '' if c == 'record' else r.choice(BASES)
        d = {'id': '%s%d' % (k, i), 'k': k, 'def': self.value(c, b, 0.4), 'cor': val(c, b), 'mp': [], 'ar': []}
        if k == 'R':
            d['cor'] = self.value(c, b, 0.4)
            lo, hi = [], []
            if r.random() < 0.4:
                lo, hi = sorted([self.num(), self.num()], key=lambda x: Fraction(*x))
                if r.random() < 0.3:
                    lo = []
                elif r.random() < 0.4:
                    hi = []
            if b not in ('', 'duration') and r.random() < 0.7:
                keys = []
                for _ in range(r.randint(1, 4)):
                    s = self.scalar(b)
                    if s not in keys:
                        keys.append(s)
                d['mp'] = [{'def': self.num(), 'lo': lo, 'hi': hi, 'ents': [{'key': s, 'to': self.num()} for s in keys]}]
            if b == 'point' and r.random() < 0.8:
                ents = []
                for _ in range(r.randint(1, 3)):
                    s, cs = self.area()
                    ents.append({'shape': s, 'cs': cs, 'to': self.num()})
                d['ar'] = [{'def': self.num(), 'lo': lo, 'hi': hi, 'ents': ents}]
        return d

    def decls(self):
        r = self.r
        n = {'R': r.randint(2, 4), 'O': r.randint(2, 4), 'T': r.randint(1, 4)}
        return [self.decl(k, i) for k in 'ROT' for i in range(n[k])]

    # ------------------------------------------------------------- expressions
    def ref(self, ds, b):
        """an attribute value: a number, or a reference to a template variable"""
        r = self.r
        ts = [d['id'] for d in ds if d['k'] == 'T' and d['def']['c'] == 'single' and d['def']['b'] == b and d['def']['v']]
        if ts and r.random() < 0.5:
            return {'ref': r.choice(ts), 'q': [0, 1]}
        if r.random() < 0.05 * self.slip:
            return {'ref': r.choice([d['id'] for d in ds] + ['none']), 'q': [0, 1]}
        s = self.scalar(b)
        return {'ref': '', 'q': s if b == 'float' else [s[0], 1]}

    def node(self, op, kids=(), **kw):
        e = {'op': op, 'kids': list(kids), 'id': '', 'b': '', 'v': [], 'n': 0, 'cs': True, 'sub': False, 'mode': '', 'il': True, 'iu': True,
             'tol': [], 'fig': {'ref': '', 'q': [0, 1]}, 'min': {'ref': '', 'q': [0, 1]}, 'max': {'ref': '', 'q': [0, 1]},
             'step': {'ref': '', 'q': [1, 1]}, 'shape': '', 'cs0': [], 'at': [], 'txt': ''}
        e.update(kw)
        return e

    def reftext(self, x, b):
        return '{%s}' % x['ref'] if x['ref'] else (qtext(x['q']) if b == 'float' else str(x['q'][0]))

    def base(self, b):
        s = self.scalar(b)
        return self.node('baseValue', b=b, v=[s], at=[['baseType', b]], txt=text(b, s))

    def leaf(self, ds, c, b):
        r = self.r
        b = '' if c == 'record' else b or r.choice(BASES)
        x = r.random()
        if x < 0.06:
            return self.node('null')
        cands = [d for d in ds if d['def']['c'] == c and (d['def']['b'] == b or c == 'record')]
        if cands and x < (0.5 if c == 'single' else 0.8):
            d = r.choice(cands)
            op = r.choice(['variable', 'variable', 'variable', 'default', 'correct'] if self.slip == 1 or d['k'] == 'R' else ['variable'] + ['default'] * (d['k'] == 'O'))
            return self.node(op, id=d['id'], at=[['identifier', d['id']]])
        if x < 0.98 and b == 'float' and c == 'single' and r.random() < 0.3:
            d = r.choice([x for x in ds if x['mp'] or x['ar']] * (self.slip < 1) or ds)
            op = 'mapResponse' if not d['ar'] or d['mp'] and r.random() < 0.5 else 'mapResponsePoint' if self.slip < 1 else 'mapResponse' if not d['ar'] or r.random() < 0.5 else 'mapResponsePoint'
            return self.node(op, id=d['id'], at=[['identifier', d['id']]])
        if c == 'single':
            return self.base(b)
        if c == 'record':
            if self.slip < 1 and cands:
                return self.node('variable', id=cands[0]['id'], at=[['identifier', cands[0]['id']]])
            return self.node('null')
        return self.node(c, [self.base(b) for _ in range(r.randint(0, 3))])

    def expr(self, ds, c, b, depth):
        """an expression meant to have cardinality c and base type b (sometimes it has not)"""
        r = self.r
        if r.random() < 0.04 * self.slip:
            c = r.choice(['single', 'ordered', 'multiple', 'record'])
        if r.random() < 0.04 * self.slip:
            b = r.choice(BASES)
        b = '' if c == 'record' else b or r.choice(BASES)
        if depth == 0 or r.random() < 0.15:
            return self.leaf(ds, c, b)
        E = lambda c1, b1: self.expr(ds, c1, b1, depth - 1)
        A = lambda n, v: [n, v]
        nb = lambda: r.choice(['integer', 'float'])
        bx = lambda: r.choice(BASES)
        cx = lambda: r.choice(['ordered', 'multiple'])
        if c in ('ordered', 'multiple'):
            if r.random() < 0.25:
                return self.node('delete', [E('single', b), E(c, b)])
            return self.node(c, [E(r.choice(['single', 'single', c]), b) for _ in range(r.randint(0, 4))])
        if c == 'record':
            return self.leaf(ds, c, b)
        ops = ['index', 'fieldValue'] if self.slip == 1 or any(d['def']['c'] == 'record' for d in ds) else ['index']
        if b == 'boolean':
            ops += ['isNull', 'member', 'contains', 'substring', 'not', 'and', 'or', 'anyN', 'match', 'stringMatch', 'equal', 'equal', 'equalRounded', 'inside',
                    'lt', 'gt', 'lte', 'gte', 'durationLT', 'durationGTE'] * 2
        elif b == 'integer':
            ops += ['containerSize', 'sum', 'product', 'subtract', 'integerDivide', 'integerModulus', 'truncate', 'round'] * 2
        elif b == 'float':
            ops += ['sum', 'product', 'subtract', 'divide', 'power', 'integerToFloat'] * 2
        op = r.choice(ops)
        B = lambda: r.choice(['true', '1']), lambda: r.choice(['false', '0'])
        flag = lambda t: B[0]() if t else B[1]()
        if op == 'index':
            n = r.choice([1, 1, 2, 2, 3, 4] + [0, -1] * (r.random() < self.slip))
            return self.node(op, [E('ordered', b)], n=n, at=[A('n', str(n))])
        if op == 'fieldValue':
            f = r.choice(['f', 'g', 'h'])
            return self.node(op, [E('record', '')], id=f, at=[A('fieldIdentifier', f)])
        if op == 'isNull':
            return self.node(op, [E(r.choice(['single', 'ordered', 'multiple', 'record']), bx())])
        if op == 'member':
            x = bx()
            return self.node(op, [E('single', x), E(cx(), x)])
        if op == 'contains':
            x = bx()
            y = cx()
            return self.node(op, [E(y, x), E(y, x)])
        if op in ('substring', 'stringMatch'):
            cs = r.random() < 0.5
            sub = r.random() < 0.5
            at = [A('caseSensitive', flag(cs))]
            if op == 'stringMatch' and (sub or r.random() < 0.5):
                at.append(A('substring', flag(sub)))
            return self.node(op, [E('single', 'string'), E('single', 'string')], cs=cs, sub=sub, at=at)
        if op == 'not':
            return self.node(op, [E('single', 'boolean')])
        if op in ('and', 'or', 'anyN'):
            ks = [E('single', 'boolean') for _ in range(r.randint(1, 4))]
            if op != 'anyN':
                return self.node(op, ks)
            lo, hi = self.ref(ds, 'integer'), self.ref(ds, 'integer')
            if not lo['ref'] and not hi['ref']:
                a, z = sorted([r.randint(0, 4), r.randint(0, 4)])
                lo['q'], hi['q'] = [a, 1], [z, 1]
            return self.node(op, ks, min=lo, max=hi, at=[A('min', self.reftext(lo, 'integer')), A('max', self.reftext(hi, 'integer'))])
        if op == 'match':
            x, y = r.choice(['single', 'ordered', 'multiple', 'multiple']), bx()
            return self.node(op, [E(x, y), E(x, y)])
        if op == 'equal':
            mode = r.choice(['exact', 'absolute', 'relative'])
            il, iu = r.random() < 0.6, r.random() < 0.6
            at = [A('toleranceMode', mode)]
            tol = []
            if mode != 'exact' and r.random() > 0.03 * self.slip:
                tol = [self.ref(ds, 'float') for _ in range(r.choice([1, 1, 2]))]
                for t in tol:
                    if not t['ref']:
                        t['q'] = q(abs(Fraction(*t['q'])))
                at.append(A('tolerance', ' '.join(self.reftext(t, 'float') for t in tol)))
            if not il or r.random() < 0.3:
                at.append(A('includeLowerBound', flag(il)))
            if not iu or r.random() < 0.3:
                at.append(A('includeUpperBound', flag(iu)))
            return self.node(op, [E('single', nb()), E('single', nb())], mode=mode, tol=tol, il=il, iu=iu, at=at)
        if op == 'equalRounded':
            mode = r.choice(['significantFigures', 'decimalPlaces'])
            fig = self.ref(ds, 'integer')
            if not fig['ref']:
                fig['q'] = [r.randint(0 if mode == 'decimalPlaces' else 1, 3), 1]
            return self.node(op, [E('single', nb()), E('single', nb())], mode=mode, fig=fig, at=[A('roundingMode', mode), A('figures', self.reftext(fig, 'integer'))])
        if op == 'inside':
            s, cs = self.area()
            return self.node(op, [E(r.choice(['single', 'ordered', 'multiple']), 'point')], shape=s, cs0=cs, at=[A('shape', s), A('coords', ','.join(map(str, cs)))])
        if op in ('lt', 'gt', 'lte', 'gte'):
            return self.node(op, [E('single', nb()), E('single', nb())])
        if op in ('durationLT', 'durationGTE'):
            return self.node(op, [E('single', 'duration'), E('single', 'duration')])
        if op == 'containerSize':
            return self.node(op, [E(cx(), bx())])
        if op in ('sum', 'product'):
            return self.node(op, [E('single', r.choice([b, b, nb()])) for _ in range(r.randint(1, 4))])
        if op in ('subtract', 'divide', 'power'):
            return self.node(op, [E('single', b if op == 'subtract' else nb()), E('single', b if op == 'subtract' and r.random() < 0.7 else nb())])
        if op in ('integerDivide', 'integerModulus'):
            return self.node(op, [E('single', 'integer'), E('single', 'integer')])
        if op in ('truncate', 'round'):
            return self.node(op, [E('single', 'float')])
        if op == 'integerToFloat':
            return self.node(op, [E('single', 'integer')])
        raise ValueError(op)

    def any(self, ds, depth):
        r = self.r
        x = r.random()
        if x < 0.05:
            return self.node('random', [self.expr(ds, r.choice(['ordered', 'multiple']), r.choice(BASES), depth - 1)])
        if x < 0.08:
            lo, hi, st = [self.ref(ds, 'integer') for _ in range(3)]
            if not st['ref']:
                st['q'] = [r.randint(1, 4), 1]
            at = [['min', self.reftext(lo, 'integer')], ['max', self.reftext(hi, 'integer')]]
            if st['ref'] or st['q'] != [1, 1]:
                at.append(['step', self.reftext(st, 'integer')])
            return self.node('randomInteger', min=lo, max=hi, step=st, at=at)
        if x < 0.1:
            lo, hi = [self.ref(ds, 'float') for _ in range(2)]
            return self.node('randomFloat', min=lo, max=hi, at=[['min', self.reftext(lo, 'float')], ['max', self.reftext(hi, 'float')]])
        c = r.choice(['single'] * 5 + ['ordered', 'multiple'])
        b = r.choice(['boolean'] * 8 + ['integer', 'float'] * 3 + BASES)
        return self.expr(ds, c, b, depth)

    # -------------------------------------------------------------------- XML
    def xexpr(self, e):
        return '<%s%s>%s%s</%s>' % (e['op'], ''.join(' %s=%s' % (n, quoteattr(v)) for n, v in e['at']), escape(e['txt']), ''.join(self.xexpr(k) for k in e['kids']), e['op'])

    def xvalue(self, tag, v):
        if not v['v']:
            return ''
        if v['c'] == 'record':
            s = ''.join('<value fieldIdentifier="%s" baseType="%s">%s</value>' % (f, g, escape(text(g, k))) for f, g, k in zip(v['f'], v['g'], v['v']))
        else:
            s = ''.join('<value>%s</value>' % escape(text(v['b'], k)) for k in v['v'])
        return '<%s>%s</%s>' % (tag, s, tag)

    def xdecl(self, d):
        tag = {'R': 'responseDeclaration', 'O': 'outcomeDeclaration', 'T': 'templateDeclaration'}[d['k']]
        v = d['def']
        s = '<%s identifier="%s" cardinality="%s"%s>' % (tag, d['id'], v['c'], ' baseType="%s"' % v['b'] if v['b'] else '')
        s += self.xvalue('defaultValue', v)
        if d['k'] == 'R':
            s += self.xvalue('correctResponse', d['cor'])
            lim = lambda m: (' lowerBound="%s"' % qtext(m['lo']) if m['lo'] else '') + (' upperBound="%s"' % qtext(m['hi']) if m['hi'] else '')
            for m in d['mp']:
                s += '<mapping defaultValue="%s"%s>' % (qtext(m['def']), lim(m))
                s += ''.join('<mapEntry mapKey=%s mappedValue="%s"/>' % (quoteattr(text(v['b'], x['key'])), qtext(x['to'])) for x in m['ents']) + '</mapping>'
            for m in d['ar']:
                s += '<areaMapping defaultValue="%s"%s>' % (qtext(m['def']), lim(m))
                s += ''.join('<areaMapEntry shape="%s" coords="%s" mappedValue="%s"/>' % (x['shape'], ','.join(map(str, x['cs'])), qtext(x['to'])) for x in m['ents']) + '</areaMapping>'
        return s + '</%s>' % tag

    def xitem(self, ds, body, adaptive=False):
        order = sorted(ds, key=lambda d: 'ROT'.index(d['k']))
        return '<assessmentItem xmlns="%s" identifier="X" title="X" adaptive="%s" timeDependent="false">%s%s</assessmentItem>' % (
            NS, 'true' if adaptive else 'false', ''.join(self.xdecl(d) for d in order), body)

    def exprdoc(self, nx, depth, mode):
        ds = self.decls()
        xs = [self.any(ds, self.r.randint(1, depth)) for _ in range(nx)]
        body = ''
        if mode == 'xml':
            body = '<responseProcessing>' + ''.join('<setOutcomeValue identifier="X">%s</setOutcomeValue>' % self.xexpr(e) for e in xs) + '</responseProcessing>'
        return {'xml': self.xitem(ds, body), 'mode': mode, 'decls': ds, 'exprs': xs}

    # --------------------------------------------------------------- sessions
    def rule(self, ds, kind, depth):
        r = self.r
        x = r.random()
        if x < 0.07:
            return {'op': 'exit', 'id': '', 'e': [], 'br': []}
        if x < 0.4 and depth:
            br = [{'e': [self.expr(ds, 'single', 'boolean', 2)], 'rules': self.rules(ds, kind, depth - 1)} for _ in range(r.randint(1, 3))]
            if r.random() < 0.6:
                br.append({'e': [], 'rules': self.rules(ds, kind, depth - 1)})
            return {'op': 'cond', 'id': '', 'e': [], 'br': br}
        if kind == 'response':
            op, ks = 'setOutcomeValue', 'O'
        else:
            op, ks = r.choice([('setTemplateValue', 'T'), ('setTemplateValue', 'T'), ('setCorrectResponse', 'R'), ('setDefaultValue', 'RO')])
        if r.random() < 0.03 * self.slip:
            ks = 'ROT'
        ts = [d for d in ds if d['k'] in ks]
        d = r.choice(ts)
        v = d['def']
        if v['c'] == 'record':
            ex = self.node(*self.r.choice([('null',)]))
            rs = [x for x in ds if x['def']['c'] == 'record']
            if r.random() < 0.8:
                y = r.choice(rs)
                ex = self.node(r.choice(['variable', 'default', 'correct']) if y['k'] == 'R' else 'variable', id=y['id'], at=[['identifier', y['id']]])
            return {'op': op, 'id': d['id'], 'e': [ex], 'br': []}
        if kind == 'response' and r.random() < 0.05:
            return {'op': op, 'id': 'completionStatus', 'e': [self.expr(ds, 'single', 'identifier', 1)], 'br': []}
        return {'op': op, 'id': d['id'], 'e': [self.expr(ds, v['c'], v['b'], r.randint(0, 3))], 'br': []}

    def rules(self, ds, kind, depth):
        return [self.rule(ds, kind, depth) for _ in range(self.r.randint(1, 3))]

    def xrules(self, rs, kind):
        out = ''
        K = kind
        for x in rs:
            if x['op'] == 'exit':
                out += '<exit%s/>' % K.capitalize()
            elif x['op'] == 'cond':
                out += '<%sCondition>' % K
                for i, b in enumerate(x['br']):
                    t = K + ('If' if i == 0 else 'ElseIf' if b['e'] else 'Else')
                    out += '<%s>%s%s</%s>' % (t, ''.join(self.xexpr(e) for e in b['e']), self.xrules(b['rules'], kind), t)
                out += '</%sCondition>' % K
            else:
                out += '<%s identifier="%s">%s</%s>' % (x['op'], x['id'], self.xexpr(x['e'][0]), x['op'])
        return out

    def fixe(self, rs):
        """the rule records of the model: the expression itself, not a list"""
        out = []
        dummy = self.node('null')
        for x in rs:
            out.append({'op': x['op'], 'id': x['id'], 'e': x['e'][0] if x['e'] else dummy,
                        'br': [{'e': b['e'], 'rules': self.fixe(b['rules'])} for b in x['br']]})
        return out

    def params(self, ds):
        """form fields for some of the responses, and the values they stand for"""
        r = self.r
        form, ps = [], []
        for d in ds:
            v = d['def']
            if d['k'] != 'R' or v['c'] == 'record' or v['b'] == 'duration' and r.random() < 0.5 or r.random() < 0.3:
                continue
            b = v['b']
            if v['c'] == 'single':
                if b == 'string' and r.random() < 0.3:
                    form.append([d['id'], [''], False])
                    ps.append({'id': d['id'], 'bad': False, 'v': val('single', b)})
                    continue
                s = self.scalar(b)
                form.append([d['id'], [text(b, s)], False])
                ps.append({'id': d['id'], 'bad': False, 'v': val('single', b, [s])})
            elif v['c'] == 'multiple':
                ss = [self.scalar(b) for _ in range(r.randint(1, 4))]
                form.append([d['id'], [text(b, s) for s in ss], len(ss) > 1 or r.random() < 0.5])
                ps.append({'id': d['id'], 'bad': False, 'v': val('multiple', b, ss)})
            else:
                n = r.randint(1, 4)
                ranks = sorted(r.sample(range(1, 12), n))
                if b == 'identifier' and r.random() < 0.5:
                    n = min(n, len(IDS))
                    ss = [code(x) for x in r.sample(IDS, n)]
                    fs = [['%s.%s' % (d['id'], text(b, s)), [str(k)], False] for k, s in zip(ranks, ss)]
                else:
                    ss = [self.scalar(b) for _ in range(n)]
                    fs = [['%s.%d' % (d['id'], k), [text(b, s)], False] for k, s in zip(ranks, ss)]
                r.shuffle(fs)
                form += fs
                ps.append({'id': d['id'], 'bad': False, 'v': val('ordered', b, ss)})
        if r.random() < 0.06:
            d = r.choice([x for x in ds if x['k'] != 'R'])
            form.append([d['id'], ['1'], False])
            ps.append({'id': d['id'], 'bad': True, 'v': val('single', 'string')})
        elif r.random() < 0.05:
            form.append(['nosuch', ['1'], False])
            ps.append({'id': 'nosuch', 'bad': True, 'v': val('single', 'string')})
        return form, ps

    def session(self):
        r = self.r
        self.slip = r.choice([0.0, 0.03, 0.3])
        ds = self.decls()
        tr = self.rules(ds, 'template', 2) if r.random() < 0.6 else []
        rr = self.rules(ds, 'response', 2) + self.rules(ds, 'response', 2)
        adaptive = r.random() < 0.4
        body = ''
        if tr:
            body += '<templateProcessing>%s</templateProcessing>' % self.xrules(tr, 'template')
        body += '<responseProcessing>%s</responseProcessing>' % self.xrules(rr, 'response')
        acts = [['clone', False]] if tr else []
        acts += [['begin', False]]
        for _ in range(r.randint(1, 3)):
            acts.append(['attempt', False])
            for _ in range(r.choice([0, 0, 1, 2])):
                acts.append(['save', True])
            acts.append(['submit', True] if r.random() < 0.85 else ['end', False])
        out = []
        for a, f in acts:
            form, ps = self.params(ds) if f else ([], [])
            out.append({'a': a, 'form': form, 'ps': ps})
        return {'xml': self.xitem(ds, body, adaptive), 'decls': ds, 'adaptive': adaptive, 'trules': self.fixe(tr), 'rrules': self.fixe(rr), 'acts': out}

    def grid(self):
        """every operator on every small combination of representative operands"""
        r = self.r
        D = lambda i, k, v, cor=None: {'id': i, 'k': k, 'def': v, 'cor': cor or val(v['c'], v['b']), 'mp': [], 'ar': []}
        rec = val('record', '', [[2], code('a'), [1]], ['f', 'g', 'h'], ['integer', 'string', 'boolean'])
        ds = [D('R0', 'R', rec), D('R1', 'R', val('record', '')), D('R2', 'R', val('single', 'boolean')), D('R3', 'R', val('multiple', 'integer')),
              D('R4', 'R', val('ordered', 'string')), D('R5', 'R', val('single', 'integer')), D('R6', 'R', val('single', 'float')), D('R7', 'R', val('single', 'string')),
              D('R8', 'R', val('single', 'duration')), D('R9', 'R', val('single', 'point')), D('T0', 'T', val('single', 'integer', [[1]])), D('T1', 'T', val('single', 'float', [[1, 2]]))]
        S = lambda b, *v: self.node('baseValue', b=b, v=[list(v)], at=[['baseType', b]], txt=text(b, list(v)))
        T = lambda b, s: S(b, *code(s))
        I, F = lambda n: S('integer', n), lambda n, d: S('float', n, d)
        u = [self.node('null')] + [self.node('variable', id=d['id'], at=[['identifier', d['id']]]) for d in ds[:10]]
        u += [S('boolean', 0), S('boolean', 1), I(0), I(2), I(-7), F(0, 1), F(5, 2), F(-3, 2), F(-7, 1), T('string', 'a'), T('string', 'bA'), T('identifier', 'A'),
              S('point', 1, 2), T('pair', 'A B'), T('directedPair', 'A B'), S('duration', 2, 1), S('duration', 5, 2)]
        for c in ('ordered', 'multiple'):
            u += [self.node(c, ks) for ks in ([], [I(2)], [I(2), I(2)], [I(2), I(0), I(2)], [I(0), I(2)], [T('string', 'a'), T('string', 'bA')], [S('point', 1, 2), S('point', 1, 2)], [F(5, 2)])]
        i1, f1 = {'ref': '', 'q': [1, 1]}, {'ref': 'T1', 'q': [0, 1]}
        out = []
        for op in ('containerSize', 'isNull', 'not', 'truncate', 'round', 'integerToFloat', 'sum', 'product', 'and', 'or', 'multiple', 'ordered'):
            out += [self.node(op, [x]) for x in u]
        for n in (1, 2, 3, 4):
            out += [self.node('index', [x], n=n, at=[['n', str(n)]]) for x in u]
        for f in 'fgx':
            out += [self.node('fieldValue', [x], id=f, at=[['fieldIdentifier', f]]) for x in u]
        for s, cs in (('rect', [1, 2, 3, 4]), ('rect', [0, 0, 1, 2]), ('circle', [2, 3, 1]), ('default', []), ('poly', [0, 0, 6, 0, 0, 9])):
            out += [self.node('inside', [x], shape=s, cs0=cs, at=[['shape', s], ['coords', ','.join(map(str, cs))]]) for x in u]
        for op in ('member', 'delete', 'contains', 'substring', 'match', 'stringMatch', 'equal', 'equalRounded', 'lt', 'gt', 'lte', 'gte', 'durationLT', 'durationGTE',
                   'subtract', 'divide', 'power', 'integerDivide', 'integerModulus', 'sum', 'product', 'and', 'or', 'anyN', 'multiple', 'ordered'):
            kw, at = {}, []
            if op == 'substring' or op == 'stringMatch':
                kw, at = {'cs': False}, [['caseSensitive', 'false']]
            elif op == 'equal':
                kw, at = {'mode': 'exact'}, [['toleranceMode', 'exact']]
            elif op == 'equalRounded':
                kw, at = {'mode': 'decimalPlaces', 'fig': i1}, [['roundingMode', 'decimalPlaces'], ['figures', '1']]
            elif op == 'anyN':
                kw, at = {'min': i1, 'max': i1}, [['min', '1'], ['max', '1']]
            out += [self.node(op, [x, y], at=at, **kw) for x in u for y in u]
        nums = [x for x in u if x['b'] in ('integer', 'float')] + [F(1, 2), F(3, 1), F(199, 8), F(-1, 4), I(25), I(3)]
        for il in (0, 1):
            for iu in (0, 1):
                for tol in ([0.5], [2], [0, 3], [1, 0], ['T1'], [100]):
                    for m in ('absolute', 'relative'):
                        tt = [{'ref': t, 'q': [0, 1]} if t == 'T1' else {'ref': '', 'q': q(Fraction(t))} for t in tol]
                        at = [['toleranceMode', m], ['tolerance', ' '.join(self.reftext(t, 'float') for t in tt)], ['includeLowerBound', str(bool(il)).lower()], ['includeUpperBound', str(bool(iu)).lower()]]
                        out += [self.node('equal', [x, y], mode=m, tol=tt, il=bool(il), iu=bool(iu), at=at) for x in nums for y in nums]
        for m in ('significantFigures', 'decimalPlaces'):
            for k in (0, 1, 2, 3):
                at = [['roundingMode', m], ['figures', str(k)]]
                out += [self.node('equalRounded', [x, y], mode=m, fig={'ref': '', 'q': [k, 1]}, at=at) for x in nums for y in nums]
        # all short containers of two values against each other
        for c in ('ordered', 'multiple'):
            cs = [self.node(c, [I(v) for v in w]) for n in range(1, 5) for w in itertools.product((0, 1), repeat=n)]
            cs = cs[:14] + cs[14::2] if c == 'multiple' else cs
            for op in ('contains', 'match'):
                out += [self.node(op, [x, y]) for x in cs for y in cs]
            out += [self.node(op, [I(n), y]) for n in (0, 1, 2) for y in cs for op in ('member', 'delete')]
        bs = [u[0], u[3]] + u[11:13] + u[13:14]
        for lo in range(4):
            for hi in range(4):
                at = [['min', str(lo)], ['max', str(hi)]]
                kw = {'min': {'ref': '', 'q': [lo, 1]}, 'max': {'ref': '', 'q': [hi, 1]}}
                out += [self.node('anyN', [x, y, z], at=at, **kw) for x in bs[:4] for y in bs[:4] for z in bs]
        for op in ('and', 'or', 'sum', 'multiple', 'ordered'):
            out += [self.node(op, [x, y, z]) for x in bs for y in bs for z in bs]
        docs = []
        for k in range(0, len(out), 250):
            docs.append({'xml': self.xitem(ds, ''), 'mode': 'api', 'decls': ds, 'exprs': out[k:k + 250]})
        return docs + self.mapgrid()

    def mapgrid(self):
        """mapped values of all short containers of three values, one of them not in the mapping"""
        r = self.r
        docs = []
        W = [list(w) for n in range(5) for w in itertools.product((0, 1, 2), repeat=n)]
        for b in ('identifier', 'integer', 'string', 'pair', 'directedPair', 'float', 'boolean', 'point'):
            ks = {'identifier': ['A', 'B', 'a'], 'string': ['bA', 'Ba', 'x y'], 'pair': ['A B', 'B C', 'A A'], 'directedPair': ['A B', 'B A', 'A A']}.get(b)
            ks = [code(k) for k in ks] if ks else {'integer': [[2], [-7], [10]], 'float': [[5, 2], [2, 1], [0, 1]], 'boolean': [[0], [1], [1]], 'point': [[1, 2], [2, 1], [5, 5]]}[b]
            for c in ('ordered', 'multiple'):
                ds, out = [], []
                ws = W if c == 'ordered' and b in ('identifier', 'point', 'pair') else r.sample(W, 30)
                for i, w in enumerate(ws):
                    lo, hi = r.choice([([], []), ([], []), ([0, 1], []), ([], [10, 1]), ([2, 1], [9, 1])])
                    d = {'id': 'R%d' % i, 'k': 'R', 'def': val(c, b, [ks[x] for x in w]), 'cor': val(c, b), 'ar': [],
                         'mp': [{'def': r.choice([[0, 1], [1, 2]]), 'lo': lo, 'hi': hi, 'ents': [{'key': ks[0], 'to': [1, 1]}, {'key': ks[1], 'to': [10, 1]}]}]}
                    out.append(self.node('mapResponse', id=d['id'], at=[['identifier', d['id']]]))
                    if b == 'point':
                        # the third point lies in both areas, and counts in the first of them that has not been counted
                        d['ar'] = [{'def': r.choice([[0, 1], [1, 2]]), 'lo': lo, 'hi': hi, 'ents': [{'shape': 'rect', 'cs': [0, 0, 6, 6], 'to': [1, 1]}, {'shape': 'circle', 'cs': [4, 4, 3], 'to': [10, 1]}]}]
                        out.append(self.node('mapResponsePoint', id=d['id'], at=[['identifier', d['id']]]))
                    ds.append(d)
                docs.append({'xml': self.xitem(ds, ''), 'mode': 'api', 'decls': ds, 'exprs': out})
        return docs

    # ------------------------------------------------------------------ tests
    def part(self, depth, n, tidy):
        r = self.r
        self.seq += 1
        sec = depth > 0 and r.random() < 0.45
        p = {'id': ('S%d' if sec else 'Q%d') % self.seq, 'sec': sec, 'req': r.random() < 0.2, 'fix': r.random() < 0.2, 'vis': False, 'keep': True, 'sel': -1, 'rep': False, 'shuf': False, 'kids': []}
        if sec:
            self.section(p, depth, n, tidy)
        return p

    def section(self, p, depth, n, tidy):
        r = self.r
        p['kids'] = [self.part(depth - 1, n, tidy) for _ in range(r.randint(0 if r.random() < 0.15 else 1, n))]
        p['vis'] = r.random() < 0.4
        p['keep'] = r.random() < (1 if tidy else 0.4)
        if r.random() < 0.55:
            p['rep'] = r.random() < 0.35
            k = len(p['kids'])
            q = sum(x['req'] for x in p['kids'])
            p['sel'] = r.randint(q, max(q, k + (1 if p['rep'] and k else 0)))
            if r.random() < 0.06:
                p['sel'] = r.randint(0, k + 1)
        p['shuf'] = r.random() < 0.6
        if not p['vis'] and not p['keep'] and r.random() < 0.8:
            for x in p['kids']:
                x['fix'] = False

    def xpart(self, p):
        b = lambda t: 'true' if t else 'false'
        at = ' identifier="%s"%s%s' % (p['id'], ' required="true"' if p['req'] else '', ' fixed="true"' if p['fix'] else '')
        if not p['sec']:
            return '<assessmentItemRef%s href="%s.xml"/>' % (at, p['id'])
        s = '<assessmentSection%s title="x" visible="%s" keepTogether="%s">' % (at, b(p['vis']), b(p['keep']))
        if p['sel'] >= 0:
            s += '<selection select="%d"%s/>' % (p['sel'], ' withReplacement="true"' if p['rep'] else '')
        if p['shuf']:
            s += '<ordering shuffle="true"/>'
        return s + ''.join(self.xpart(k) for k in p['kids']) + '</assessmentSection>'

    def mixforms(self, seed):
        """shuffled sections of items (free or fixed) and of invisible sections of one or two items that mingle with them"""
        out = []
        node = lambda i, sec, **kw: dict({'id': i, 'sec': sec, 'req': False, 'fix': False, 'vis': False, 'keep': True, 'sel': -1, 'rep': False, 'shuf': False, 'kids': []}, **kw)
        for n in (1, 2, 3, 4):
            for w in itertools.product('qfmM', repeat=n):
                if sum({'M': 2}.get(k, 1) for k in w) <= 5 and set(w) & set('mM'):
                    self.seq = 1
                    kids = []
                    for k in w:
                        self.seq += 1
                        if k in 'qf':
                            kids.append(node('Q%d' % self.seq, False, fix=k == 'f'))
                        else:
                            c = node('S%d' % self.seq, True, keep=False)
                            for _ in range(1 if k == 'm' else 2):
                                self.seq += 1
                                c['kids'].append(node('Q%d' % self.seq, False))
                            kids.append(c)
                    s = node('S1', True, vis=True, shuf=True, kids=kids)
                    out.append(self.formrec([{'id': 'P0', 'kids': [s]}], True, seed + len(out), 800))
        return out

    def form(self, full, seed):
        r = self.r
        self.seq = 0
        parts = []
        for k in range(1 if full else r.randint(1, 2)):
            ss = []
            for _ in range(1 if full else r.randint(1, 2)):
                self.seq += 1
                p = {'id': 'S%d' % self.seq, 'sec': True, 'req': False, 'fix': False, 'vis': True, 'keep': True, 'sel': -1, 'rep': False, 'shuf': False, 'kids': []}
                self.section(p, 1 if full else r.choice([1, 2, 2, 3]), 3 if full else 4, full)
                ss.append(p)
            parts.append({'id': 'P%d' % k, 'kids': ss})
        return self.formrec(parts, full, seed, 600 if full else 25)

    def formrec(self, parts, full, seed, runs):
        xml = '<assessmentTest xmlns="%s" identifier="T" title="T">' % NS
        for p in parts:
            xml += '<testPart identifier="%s" navigationMode="linear" submissionMode="individual">%s</testPart>' % (p['id'], ''.join(self.xpart(s) for s in p['kids']))
        return {'xml': xml + '</assessmentTest>', 'parts': parts, 'runs': runs, 'full': full, 'most': 24, 'seed': seed, 'forms': []}

    # ----------------------------------------------------------- test sessions
    def tnode(self, kind, depth, ids):
        r = self.r
        self.seq += 1
        n = {'id': {'part': 'P', 'sec': 'S', 'item': 'Q'}[kind] + str(self.seq), 'kind': kind, 'pre': [], 'br': [], 'item': 0, 'tdef': [], 'kids': [],
             'shuf': False, 'sel': -1, 'rep': False}
        if kind == 'part':
            n['kids'] = [self.tnode('sec', depth, ids) for _ in range(r.randint(1, 2))]
        elif kind == 'sec':
            n['kids'] = [self.tnode('sec' if depth and r.random() < 0.4 else 'item', depth - 1, ids) for _ in range(r.randint(1, 3))]
            n['shuf'] = r.random() < 0.1
            if r.random() < 0.12:
                n['rep'] = r.random() < 0.6
                n['sel'] = r.randint(1, len(n['kids']) + (1 if n['rep'] else 0))
        else:
            n['item'] = r.choice(ids)
        return n

    def cond(self, ds):
        r = self.r
        x = r.random()
        bs = [d['id'] for d in ds if d['def']['c'] == 'single' and d['def']['b'] == 'boolean']
        if x < 0.35 and bs:
            e = self.node('variable', id=(i := r.choice(bs)), at=[['identifier', i]])
            return e if r.random() < 0.5 else self.node('not', [e])
        if x < 0.6:
            return self.node('isNull', [self.node('variable', id=(i := r.choice(ds)['id']), at=[['identifier', i]])])
        if x < 0.75:
            return self.base('boolean')
        if x < 0.78:
            return self.base('integer')
        if x < 0.88:
            us = [d['id'] for d in ds if d['id'].endswith('duration')]
            e = self.node('variable', id=(i := r.choice(us)), at=[['identifier', i]])
            s = [r.randint(0, 40), 4]
            f = Fraction(*s)
            b = self.node('baseValue', b='duration', v=[q(f)], at=[['baseType', 'duration']], txt=text('duration', q(f)))
            return self.node(r.choice(['durationLT', 'durationGTE']), [e, b])
        return self.expr(ds, 'single', 'boolean', r.randint(1, 2))

    def tsession(self, seed):
        r = self.r
        self.seq = 0
        self.slip = 0.0
        items = []
        for _ in range(r.randint(1, 3)):
            self.slip = 0.0
            ds = [self.decl('R', 0), self.decl('R', 1), self.decl('O', 0), self.decl('T', 0)]
            for k in (0, 2):
                if r.random() < 0.7:
                    ds[k]['def'] = self.value('single', 'boolean', 0.4)
                    ds[k]['cor'] = self.value('single', 'boolean', 0.4) if k == 0 else val('single', 'boolean')
                    ds[k]['mp'] = ds[k]['ar'] = []
            tr = self.rules(ds, 'template', 1)[:1] if r.random() < 0.3 else []
            rr = self.rules(ds, 'response', 1)[:2]
            body = '<templateProcessing>%s</templateProcessing>' % self.xrules(tr, 'template') if tr else ''
            body += '<responseProcessing>%s</responseProcessing>' % self.xrules(rr, 'response')
            ad = r.random() < 0.2
            items.append({'xml': self.xitem(ds, body, ad), 'decls': ds, 'adaptive': ad, 'trules': self.fixe(tr), 'rrules': self.fixe(rr)})
        parts = [self.tnode('part', r.choice([0, 1, 1, 2]), range(1, len(items) + 1)) for _ in range(r.choice([1, 1, 2, 3]))]
        nodes = []

        def walk(n, part, path):
            n['at'] = len(nodes)
            n['part'] = part
            nodes.append(n)
            for k in n['kids']:
                walk(k, part, path + [n])
            n['end'] = len(nodes)
            n['top'] = len(path) < 2
        for p in parts:
            walk(p, p['id'], [])
        outs = [dict(self.decl('O', k), id='O%d' % k) for k in range(r.randint(1, 2))]
        cds = [dict(d, k='O') for d in outs] + [{'id': 'duration', 'k': 'O', 'def': val('single', 'duration'), 'mp': [], 'ar': []}]
        for n in nodes:
            cds.append({'id': n['id'] + '.duration', 'k': 'O', 'def': val('single', 'duration'), 'mp': [], 'ar': []})
            if n['kind'] == 'item':
                ds = items[n['item'] - 1]['decls']
                cds += [dict(d, id='%s.%s' % (n['id'], d['id']), k='O', mp=[], ar=[]) for d in ds]
        for n in nodes:
            if r.random() < 0.3:
                n['pre'] = [self.cond(cds) for _ in range(r.choice([1, 1, 2]))]
            if r.random() < 0.4:
                for _ in range(r.choice([1, 1, 2])):
                    later = [x['id'] for x in nodes if x['at'] >= n['end'] and ((x['kind'] == 'part') if n['kind'] == 'part' else x['part'] == n['part'])]
                    ex = ['EXIT_TEST'] if n['kind'] == 'part' else ['EXIT_TEST', 'EXIT_TESTPART', 'EXIT_TESTPART'] + ([] if n['top'] else ['EXIT_SECTION'] * 3)
                    t = r.choice(later) if later and r.random() < 0.6 else r.choice(ex)
                    if r.random() < 0.02:
                        t = r.choice([x['id'] for x in nodes] + ['nosuch'])
                    n['br'].append({'t': t, 'e': self.cond(cds)})
            if n['kind'] == 'item' and r.random() < 0.35:
                d = items[n['item'] - 1]['decls'][3]
                n['tdef'] = [{'id': d['id'], 'e': self.expr(cds, d['def']['c'], d['def']['b'], 1)}]

        def x(n):
            at = ' identifier="%s"' % n['id']
            tag = {'part': 'testPart', 'sec': 'assessmentSection', 'item': 'assessmentItemRef'}[n['kind']]
            if n['kind'] == 'part':
                at += ' navigationMode="linear" submissionMode="individual"'
            elif n['kind'] == 'sec':
                at += ' title="x" visible="true"'
            else:
                at += ' href="item%d.xml"' % n['item']
            s = '<%s%s>' % (tag, at) + ''.join('<preCondition>%s</preCondition>' % self.xexpr(e) for e in n['pre'])
            s += ''.join('<branchRule target="%s">%s</branchRule>' % (b['t'], self.xexpr(b['e'])) for b in n['br'])
            if n['sel'] >= 0:
                s += '<selection select="%d"%s/>' % (n['sel'], ' withReplacement="true"' if n['rep'] else '')
            if n['shuf']:
                s += '<ordering shuffle="true"/>'
            s += ''.join('<templateDefault templateIdentifier="%s">%s</templateDefault>' % (t['id'], self.xexpr(t['e'])) for t in n['tdef'])
            return s + ''.join(x(k) for k in n['kids']) + '</%s>' % tag
        xml = '<assessmentTest xmlns="%s" identifier="T" title="T">%s%s</assessmentTest>' % (NS, ''.join(self.xdecl(d) for d in outs), ''.join(x(p) for p in parts))
        evs = []
        t = 0
        nkeys = 1
        for k in range(r.randint(4, 14)):
            t += r.choice([0, 1, 2, 4, 7, 40])
            a = 'begin' if not evs or all(e['key'] != 0 for e in evs) else r.choice(['submit'] * 5 + ['save'] * 2)
            key = 0 if r.random() < 0.88 else r.choice([-1, 1, 2, 3])     # 0: the current one, n: the n-th one ever given, -1: an invented one
            if a != 'begin' and r.random() < 0.04:
                a, key = 'none', 1
            fs = []
            if a in ('save', 'submit'):
                for n in nodes:
                    if n['kind'] == 'item' and r.random() < 0.8:
                        form, ps = self.params(items[n['item'] - 1]['decls'])
                        if any(p['bad'] for p in ps) and r.random() < 0.8:
                            continue
                        fs.append({'id': n['id'], 'form': form, 'ps': ps})
            evs.append({'a': a, 'key': key, 't': t, 'fs': fs})
        ns = {}
        for n in nodes:
            ns[n['id']] = {'kind': n['kind'], 'part': n['part'], 'pre': n['pre'], 'br': n['br'], 'item': n['item'], 'tdef': n['tdef']}
        return {'xml': xml, 'items': items, 'nodes': ns, 'outs': outs, 'evs': evs, 'seed': seed}
