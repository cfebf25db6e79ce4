"""Random QTI version 1.2 items: the abstract item judged by specs/qti/Migrate and the XML read by the real code."""
from fractions import Fraction
from xml.sax.saxutils import escape, quoteattr

WORDS = ['tau', 'Rho', 'x', 'X', 'phi', 'PHI', 'a b', 'mu.1', 'Zeta', 'zeta']
IDS = ['A', 'B', 'c', '1', '2b', 'x y', 'p:q', '-k', 'R.1', 'Q/3', '_u', 'A1', 'yes!', 'n-o']


def codes(s):
    return [ord(c) for c in s]


def q(s):
    f = Fraction(s)
    return [f.numerator, f.denominator]


def dec(rng):
    """the text of a decimal with an exact binary value"""
    n = rng.randint(-12, 24)
    return rng.choice(['%d' % n, '%.1f' % (n / 2.0), '%.2f' % (n / 4.0), '%d.0' % n])


def ident(s):
    """only used to keep the identifiers of an item apart"""
    o = ''.join('-' if c == ':' else c if c.isalnum() or c in '-._' else '_' for c in s)
    return o if s[0].isalpha() or s[0] == '_' else '_' + o


class G(object):
    def __init__(self, rng):
        self.rng = rng

    def ids(self, pool, n, taken):
        out = []
        pool = list(pool)
        self.rng.shuffle(pool)
        for x in pool:
            if len(out) < n and ident(x) not in taken:
                taken.add(ident(x))
                out.append(x)
        return out

    def words(self, lo=1, hi=3):
        out = []
        for i in range(self.rng.randint(lo, hi)):
            self.w += 1
            out.append('w%d' % self.w)
        return out

    def mat(self, ws):
        if len(ws) > 1 and self.rng.random() < .2:
            k = self.rng.randint(1, len(ws) - 1)
            return '<material><mattext>%s</mattext><mat%stext>%s</mat%stext></material>' % (
                ' '.join(ws[:k]), 'em', ' '.join(ws[k:]), 'em')
        return '<material><mattext%s>%s</mattext></material>' % (self.rng.choice(['', '', ' texttype="text/plain"']), ' '.join(ws))

    def response(self, rid, taken):
        rng = self.rng
        t = rng.choice(['lid', 'lid', 'lid', 'str', 'str', 'num', 'num'])
        r = {'id': codes(rid), 'n': rid, 't': t, 'card': 'single', 'base': 'identifier', 'render': 'choice', 'shuffle': 0, 'min': [], 'max': [], 'labels': [],
             'lo': [], 'hi': [], 'step': [], 'start': [], 'orient': '', 'chars': [], 'before': [], 'after': [], 'gaps': [], 'lines': []}
        at = ''
        if t == 'lid':
            r['card'] = rng.choice(['single', 'single', 'multiple'])
            r['render'] = rng.choice(['choice', 'choice', 'choice', 'slider'])
        elif t == 'str':
            r['base'] = 'string'
            r['render'] = 'fib'
            r['card'] = rng.choice(['single', 'single', 'multiple', 'ordered'])
        else:
            nt = rng.choice(['Integer', 'Integer', 'Decimal', 'Scientific', ''])
            r['base'] = 'integer' if nt in ('', 'Integer') else 'float'
            r['render'] = rng.choice(['fib', 'fib', 'slider'])
            r['card'] = 'single' if r['render'] == 'slider' else rng.choice(['single', 'single', 'multiple'])
            if nt:
                at += ' numtype="%s"' % nt
        if r['card'] != 'single' or rng.random() < .5:
            at += ' rcardinality="%s"' % r['card'].title()
        r['before'] = self.words() if rng.random() < .5 else []
        ra = ''
        lab = ''
        if r['render'] == 'choice' or t == 'lid':
            n = rng.randint(1, 4)
            used = set()
            for x in self.ids(IDS, n, used):
                fixed = rng.random() < .3
                ws = self.words(1, 2)
                r['labels'].append({'id': codes(x), 'n': x, 'fixed': int(fixed), 'txt': [codes(y) for y in ws]})
                s = '<response_label ident=%s%s>%s</response_label>' % (quoteattr(x), ' rshuffle="No"' if fixed else rng.choice(['', ' rshuffle="Yes"']),
                                                                       rng.choice([self.mat(ws), '<flow_mat>%s</flow_mat>' % self.mat(ws), ' '.join(ws)]))
                lab += '<flow_label>%s</flow_label>' % s if rng.random() < .3 else s
            for a in ('min', 'max'):
                if rng.random() < .4:
                    r[a] = [rng.randint(0, len(r['labels']))]
                    ra += ' %snumber="%d"' % (a, r[a][0])
        if r['render'] == 'choice':
            if rng.random() < .5:
                r['shuffle'] = int(rng.random() < .6)
                ra += ' shuffle="%s"' % ('Yes' if r['shuffle'] else 'No')
        elif r['render'] == 'slider':
            lo, hi = sorted([rng.randint(-5, 20), rng.randint(-5, 20)])
            r['lo'], r['hi'] = [q(lo)], [q(hi)]
            ra += ' lowerbound="%d" upperbound="%d"' % (lo, hi)
            if rng.random() < .4:
                r['step'] = [rng.randint(1, 4)]
                ra += ' step="%d"' % r['step'][0]
            if rng.random() < .4:
                st = rng.randint(lo, hi)
                if t == 'num':
                    r['start'] = [[st] if r['base'] == 'integer' else [st, 1]]
                ra += ' startval="%d"' % st
            r['orient'] = rng.choice(['horizontal', 'vertical'])
            if r['orient'] == 'vertical' or rng.random() < .5:
                ra += ' orientation="%s"' % r['orient'].title()
        else:
            k = 1 if r['card'] == 'single' else rng.randint(1, 3)
            if rng.random() < .4:
                r['chars'] = [rng.randint(1, 40)]
                ra += ' maxchars="%d"' % r['chars'][0]
            if rng.random() < .3:
                ra += ' fibtype="%s"' % {'string': 'String', 'integer': 'Integer', 'float': 'Decimal'}[r['base']]
            if rng.random() < .3:
                rows = rng.choice([1, 1, 2, 5])
                ra += ' rows="%d"' % rows
                r['lines'] = [rows] if rows > 1 else []
                if rng.random() < .5:
                    cols = rng.randint(1, 60)
                    ra += ' columns="%d"' % cols
                    if not r['chars']:
                        r['chars'] = [rows * cols]
            # content and blanks, mixed unless the blanks are all at the end
            for i in range(k):
                ws = self.words(1, 2) if rng.random() < .5 else []
                r['gaps'].append([codes(x) for x in ws])
                lab += (self.mat(ws) if ws else '') + '<response_label ident="%s"/>' % ('L%d' % i)
            if rng.random() < .4:
                ws = self.words(1, 2)
                r['after'] += ws
                lab += self.mat(ws)
        x = '<response_%s ident=%s%s>' % (t, quoteattr(rid), at)
        if r['before']:
            x += self.mat(r['before'])
        x += '<render_%s%s>%s</render_%s>' % (r['render'], ra, lab, r['render'])
        if rng.random() < .2:
            ws = self.words(1, 2)
            r['after'] += ws
            x += self.mat(ws)
        x += '</response_%s>' % t
        r['before'] = [codes(y) for y in r['before']]
        r['after'] = [codes(y) for y in r['after']]
        return r, x

    def value(self, r):
        """a value a candidate may give: JSON scalar, text"""
        rng = self.rng
        if r['t'] == 'lid':
            l = rng.choice(r['labels'])
            return l['id'], l['n']
        if r['base'] == 'string':
            s = rng.choice(WORDS)
            return codes(s), s
        if r['base'] == 'integer':
            n = rng.randint(-3, 6)
            return [n], '%d' % n
        s = dec(rng)
        return q(s), s

    def test(self, rs, d):
        rng = self.rng
        k = rng.random()
        t = {'op': '', 'r': 0, 'cs': 0, 'ix': 0, 'v': [], 'kids': []}
        if d > 0 and k < .4:
            t['op'] = rng.choice(['and', 'or', 'not'])
            ks = [self.test(rs, d - 1) for i in range(1 if t['op'] == 'not' else rng.randint(1, 3))]
            t['kids'] = [y[0] for y in ks]
            return t, '<%s>%s</%s>' % (t['op'], ''.join(y[1] for y in ks), t['op'])
        if k < .46:
            t['op'] = 'other'
            return t, '<other/>'
        if k < .50:
            t['op'] = 'missing'
            return t, '<varequal respident="NoSuch">x</varequal>'
        i = rng.randint(1, len(rs))
        r = rs[i - 1]
        t['r'] = i
        v, s = self.value(r)
        at = ''
        if r['base'] in ('integer', 'float') and r['card'] == 'single' and rng.random() < .6:
            t['op'] = rng.choice(['lt', 'lte', 'gt', 'gte'])
        else:
            t['op'] = 'equal'
            # without case="Yes" the comparison of strings ignores case (of identifiers it cannot)
            t['cs'] = int(r['base'] != 'string' or (r['card'] != 'single' and not (r['card'] == 'ordered')) or rng.random() < .5)
            if r['card'] == 'ordered':
                t['ix'] = rng.choice([0, 1, 1, 2, 3])
                if t['ix'] == 0:
                    t['cs'] = 1
            if t['ix']:
                at += ' index="%d"' % t['ix']
            if t['cs'] and (r['base'] == 'string' or rng.random() < .5):
                at += ' case="Yes"'
        t['v'] = v
        if r['base'] == 'string' and not t['cs'] and rng.random() < .5:
            s = s.swapcase()
            t['v'] = codes(s)
        return t, '<var%s respident=%s%s>%s</var%s>' % (t['op'], quoteattr(r['n']), at, escape(s), t['op'])

    def item(self):
        rng = self.rng
        self.w = 0
        taken = {'FEEDBACK'}
        n = rng.randint(1, 3)
        rs, body = [], []
        toks = []
        for rid in self.ids(['RESPONSE', 'R1', 'R 2', '3', 'resp:x', 'Q.a'], n, taken):
            r, x = self.response(rid, taken)
            for i in range(1, 4):
                taken.add(ident(rid) + '_%02d' % i)
            if rng.random() < .6:
                ws = self.words()
                toks.append({'r': 0, 'w': [codes(y) for y in ws]})
                body.append(self.mat(ws))
            rs.append(r)
            toks.append({'r': len(rs), 'w': []})
            body.append(x)
        if rng.random() < .3:
            ws = self.words()
            toks.append({'r': 0, 'w': [codes(y) for y in ws]})
            body.append(self.mat(ws))
        f = rng.random()
        if f < .3:
            pres = '<flow>%s</flow>' % ''.join(body)
        elif f < .5:
            pres = '<flow class="Block">%s</flow>' % ''.join('<flow>%s</flow>' % y if rng.random() < .5 else y for y in body)
        else:
            pres = ''.join(body)
        vs, vx = [], ''
        for name in self.ids(['SCORE', 'S2', 'my var', '9x', 'text', 'flag:1'], rng.randint(1, 3), taken):
            t = rng.choice(['Integer', 'Integer', 'Integer', 'Decimal', 'Decimal', 'Scientific', 'String', 'Boolean', 'Enumerated'])
            base = {'Integer': 'integer', 'Decimal': 'float', 'Scientific': 'float', 'String': 'string', 'Boolean': 'boolean', 'Enumerated': 'identifier'}[t]
            v = {'id': codes(name), 'n': name, 'base': base, 'def': [], 'min': [], 'max': [], 'cut': []}
            at = ''
            if name != 'SCORE' or rng.random() < .6:
                at += ' varname=%s' % quoteattr(name)
            if t != 'Integer' or rng.random() < .6:
                at += ' vartype="%s"' % t
            if rng.random() < .6:
                sc, s = self.scalar(base)
                v['def'] = [sc]
                at += ' defaultval=%s' % quoteattr(s)
            if base in ('integer', 'float'):
                for a in ('min', 'max', 'cut'):
                    if rng.random() < .25:
                        s = '%d' % rng.randint(-5, 20) if base == 'integer' else dec(rng)
                        v[a] = [q(s)]
                        at += ' %svalue="%s"' % (a, s)
            vs.append(v)
            vx += '<decvar%s/>' % at
        conds, cx = [], ''
        fbs, fx = [], ''
        for name in self.ids(['F1', 'Correct', '1', 'a b', 'x:y'], rng.randint(0, 3), set()):
            ws = self.words(1, 2)
            t = rng.choice(['', 'Title'])
            fbs.append({'id': codes(name), 'n': name, 'txt': [codes(y) for y in ws], 'title': t})
            fx += '<itemfeedback ident=%s%s><flow_mat>%s</flow_mat></itemfeedback>' % (quoteattr(name), ' title="%s"' % t if t else '', self.mat(ws))
        for i in range(rng.randint(1, 6)):
            ts = [self.test(rs, 2) for j in range(rng.choice([1, 1, 1, 2, 3]))]
            c = {'cont': int(rng.random() < .5), 'tests': [y[0] for y in ts], 'sets': [], 'fb': []}
            x = '<conditionvar>%s</conditionvar>' % ''.join(y[1] for y in ts)
            for j in range(rng.choice([0, 1, 1, 1, 2])):
                vi = rng.randint(1, len(vs))
                v = vs[vi - 1]
                act = 'Set'
                if v['base'] in ('integer', 'float'):
                    act = rng.choice(['Set', 'Add', 'Add', 'Subtract', 'Multiply'] + (['Divide'] if v['base'] == 'float' else []))
                sc, s = self.scalar(v['base'])
                if act == 'Divide':
                    s = rng.choice(['2', '4', '-2', '0.5'])
                    sc = q(s)
                elif act == 'Multiply':
                    s = rng.choice(['2', '3', '-1', '0', '4'])
                    sc = [int(s)] if v['base'] == 'integer' else [int(s), 1]
                c['sets'].append({'v': vi, 'act': act, 'k': sc})
                at = ''
                if v['n'] != 'SCORE' or rng.random() < .5:
                    at += ' varname=%s' % quoteattr(v['n'])
                if act != 'Set' or rng.random() < .5:
                    at += ' action="%s"' % act
                x += '<setvar%s>%s</setvar>' % (at, escape(s))
            for j in range(rng.choice([0, 0, 1, 1, 2]) if fbs else 0):
                fi = rng.randint(1, len(fbs))
                c['fb'].append(fi)
                x += '<displayfeedback%s linkrefid=%s/>' % (rng.choice(['', ' feedbacktype="Response"']), quoteattr(fbs[fi - 1]['n']))
            conds.append(c)
            cx += '<respcondition%s>%s</respcondition>' % (' continue="Yes"' if c['cont'] else rng.choice(['', ' continue="No"', ' title="t"']), x)
        idn = rng.choice(['I1', 'item 1', '7', 'a:b', 'q_9'])
        title = rng.choice(['', 'T'])
        rp = rng.random() < .93
        x = '<questestinterop><item ident=%s%s><presentation%s>%s</presentation>%s%s</item></questestinterop>' % (
            quoteattr(idn), ' title="%s"' % title if title else '', rng.choice(['', '', ' label="lab"']), pres,
            '<resprocessing><outcomes>%s</outcomes>%s</resprocessing>' % (vx, cx) if rp else '', fx)
        runs = []
        for i in range(rng.randint(4, 8)):
            run = []
            for r in rs:
                k = 1
                if r['card'] != 'single':
                    k = rng.randint(0, 3 if r['render'] != 'fib' else len(r['gaps']))
                elif rng.random() < .12:
                    k = 0
                vals = []
                for j in range(k):
                    s = self.value(r)[0]
                    if r['t'] != 'lid' or s not in vals:
                        vals.append(s)
                run.append(vals)
            runs.append(run)
        return {'xml': x, 'id': codes(idn), 'title': title, 'resps': rs, 'toks': toks, 'vars': vs if rp else [], 'conds': conds if rp else [], 'fbs': fbs, 'runs': runs}

    def scalar(self, base):
        rng = self.rng
        if base == 'integer':
            n = rng.randint(-6, 9)
            return [n], '%d' % n
        if base == 'float':
            s = dec(rng)
            return q(s), s
        if base == 'boolean':
            b = rng.random() < .5
            return [int(b)], 'true' if b else 'false'
        s = rng.choice(WORDS if base == 'string' else ['A', 'B', 'c_1', 'D-2'])
        return codes(s), s
