"""Texts and values of HTTP headers (specs/http)."""

TOKENS = ['a', 'b', 'A', 'text', 'TEXT', 'plain', 'html', 'x-y', 'q', 'Q', 'level', '1', 'iso-8859-1', 'utf-8', '*', 'en', 'none', "a'b!#$%&+.^_`|~", 'chunked']
KINDS = ['mt', 'mr', 'ai', 'al', 'at', 'ac', 'ae', 'ag', 'te', 'pt', 'ptl', 'lt', 'ltl', 'et', 'hv', 'cr', 'ar', 'aw', 'cc', 'fd']
MONTHS = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()
DAYS = 'Mon Tue Wed Thu Fri Sat Sun'.split()
LONG = 'Monday Tuesday Wednesday Thursday Friday Saturday Sunday'.split()


def c(s):
    return [ord(x) for x in s]


class G(object):
    def __init__(self, r):
        self.r = r
        self.spacy = 0.0
        self.faults = 1
        self.few = False

    def tok(self):
        r = self.r
        if r.random() < 0.8:
            return r.choice(TOKENS)
        return ''.join(r.choice("abzAZ09-._~*+!'") for _ in range(r.randint(1, 5)))

    def octets(self, n=6):
        return ''.join(self.r.choice(['a', 'b', ' ', '  ', '\t', '"', '\\', ',', ';', '=', '(', ')', '/', '\r', '\n', '\r\n ', '\0', '\x7f', '\xe9', '\xff', 'A', '*'])
                       for _ in range(self.r.choice([0, 0, 1, 1, 2, 3, n])))

    def quoted(self):
        r = self.r
        out = '"'
        for ch in self.octets():
            if ch in '"\\' or (ord(ch) < 32 and ch != '\t') or ord(ch) == 127 or r.random() < 0.1:
                out += ch if ord(ch) > 127 else '\\' + ch
            else:
                out += ch
            if r.random() < 0.04:
                out += '\r\n '
        return out + '"'

    def sp(self, p=None):
        r = self.r
        if r.random() < (self.spacy if p is None else p * self.faults):
            return r.choice([' ', ' ', '  ', '\t', '\r\n ', ' \r\n\t ', '\r\n \r\n '])
        return ''

    def value(self):
        if self.few:
            return self.r.choice(['x', 'x', 'X', 'y', '"x"', '"X"', '""'])
        return self.tok() if self.r.random() < 0.6 else self.quoted()

    def param(self, names, eq=True):
        s = self.sp if eq else (lambda: self.sp(0.01))
        return self.sp() + ';' + self.sp() + self.r.choice(names) + s() + '=' + s() + self.value()

    def params(self, names=('a', 'A', 'level', 'b', 'charset', 'Charset'), eq=True):
        return ''.join(self.param(names, eq) for _ in range(self.r.choice([0, 0, 0, 1, 1, 2, 3])))

    def q(self):
        r = self.r
        if r.random() < 0.5:
            return ''
        v = r.choice(['0', '1', '0.5', '0.25', '.5', '0.', '1.', '1.0', '1.000', '0.999', '0.001', '0.000', '2', '1.5', '00.5', 'x', '-1', '0,5', '0.5.5', '1e-1', '+1', '0.05', '0.8', '0.8'])
        return self.sp() + ';' + self.sp() + r.choice('qqqQ') + self.sp() + '=' + self.sp() + v

    def commas(self, f, n=4):
        r = self.r
        out = ''
        for i in range(r.randint(0 if r.random() < 0.1 else 1, n)):
            out += (',' if i else '') + (',' if r.random() < 0.06 else '') + self.sp() + f() + self.sp()
        return out + (',' if r.random() < 0.05 else '')

    def mtype(self, wild=0.0):
        r = self.r
        t, s = r.choice(['text', 'TEXT', 'image', 'a']), r.choice(['plain', 'html', 'Plain', 'x-c', 'png'])
        if r.random() < wild:
            s = '*'
            if r.random() < 0.4:
                t = '*'
        return t + self.sp(0.01) + '/' + self.sp(0.01) + s

    def item(self):
        q = self.q()
        return self.mtype(0.4) + self.params(('a', 'A', 'level', 'b')) + q + (self.params() if q else '')

    def digits(self, n=9):
        return str(self.r.randrange(10 ** self.r.randint(1, n))) if self.r.random() < 0.8 else '0' * self.r.randint(0, 2) + str(self.r.randrange(100))

    def version(self):
        r = self.r
        return '.'.join(''.join(r.choice(['1', '2', '10', '01', '3', 'a', 'b', 'dev', '-', 'a', 'x'][:8 + r.randint(0, 3)]) for _ in range(r.choice([0, 1, 1, 1, 1, 2, 3])))
                        for _ in range(r.randint(1, 4))) or '1'

    def product(self):
        return self.tok() + (self.sp() + '/' + self.sp() + self.version() if self.r.random() < 0.7 else '')

    def lang(self):
        r = self.r
        return '-'.join(r.choice(['en', 'EN', 'us', 'US', 'gb', 'fr', 'Latn', 'x', 'pig', 'tex', 'texas']) for _ in range(r.choice([1, 1, 2, 2, 3, 4])))

    def date(self):
        """year month day hour minute second"""
        import calendar
        r = self.r
        y = r.choice([r.randint(1, 9999), r.randint(1985, 2095), r.randint(1985, 2095), r.choice([1, 1900, 1999, 2000, 2001, 2100, 9998, 400])])
        m = r.choice([1, 2, 12, r.randint(1, 12)])
        n = calendar.monthrange(y, m)[1]
        d = r.choice([1, n, r.randint(1, n), r.randint(1, n)])
        return [y, m, d, r.choice([0, 23, r.randint(0, 23)]), r.choice([0, 59, r.randint(0, 59)]), r.choice([0, 59, r.randint(0, 59)])]

    def datetext(self):
        import datetime
        r = self.r
        y, m, d, h, mi, s = self.date()
        w = datetime.date(y, m, d).weekday()
        if r.random() < 0.05:
            w = r.randrange(7)
        if r.random() < 0.05:
            h, mi, s = r.choice([(24, 0, 0), (25, 0, 0), (h, 60, s), (h, mi, 60), (h, mi, 61), (h, mi, s)])
        if r.random() < 0.05:
            d = r.choice([0, 28, 29, 30, 31, 32])
        f = r.randrange(3)
        if f == 1 and r.random() < 0.9:
            y = r.randint(1990, 2089)
            try:
                w = datetime.date(y, m, d).weekday()
            except ValueError:
                pass
        mo = MONTHS[m - 1]
        t = '%02d:%02d:%02d' % (h, mi, s)
        if r.random() < 0.03:
            t = t.replace(':', self.sp(0.5) + ':' + self.sp(0.5), r.randint(1, 2))
        x = ('%s, %02d %s %04d %s GMT' % (DAYS[w], d, mo, y, t), '%s, %02d-%s-%02d %s GMT' % (LONG[w], d, mo, y % 100, t), '%s %s %2d %s %04d' % (DAYS[w], mo, d, t, y))[f]
        if r.random() < 0.08:
            x = x.replace(DAYS[w], LONG[w]) if LONG[w] not in x else x.replace(LONG[w], DAYS[w])
        if r.random() < 0.08:
            x = r.choice([x.lower(), x.upper(), x.replace('GMT', 'UTC'), x.replace(',', ''), x.replace('  ', ' '), x.replace(' ', '  '), ' ' + x + ' ', x[:-1], x + ' x', x.replace(' 0', ' ')])
        return x

    def text(self, k):
        r = self.r
        self.spacy = r.choice([0.0, 0.0, 0.05, 0.3])
        a, b = self.sp(), self.sp()
        if k == 'mt':
            x = self.mtype() + self.params(eq=False)
        elif k == 'mr':
            x = self.mtype(0.4) + self.params(('a', 'A', 'level', 'b', 'b', 'q'))
        elif k == 'ai':
            x = self.item()
        elif k == 'al':
            x = self.commas(self.item)
        elif k == 'at':
            x = self.tok() + self.q()
        elif k in ('ac', 'ae', 'ag'):
            ts = {'ac': ['iso-8859-1', 'ISO-8859-1', 'utf-8', 'UTF-8', 'x', '*'], 'ae': ['gzip', 'GZIP', 'identity', 'Identity', 'x', '*'], 'ag': None}[k]
            x = self.commas(lambda: (r.choice(ts) if ts else '*' if r.random() < 0.15 else self.lang()) + self.q())
        elif k == 'te':
            x = r.choice(['chunked', 'Chunked', 'gzip', 'X', 'X']) + self.params()
        elif k == 'pt':
            x = self.product()
        elif k == 'ptl':
            x = ' '.join(self.product() for _ in range(r.randint(0, 3)))
        elif k == 'lt':
            x = self.lang() if r.random() < 0.9 else self.tok()
        elif k == 'ltl':
            x = self.commas(self.lang)
        elif k == 'et':
            x = r.choice(['', '', '', 'W' + self.sp() + '/', 'w/', 'W', 'X/', '/']) + self.sp() + (self.quoted() if r.random() < 0.95 else self.tok())
        elif k == 'hv':
            x = r.choice(['HTTP', 'HTTP', 'http', 'HTTPS', 'X']) + self.sp() + '/' + self.sp() + r.choice(['1.0', '1.1', '%s.%s' % (self.digits(3), self.digits(3)), '1', '1.', '.1', '1.1.1', 'a.b'])
        elif k == 'cr':
            d = lambda: r.choice([self.digits(), self.digits(2), '*'])
            x = r.choice(['bytes', 'bytes', 'Bytes', 'octets']) + self.sp(0.9) + r.choice(['%s-%s' % (self.digits(2), self.digits(2)), '*', '-5', '5-', '5', '%s-%s' % (self.digits(), self.digits())]) + self.sp() + '/' + self.sp() + d()
        elif k == 'ar':
            x = self.commas(lambda: r.choice(['bytes', 'none', 'NONE', 'x', 'Bytes', self.tok()]), 3)
        elif k == 'aw':
            x = self.commas(lambda: r.choice(['GET', 'get', 'PUT', 'Post', self.tok()]))
        elif k == 'cc':
            def d():
                n = r.choice(['no-cache', 'private', 'max-age', 'max-stale', 'min-fresh', 's-maxage', 'no-store', 'public', 'No-Store', 'ext', 'e2', 'Max-Age'])
                y = r.random()
                if y < 0.35:
                    return n
                eq = self.sp() + '=' + self.sp()
                return n + eq + (self.digits(6) if y < 0.6 else '"%s"' % self.commas(self.tok, 3) if y < 0.8 else self.value())
            x = self.commas(d)
        else:
            x = self.datetext()
        x = a + x + b
        if r.random() < 0.12 and x:       # spoil it
            i = r.randrange(len(x) + 1)
            y = r.random()
            if y < 0.35:
                x = x[:i] + x[i + 1:]
            elif y < 0.8:
                x = x[:i] + r.choice([' ', ',', ';', '=', '/', '"', '\\', '(', ')', '(c)', '\r', '\n', '\0', '\x1f', '\x7f', '\t', 'q', '*', '@', '\xe9', '(a(b)\\))', '\r\n ']) + x[i:]
            else:
                j = r.randrange(len(x) + 1)
                x = x[:min(i, j)] + x[max(i, j):]
        return x

    # ------------------------------------------------------------ values
    def vps(self, names=('a', 'b', 'level', 'charset')):
        r = self.r
        out = []
        for n in r.sample(names, r.choice([0, 0, 1, 1, 2])):
            out.append([c(n), c(r.choice([n, n.upper()])), c(self.octets() if r.random() < 0.7 else self.tok())])
        return out

    def vq(self):
        return self.r.choice([1000, 1000, 0, 500, 1, 10, 100, 999, 250, self.r.randrange(1001)])

    def v(self, k):
        r = self.r
        self.spacy = 0.0
        if k in ('mt', 'mr'):
            t, s = self.mtype(0.4 if k == 'mr' else 0).replace(' ', '').lower().split('/')
            t, s = [''.join(ch for ch in x if ord(ch) > 32) for x in (t, s)]
            return {'t': c(t), 's': c(s), 'ps': self.vps()}
        if k == 'ai':
            q = self.vq()
            return {'r': self.v('mr'), 'q': q, 'x': self.vps(('e', 'f')) if r.random() < 0.3 else []}
        if k == 'al':
            return [self.v('ai') for _ in range(r.randint(1, 4))]
        if k == 'at':
            return {'t': c(self.tok()), 'q': self.vq()}
        if k in ('ac', 'ae', 'ag'):
            return [{'t': c(self.lang() if k == 'ag' else self.tok()), 'q': self.vq()} for _ in range(r.randint(1, 4))]
        if k == 'te':
            t = self.tok().lower()
            return {'t': c(t), 'ps': [] if t == 'chunked' else self.vps()}
        if k == 'pt':
            return {'t': c(self.tok()), 'v': [c(self.version())] if r.random() < 0.7 else []}
        if k == 'lt':
            return [c(x) for x in self.lang().split('-')]
        if k == 'et':
            return {'t': c(self.octets(12)), 'w': r.randint(0, 1)}
        if k == 'hv':
            return [r.randrange(100), r.randrange(100)]
        if k == 'cr':
            a = r.randrange(1000)
            return {'r': [a, a + r.randrange(1000)] if r.random() < 0.7 else [], 'n': [r.randrange(3000)] if r.random() < 0.7 else []}
        if k == 'ar':
            return [c(x) for x in r.sample(['bytes', 'x', 'Lines', 'y'], r.randint(0, 3))]
        if k == 'aw':
            return [c(x) for x in r.sample(['GET', 'PUT', 'X-Y', 'POST'], r.randint(0, 3))]
        if k == 'cc':
            out = []
            for d in r.sample(['no-cache', 'private', 'max-age', 's-maxage', 'no-store', 'ext', 'e2'], r.randint(1, 4)):
                kk = {'no-cache': r.choice(['', 'f']), 'private': r.choice(['', 'f']), 'max-age': 'n', 's-maxage': 'n', 'no-store': ''}.get(d, r.choice(['', 's', 's']))
                out.append({'d': c(d), 'k': kk, 'v': [] if kk == '' else [r.randrange(10 ** 6)] if kk == 'n' else c(self.octets()) if kk == 's' else
                            [c(self.tok()) for _ in range(r.randint(1, 3))]})
            return out

    def valid(self, k):
        """a text that probably parses"""
        self.faults = 0
        try:
            return self._valid(k)
        finally:
            self.faults = 1

    def _valid(self, k):
        self.spacy = 0.0
        r = self.r
        if k == 'mt':
            return self.mtype() .replace(' ', '') + self.params(('a', 'A', 'b'), eq=False)
        return {'mr': lambda: self.mtype(0.4) + self.params(('a', 'A', 'b')), 'ai': lambda: self.mtype(0.4) + self.params(('a', 'b')) + r.choice(['', ';q=0.5', ';q=1', ';q=0.501']),
                'at': lambda: r.choice(['*', 'a', 'A', 'b', 'ab']) + r.choice(['', ';q=0.5', ';q=1']), 'ag': lambda: r.choice(['*', self.lang(), self.lang()]) + r.choice(['', ';q=0.5', ';q=1', ';q=0']),
                'te': lambda: r.choice(['chunked', 'a', 'A', 'b']) + self.params(('a', 'b')), 'pt': lambda: r.choice('aaaA') + '/' + self.version(), 'lt': self.lang,
                'et': lambda: r.choice(['', 'W/']) + r.choice(['"a"', '"b"', '"A"', '""', '"\\a"', '"ab"']), 'hv': lambda: 'HTTP/%d.%d' % (r.choice([0, 1, 2, 10]), r.choice([0, 1, 2, 10]))}[k]()
