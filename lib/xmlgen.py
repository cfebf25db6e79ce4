"""Random XML documents with internal DTD subsets, and damaged ones."""
NAMES = ['a', 'b', 'c', 'x-y', '_1', ':d', 'é', 'a.b', 'xmlz', 'A']
TEXT = ['x', ' ', '\n', '\t', 'hello', ']', ']]', '>', '-', '--', '?', '?>', "'", '"', '&lt;', '&gt;', '&amp;', '&apos;', '&quot;', '&#65;', '&#x41;', '&#x1F600;', '&#13;', '\r', '\r\n', 'é', '日', '%', '%p;', '&#9;', '&#32;', '/', '=', '\u2028', '\U0001F600']
ENTS = ['e1', 'e2', 'e3', 'lt']


class G(object):
    def __init__(self, rng):
        self.r = rng
        self.ents = []

    def c(self, l):
        return self.r.choice(l)

    def p(self, x):
        return self.r.random() < x

    def s(self, req=True):
        return self.c([' ', ' ', ' ', '\n', '\t', '  ', '\r\n']) if req or self.p(0.2) else ''

    def name(self):
        return self.c(NAMES[:3]) if self.p(0.7) else self.c(NAMES)

    def value(self, n=3, lt=False):
        q = self.c('\'"')
        out = ''
        for _ in range(self.r.randrange(n + 1)):
            if self.ents and self.p(0.15):
                out += '&%s;' % self.c(self.ents)
                continue
            t = self.c(TEXT)
            if q in t or '<' in t:
                continue
            out += t
        return q + out + q

    def attrs(self):
        out = ''
        seen = set()
        for _ in range(self.c([0, 0, 1, 1, 2, 3])):
            n = self.name()
            if n in seen:
                continue
            seen.add(n)
            out += self.s() + n + self.s(False) + '=' + self.s(False) + self.value()
        return out

    def comment(self):
        return '<!--' + ''.join(self.c(['x', ' ', '- ', '>', '<', '&', ']]>', '\n', 'é', '-x', '?>']) for _ in range(self.r.randrange(4))) + '-->'

    def pi(self):
        return '<?' + self.c(['p', 'a', 'xml-s', 'xmlz', 'é']) + (self.s() + ''.join(self.c(['x', ' ', '?', '??', '>', '<', '&', '-->', '\n', "a='1'"]) for _ in range(self.r.randrange(4))) if self.p(0.7) else '') + '?>'

    def cdata(self):
        return '<![CDATA[' + ''.join(self.c(['x', ' ', '<', '&', ']', ']]', '>', '&lt;', '<b>', '\r\n', '日', '<![CDATA[']) for _ in range(self.r.randrange(5))) + ']]>'

    def content(self, d):
        out = ''
        for _ in range(self.c([0, 1, 2, 3])):
            k = self.r.random()
            if k < 0.4:
                out += ''.join(self.c(TEXT) for _ in range(self.r.randrange(1, 4)))
            elif k < 0.65 and d > 0:
                out += self.element(d - 1)
            elif k < 0.75:
                out += self.comment()
            elif k < 0.82:
                out += self.pi()
            elif k < 0.9:
                out += self.cdata()
            elif self.ents:
                out += '&%s;' % self.c(self.ents)
        return out

    def element(self, d, name=None):
        n = name or self.name()
        t = '<' + n + self.attrs() + self.s(False)
        if self.p(0.25):
            return t + '/>'
        return t + '>' + self.content(d) + '</' + n + self.s(False) + '>'

    def misc(self):
        return ''.join(self.c([self.comment(), self.pi(), self.s(), '']) for _ in range(self.r.randrange(3)))

    def extid(self):
        return self.c(['SYSTEM', 'PUBLIC %s"-//x//y (z)"' % self.s(False)]) + self.s() + self.c(['"s.dtd"', "'s'", '""', '"a>b&c"'])

    def cp(self, d):
        if d == 0 or self.p(0.5):
            t = self.name()
        else:
            sep = self.c(',|')
            items = [self.cp(d - 1) for _ in range(self.r.randrange(1, 4))]
            t = '(' + self.s(False) + (self.s(False) + sep + self.s(False)).join(items) + self.s(False) + ')'
        return t + self.c(['', '', '?', '*', '+'])

    def decl(self):
        k = self.r.randrange(7)
        if k == 0:
            m = self.c(['EMPTY', 'ANY', '(#PCDATA)', '( #PCDATA )*', '(#PCDATA|a|%sb)*' % self.s(False), None])
            if m is None:
                m = '(' + self.cp(2) + ')' + self.c(['', '?', '*', '+'])
                if self.p(0.5):
                    m = '(' + self.cp(1) + self.s(False) + self.c(',|') + self.cp(2) + ')'
            return '<!ELEMENT' + self.s() + self.name() + self.s() + m + self.s(False) + '>'
        if k <= 2:
            out = '<!ATTLIST' + self.s() + self.c(['a', 'a', 'b', 'c'])
            for _ in range(self.c([0, 1, 1, 2, 3])):
                ty = self.c(['CDATA', 'CDATA', 'NMTOKEN', 'NMTOKENS', 'ID', 'IDREF', 'IDREFS', 'ENTITY', 'ENTITIES', '(x|y)', '( 1 | -a )', 'NOTATION (n)'])
                df = self.c(['#REQUIRED', '#IMPLIED', '#FIXED ' + self.value(), self.value(), self.value(), self.value(5)])
                out += self.s() + self.name() + self.s() + ty + self.s() + df
            return out + self.s(False) + '>'
        if k <= 4:
            n = self.c(ENTS)
            z = self.r.random()
            if z < 0.8:
                q = self.c('\'"')
                body = self.content(1) if self.p(0.6) else ''.join(self.c(TEXT + ['&#60;', '&#38;', '&#38;#60;', '<b>', '</b>', '<b/>', '&e1;', '&e2;', '&e3;', '&e4;']) for _ in range(self.r.randrange(4)))
                body = body.replace(q, '').replace('%', '').replace('&#13;', '')
                out = '<!ENTITY' + self.s() + n + self.s() + q + body + q + self.s(False) + '>'
            elif z < 0.9:
                out = '<!ENTITY' + self.s() + n + self.s() + self.extid() + self.s() + 'NDATA' + self.s() + 'n' + self.s(False) + '>'
            else:
                return '<!ENTITY' + self.s() + '%' + self.s() + n + self.s() + self.c(['"x"', self.extid()]) + self.s(False) + '>'
            self.ents.append(n)
            return out
        if k == 5:
            return '<!NOTATION' + self.s() + 'n' + self.s() + self.c([self.extid(), 'PUBLIC "x"']) + self.s(False) + '>'
        return self.c([self.comment(), self.pi(), self.s()])

    def doc(self):
        self.ents = []
        out = ''
        if self.p(0.3):
            out = '<?xml version' + self.s(False) + '=' + self.s(False) + self.c(['"1.0"', "'1.0'", '"1.1"', '"1.10"'])
            if self.p(0.5):
                out += self.s() + 'encoding=' + self.c(['"UTF-8"', "'utf-8'"])
            if self.p(0.4):
                out += self.s() + 'standalone' + self.s(False) + '=' + self.c(['"yes"', "'no'"])
            out += self.s(False) + '?>'
        out += self.misc() if self.p(0.4) else ''
        root = self.c(['a', 'a', 'b'])
        if self.p(0.55):
            out += '<!DOCTYPE' + self.s() + root
            if self.p(0.15):
                out += self.s() + self.extid()
            out += self.s(False)
            if self.p(0.9):
                out += '[' + ''.join(self.decl() + self.c(['', '\n']) for _ in range(self.r.randrange(5))) + ']' + self.s(False)
            out += '>' + (self.misc() if self.p(0.3) else '')
        if self.p(0.05):
            self.ents.append('e4')
        out += self.element(self.c([1, 2, 2, 3]), root)
        out += self.misc() if self.p(0.3) else ''
        return out

    BITS = ['<', '>', '&', ';', '"', "'", '/', '-', '--', '-->', '<!--', ']]>', ']', '[', '?', '?>', '<?', '!', ' ', '\n', '=', '\x01', '\ufffe', '\x0b', '&#0;', '&#xFFFE;', '&#x110000;', '&#xD800;', '&#99999999999;',
            '&x;', '&', '&#;', '&#x;', '<b>', '</b>', '</a>', '<a>', '<?xml version="1.0"?>', '<?XML x?>', '<![CDATA[', '(', ')', '|', ',', '*', '#', '1', ':', '%', '&lt', '<!DOCTYPE a>', 'standalone', '0', '.', '&e1;', '\x85', '<? x?>', ' a="1"', ' a="<"']

    def spoil(self, t):
        for _ in range(self.c([1, 1, 1, 2])):
            i = self.r.randrange(len(t) + 1)
            k = self.r.random()
            if k < 0.4:
                t = t[:i] + self.c(self.BITS) + t[i:]
            elif k < 0.7:
                t = t[:i] + t[i + self.c([1, 1, 1, 2, 3, 5]):]
            elif k < 0.8 and i < len(t):
                t = t[:i] + self.c(self.BITS) + t[i + 1:]
            elif k < 0.9:
                j = self.r.randrange(len(t) + 1)
                i, j = min(i, j), max(i, j)
                t = t[:j] + t[i:min(j, i + 12)] + t[j:]
            else:
                t = t[:max(i, 1)]
        return t


TOK = ['<b>', '</b>', '<b/>', 'x', '&lt;', ']]>', '<![CDATA[', ']]', '>', '-->', '<!--', '-', '<?p', '?>', ' ', '&#65;', '&e;', '?', '</a>', '&', '<']
