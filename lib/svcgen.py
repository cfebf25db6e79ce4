"""Requests to the driver's OData service (their abstract form for specs/store/Service and their rendering in HTTP),
and the reading of its responses with an XML and a JSON parser and a reader of OData URIs of our own."""
import base64, json, re, urllib.parse
import xml.etree.ElementTree as ET
from vlib import code, uncode

ROOT = 'http://host/service.svc/'
SETS = ['Customers', 'Orders', 'Lines', 'Docs']
# name, type, facets
PROPS = [[('CID', 'String'), ('Name', 'String'), ('Rank', 'Int32'), ('Addr.Street', 'String'), ('Addr.City', 'String'), ('Ver', 'Int32')],
         [('OID', 'Int32'), ('Note', 'String'), ('Qty', 'Int32')],
         [('OID', 'Int32'), ('Num', 'Int32'), ('Text', 'String')],
         [('DID', 'Int32'), ('Title', 'String'), ('Ver', 'Binary')]]
NKEY = [1, 1, 2, 1]
NAVS = [[('Orders', 1, '*'), ('Photo', 3, '?')], [('Customer', 0, '?'), ('Lines', 2, '*')], [('Order', 1, '1')], [('Owner', 0, '?')]]
NEEDED = [['CID'], ['OID', 'Qty'], ['OID', 'Num'], ['DID']]
TOKEN = [6, 0, 0, 3]
TEXTS = ['', 'a', '  a  b ', 'a\nb\t', ' ', "it's", 'a b+c%20', '<&>"', 'é\u20ac', 'x/y', 'T']
# mapped to an element of the feed, where white space may be collapsed
TITLES = ['', 'a', "it's", 'a b+c%20', '<&>"', '\xe9\u20ac', 'x/y', 'T']
CIDS = ['A', "O'B", 'x/y&z=1,2(', 'é']
OIDS = [1, 2, 3, -4]
NUMS = [1, 2]
DIDS = [1, 2, 5]

_T = '<Property Name="%s" Type="%s" Nullable="%s"%s/>'


def model():
    def ent(name, props, keys, navs, attrs=''):
        return '<EntityType Name="%s"%s><Key>%s</Key>%s%s</EntityType>' % (
            name, attrs, ''.join('<PropertyRef Name="%s"/>' % k for k in keys), ''.join(props),
            ''.join('<NavigationProperty Name="%s" Relationship="M.%s" FromRole="%s" ToRole="%s"/>' % n for n in navs))

    def p(n, t, null=False, extra=''):
        return _T % (n, t if '.' in t else 'Edm.' + t, 'true' if null else 'false', extra)
    cust = ent('Customer', [p('CID', 'String'), p('Name', 'String', True), p('Rank', 'Int32', True), p('Addr', 'M.Address'),
                            p('Ver', 'Int32', True, ' ConcurrencyMode="Fixed"')], ['CID'],
               [('Orders', 'Order_Customer', 'Customer', 'Order'), ('Photo', 'Customer_Doc', 'Customer', 'Doc')])
    order = ent('Order', [p('OID', 'Int32'), p('Note', 'String', True), p('Qty', 'Int32')], ['OID'],
                [('Customer', 'Order_Customer', 'Order', 'Customer'), ('Lines', 'Line_Order', 'Order', 'Line')])
    line = ent('Line', [p('OID', 'Int32'), p('Num', 'Int32'), p('Text', 'String', True)], ['OID', 'Num'],
               [('Order', 'Line_Order', 'Line', 'Order')])
    doc = ent('Doc', [p('DID', 'Int32'), p('Title', 'String', True, ' m:FC_TargetPath="SyndicationTitle" m:FC_KeepInContent="false"'),
                      p('Ver', 'Binary', True, ' ConcurrencyMode="Fixed" MaxLength="64"')], ['DID'],
              [('Owner', 'Customer_Doc', 'Doc', 'Customer')], ' m:HasStream="true"')

    def assoc(n, a, ta, ma, b, tb, mb):
        return '<Association Name="%s"><End Type="M.%s" Multiplicity="%s" Role="%s"/><End Type="M.%s" Multiplicity="%s" Role="%s"/></Association>' % (
            n, ta, ma, a, tb, mb, b)

    def aset(n, a, sa, b, sb):
        return '<AssociationSet Name="%s" Association="M.%s"><End EntitySet="%s" Role="%s"/><End EntitySet="%s" Role="%s"/></AssociationSet>' % (
            n + 's', n, sa, a, sb, b)
    return ('<?xml version="1.0" encoding="utf-8"?><edmx:Edmx Version="1.0" xmlns:edmx="http://schemas.microsoft.com/ado/2007/06/edmx" '
            'xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata"><edmx:DataServices m:DataServiceVersion="2.0">'
            '<Schema Namespace="M" xmlns="http://schemas.microsoft.com/ado/2006/04/edm">'
            '<EntityContainer Name="Box" m:IsDefaultEntityContainer="true">'
            + ''.join('<EntitySet Name="%s" EntityType="M.%s"/>' % (s, s[:-1]) for s in SETS)
            + aset('Order_Customer', 'Order', 'Orders', 'Customer', 'Customers') + aset('Line_Order', 'Line', 'Lines', 'Order', 'Orders')
            + aset('Customer_Doc', 'Customer', 'Customers', 'Doc', 'Docs')
            + '</EntityContainer>' + cust + order + line + doc
            + '<ComplexType Name="Address">' + p('Street', 'String', True) + p('City', 'String', True) + '</ComplexType>'
            + assoc('Order_Customer', 'Order', 'Order', '*', 'Customer', 'Customer', '0..1')
            + assoc('Line_Order', 'Line', 'Line', '*', 'Order', 'Order', '1')
            + assoc('Customer_Doc', 'Customer', 'Customer', '0..1', 'Doc', 'Doc', '0..1')
            + '</Schema></edmx:DataServices></edmx:Edmx>')


def V(x):
    if x is None:
        return []
    if isinstance(x, int):
        return [1, x]
    if isinstance(x, str):
        return [2] + code(x)
    return [3] + list(x)


ABS = [9]
WRONG = [8]
NOQ = {'f': [], 'o': [], 'top': -1, 'skip': -1, 'cnt': 0, 'sel': [], 'exp': [], 'fmtopt': 0}
NOBODY = {'t': 'none', 'v': [], 'b': [], 'to': {'s': 0, 'k': []}, 'str': [], 'title': []}


class Gen(object):
    def __init__(self, rng):
        self.r = rng

    # ------------------------------------------------------------ values
    def key(self, s):
        r = self.r
        if s == 0:
            return [V(r.choice(CIDS))]
        if s == 1:
            return [V(r.choice(OIDS))]
        if s == 2:
            return [V(r.choice(OIDS[:3])), V(r.choice(NUMS))]
        return [V(r.choice(DIDS))]

    def value(self, s, n, null=0.2):
        r = self.r
        t = PROPS[s][n][1]
        if r.random() < null and PROPS[s][n][0] not in NEEDED[s]:
            return []
        if t == 'Int32':
            return V(r.choice([0, 1, 2, -1, 7, 2147483647, -2147483648]))
        if t == 'String':
            return V(r.choice(TITLES if s == 3 else TEXTS))
        return V(bytes(r.randrange(256) for _ in range(r.choice([0, 1, 3]))))

    def row(self, s, absent=0.0, key=None):
        return [key[i] if key and i < NKEY[s] else self.key(s)[i] if i < NKEY[s] else
                ABS if self.r.random() < absent else self.value(s, i) for i in range(len(PROPS[s]))]

    def store(self):
        """rows to insert, in order, with their required links"""
        r = self.r
        out = []
        cs = r.sample(CIDS, r.choice([1, 2, 3, 3, 4]))
        os_ = r.sample(OIDS, r.choice([1, 2, 3, 3, 4]))
        for d in r.sample(DIDS, r.choice([0, 1, 2, 2, 3])):
            out.append({'s': 3, 'v': [V(d), self.value(3, 1), []], 'b': [],
                        'm': [r.choice(['text/plain', 'image/x-y']), [r.randrange(256) for _ in range(r.choice([0, 1, 5]))]]})
        docs = [x['v'][:1] for x in out]
        for c in cs:
            b = [['Photo', docs.pop()]] if docs and r.random() < 0.6 else []
            out.append({'s': 0, 'v': self.row(0, key=[V(c)]), 'b': b, 'm': []})
        for o in os_:
            b = [['Customer', [V(r.choice(cs))]]] if r.random() < 0.7 else []
            out.append({'s': 1, 'v': self.row(1, key=[V(o)]), 'b': b, 'm': []})
        have = set()
        for _ in range(r.randrange(0, 6)):
            k = self.key(2)
            if json.dumps(k) not in have:
                have.add(json.dumps(k))
                out.append({'s': 2, 'v': self.row(2, key=k), 'b': [['Order', [V(r.choice(os_))]]], 'm': []})
        # what paths are made of, most of the time
        self.known = [[x['v'][:NKEY[i]] for x in out if x['s'] == i] for i in range(4)]
        self.linked = {}
        back = {'Photo': (3, 'Owner'), 'Customer': (0, 'Orders'), 'Order': (1, 'Lines')}
        for x in out:
            for n, k in x['b']:
                self.linked.setdefault(json.dumps([x['s'], x['v'][:NKEY[x['s']]], n]), []).append(k)
                self.linked.setdefault(json.dumps([back[n][0], k, back[n][1]]), []).append(x['v'][:NKEY[x['s']]])
        return out

    # ------------------------------------------------------------ URIs
    def lit(self, v):
        if v == []:
            return 'null'
        if v[0] == 1:
            return str(v[1])
        if v[0] == 2:
            return "'%s'" % uncode(v[1:]).replace("'", "''")
        return "X'%s'" % ''.join('%02x' % b for b in v[1:])

    def esc(self, t, safe="'(),=$*:;@!"):
        """percent-encodes, sometimes more than it has to"""
        out = ''
        for ch in t:
            if ch.isalnum() and ord(ch) < 128 or ch in '-_.~' or ch in safe:
                out += ch if self.r.random() < 0.98 or ch in '(),=$' else '%%%02X' % ord(ch)
            else:
                out += ''.join('%%%02X' % b for b in ch.encode('utf-8'))
        return out

    def pred(self, s, k):
        names = [p[0] for p in PROPS[s][:NKEY[s]]]
        if len(k) == 1 and self.r.random() < 0.7:
            return '(' + self.esc(self.lit(k[0]), "'") + ')'
        ps = ['%s=%s' % (n, self.esc(self.lit(v), "'")) for n, v in zip(names, k)]
        self.r.shuffle(ps)
        return '(' + ','.join(ps) + ')'

    def badpred(self, s):
        return self.r.choice({0: ["('A", "(Nope='A')", "('A','B')", '(1)', "(CID='A',CID='A')", "(CID='A',Name='x')", '(A)'],
                              1: ["('x')", '(1,2)', '(Nope=1)', '(OID=1,Qty=2)', '(1.5M)', "(OID='1')", '(1', '(null)'],
                              2: ['(1)', '(OID=1)', '(OID=1,Num=)', '(OID=1,Numb=1)', "(OID=1,Num='1')", '(OID=1,Num=1,Text=null)'],
                              3: ["('x')", '(Nope=1)', '(DID=)', 'x(1)', '(1)(1)']}[s])

    def seg(self, s, n, kp=None, k=None):
        """a segment that names set s; kp None: with a key"""
        if kp == 0:
            return {'n': n, 'kp': 0, 'k': []}, n
        if kp == 2:
            p = self.badpred(s)
            while not p.startswith('('):
                p = self.badpred(s)
            return {'n': n, 'kp': 2, 'k': []}, n + p
        k = k or self.key(s)
        return {'n': n, 'kp': 1, 'k': k}, n + self.pred(s, k)

    def path(self, want):
        """segments leading to a set, an entity, a complex value or a property: (segs, uri, set or None)"""
        r = self.r
        s = r.choice([0, 0, 1, 1, 2, 3])
        if r.random() < 0.02:
            return [{'n': 'Nothing', 'kp': 0, 'k': []}], 'Nothing', s
        segs, uri = [], []

        def add(x):
            segs.append(x[0])
            uri.append(x[1])
        if want == 'set' and r.random() < 0.5:
            add(self.seg(s, SETS[s], 0))
            return segs, '/'.join(uri), s
        at = r.choice(self.known[s]) if self.known[s] and r.random() < 0.85 else None
        add(self.seg(s, SETS[s], 2 if r.random() < 0.05 else None, at))
        hops = r.choice([0, 0, 0, 1, 1, 2])
        for _ in range(hops):
            ns = [x for x in NAVS[s] if at and json.dumps([s, at, x[0]]) in self.linked]
            n, t, m = r.choice(ns) if ns and r.random() < 0.8 else r.choice(NAVS[s])
            ts = self.linked.get(json.dumps([s, at, n]), []) if at else []
            to = r.choice(ts) if ts and r.random() < 0.9 else None
            if m == '*':
                add(self.seg(t, n, 2 if r.random() < 0.05 else None, to))
            else:
                x = self.seg(t, n, 0) if r.random() < 0.97 else self.seg(t, n)
                add(x)
            s, at = t, to
        if want == 'set':
            navs = [x for x in NAVS[s] if x[2] == '*'] if r.random() < 0.9 else NAVS[s]
            if not navs:
                return self.path(want)
            n, t, m = r.choice(navs)
            add(self.seg(t, n, 0))
            s = t
        elif want == 'cx':
            add(({'n': 'Addr', 'kp': 0, 'k': []}, 'Addr'))
        elif want == 'prop':
            if r.random() < 0.03:
                n = 'Nothing'
            else:
                n = r.choice(PROPS[s])[0]
            for p in n.split('.'):
                add(({'n': p, 'kp': 0, 'k': []}, p))
        return segs, '/'.join(uri), s

    def prop(self, s, segs):
        n = '.'.join(x['n'] for x in segs[-2:]) if len(segs) > 1 and segs[-2]['n'] == 'Addr' else segs[-1]['n']
        for i, p in enumerate(PROPS[s]):
            if p[0] == n:
                return i
        return None

    # ------------------------------------------------------------ options
    def filters(self, s):
        r = self.r
        out = []
        for _ in range(r.choice([1, 1, 1, 2])):
            n = r.randrange(len(PROPS[s]))
            name, t = PROPS[s][n]
            if t == 'Binary':
                continue
            v = self.key(s)[n] if n < NKEY[s] else self.value(s, n)
            op = r.choice(['eq', 'ne']) if v == [] or t == 'String' and r.random() < 0.5 else r.choice(['eq', 'ne', 'lt', 'ge'])
            out.append({'p': name, 'op': op, 'v': v})
        return out

    def options(self, s, feed, q, bad, allow=True):
        """fills q; returns a list of rendered options"""
        r = self.r
        o = []
        if feed:
            if r.random() < 0.3:
                q['f'] = self.filters(s)
                t = ' and '.join('%s %s %s' % (f['p'].replace('.', '/'), f['op'], self.lit(f['v'])) for f in q['f'])
                if len(q['f']) == 1 and r.random() < 0.2:
                    t = 'not (%s)' % t if False else '(%s)' % t
                if t:
                    o.append('$filter=' + self.esc(t, "'()$*/,:"))
            if r.random() < 0.3:
                ps = [i for i, p in enumerate(PROPS[s]) if p[1] != 'Binary']
                for i in r.sample(ps, r.choice([1, 1, 2])):
                    q['o'].append({'p': PROPS[s][i][0], 'd': r.choice([0, 1])})
                o.append('$orderby=' + ','.join(x['p'].replace('.', '/') + r.choice(['%20desc'] if x['d'] else ['', '%20asc', '']) for x in q['o']))
            if r.random() < 0.25:
                q['top'] = r.choice([0, 1, 2, 3, 5])
                o.append('$top=%d' % q['top'])
            if r.random() < 0.2:
                q['skip'] = r.choice([0, 1, 2, 5])
                o.append('$skip=%d' % q['skip'])
            if r.random() < 0.25:
                q['cnt'] = r.choice([2, 1, 1])
                o.append('$inlinecount=' + ('allpages' if q['cnt'] == 1 else 'none'))
        if r.random() < 0.25:
            exp = self.expansion(s, 2)
            if exp:
                q['exp'] = exp
                o.append('$expand=' + ','.join('/'.join(p) for p in exp))
        if r.random() < 0.25:
            sel = self.selection(s, q['exp'])
            if sel:
                q['sel'] = sel
                o.append('$select=' + ','.join('/'.join(p) for p in sel))
        r.shuffle(o)
        return o

    def expansion(self, s, depth):
        r = self.r
        out = []
        for n, t, m in NAVS[s]:
            if r.random() < 0.6:
                sub = self.expansion(t, depth - 1) if depth > 1 and r.random() < 0.4 else []
                out += [[n] + p for p in sub] or [[n]]
        return out

    def selection(self, s, exp):
        r = self.r
        if r.random() < 0.1:
            return [['*']]
        out = []
        for p in PROPS[s]:
            if '.' not in p[0] and r.random() < 0.4:
                out.append([p[0]])
        if s == 0 and r.random() < 0.4:
            out.append(['Addr'])
        for n, t, m in NAVS[s]:
            if r.random() < 0.3 and not any(e[0] == n and len(e) > 1 for e in exp):
                out.append([n])
            elif any(e[0] == n for e in exp) and r.random() < 0.5:
                ns = [p[0] for p in PROPS[t] if '.' not in p[0]]
                out += [[n, x] for x in r.sample(ns, 2)]
        return out

    # ------------------------------------------------------------ bodies
    def binding(self, s, depth, t, pnew):
        if depth > 0 and self.r.random() < pnew and t != 3:
            return {'t': 'new', 'v': self.row(t, 0.1), 'b': self.bindings(t, depth - 1, pnew, s)}
        return {'t': 'key', 'k': self.key(t)}

    def bindings(self, s, depth, pnew=0.4, up=None):
        r = self.r
        out = []
        for n, t, m in NAVS[s]:
            if t == up:
                out.append([])
            elif m == '*':
                out.append([self.binding(s, depth, t, pnew) for _ in range(r.choice([0, 0, 0, 1, 2]))])
            else:
                out.append([self.binding(s, depth, t, pnew)] if r.random() < (0.93 if m == '1' else 0.3) else [])
        return out

    def href(self, s, k, absolute=None):
        u = SETS[s] + self.pred(s, k)
        return (ROOT if self.r.random() < 0.5 else '/service.svc/') + u if absolute is None else absolute + u

    def xmltext(self, t):
        return t.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')

    def xmlprop(self, n, t, v):
        ty = ' m:type="Edm.%s"' % t if t != 'String' or self.r.random() < 0.1 else ''
        if v == WRONG:
            return '<d:%s%s>x1</d:%s>' % (n, ty, n)
        if v == []:
            return '<d:%s%s m:null="true"/>' % (n, ty)
        x = str(v[1]) if v[0] == 1 else self.xmltext(uncode(v[1:])) if v[0] == 2 else bytes(v[1:]).hex().upper()
        return '<d:%s%s>%s</d:%s>' % (n, ty, x, n)

    def entry(self, s, v, b, top=True):
        ns = (' xmlns="http://www.w3.org/2005/Atom" xmlns:d="http://schemas.microsoft.com/ado/2007/08/dataservices"'
              ' xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata"') if top else ''
        ps = ''
        cx = ''
        title = '<title/>'
        for (n, t), x in zip(PROPS[s], v):
            if x == ABS:
                continue
            if n == 'Title':
                title = '<title>%s</title>' % self.xmltext(uncode(x[1:]))
            elif n.startswith('Addr.'):
                cx += self.xmlprop(n[5:], t, x)
            else:
                ps += self.xmlprop(n, t, x)
        if cx:
            ps += '<d:Addr m:type="M.Address">%s</d:Addr>' % cx
        props = '<m:properties>%s</m:properties>' % ps
        props = props if s == 3 else '<content type="application/xml">%s</content>' % props
        links = ''
        for (n, t, m), bs in zip(NAVS[s], b):
            rel = 'rel="http://schemas.microsoft.com/ado/2007/08/dataservices/related/%s"' % n
            new = [x for x in bs if x['t'] == 'new']
            for x in bs:
                if x['t'] == 'key':
                    h = self.xmltext(self.href(t, x['k'])).replace('"', '&quot;')
                    links += '<link %s type="application/atom+xml;type=entry" href="%s"/>' % (rel, h)
                elif m != '*':
                    links += '<link %s type="application/atom+xml;type=entry" href="x"><m:inline>%s</m:inline></link>' % (rel, self.entry(t, x['v'], x['b'], False))
            if new and m == '*':
                links += ('<link %s type="application/atom+xml;type=feed" href="x"><m:inline><feed><title/><id/><updated>2000-01-01T00:00:00Z</updated>%s</feed></m:inline></link>'
                          % (rel, ''.join(self.entry(t, x['v'], x['b'], False) for x in new)))
        # in any order
        parts = ['<id/>', title, '<updated>2000-01-01T00:00:00Z</updated>', '<author><name/></author>', links, props]
        if self.r.random() < 0.4:
            parts.append('<category term="M.%s" scheme="http://schemas.microsoft.com/ado/2007/08/dataservices/scheme"/>' % SETS[s][:-1])
        if self.r.random() < 0.4:
            self.r.shuffle(parts)
        return '<entry%s>%s</entry>' % (ns, ''.join(parts))

    def jval(self, t, v):
        if v == WRONG:
            return self.r.choice(['x1', [1], {'a': 1}]) if t == 'Int32' else [1]
        if v == []:
            return None
        return v[1] if v[0] == 1 else uncode(v[1:]) if v[0] == 2 else base64.b64encode(bytes(v[1:])).decode()

    def jentry(self, s, v, b):
        o = {}
        for (n, t), x in zip(PROPS[s], v):
            if x == ABS:
                continue
            if n.startswith('Addr.'):
                o.setdefault('Addr', {})[n[5:]] = self.jval(t, x)
            else:
                o[n] = self.jval(t, x)
        for (n, t, m), bs in zip(NAVS[s], b):
            xs = [{'__metadata': {'uri': self.href(t, x['k'])}} if x['t'] == 'key' else self.jentry(t, x['v'], x['b']) for x in bs]
            if xs:
                o[n] = xs if m == '*' else xs[0]
        if self.r.random() < 0.3:
            o['__metadata'] = {'type': 'M.' + SETS[s][:-1]}
        if self.r.random() < 0.4:
            ks = list(o)
            self.r.shuffle(ks)
            o = dict((k, o[k]) for k in ks)
        return o

    # body and content type
    def doc(self, fmt, xml, obj):
        r = self.r
        if fmt == 'json':
            t = json.dumps(obj, ensure_ascii=r.random() < 0.7)
            ct = r.choice(['application/json', 'application/json;charset=utf-8', 'application/json; charset="UTF-8"'])
        else:
            t = r.choice(['', '<?xml version="1.0" encoding="utf-8"?>', '<?xml version="1.0"?>\n']) + xml
            ct = r.choice(['application/atom+xml', 'application/xml', 'text/xml;charset=utf-8', 'application/atom+xml;charset=UTF-8'])
        return t.encode('utf-8'), ct

    def malformed(self):
        return self.r.choice([(b'<entry', 'application/atom+xml'), (b'{"CID":', 'application/json'), (b'', 'application/json'), (b'', 'application/atom+xml'),
                              (b'<foo/>', 'application/xml'), (b'<feed xmlns="http://www.w3.org/2005/Atom"/>', 'application/atom+xml'),
                              (b'[1,2]', 'application/json'), (b'"x"', 'application/json'), (b'null', 'application/json'), (b'{}x', 'application/json'),
                              (b'\xff\xfe', 'application/json;charset=utf-8'), (b'\xc3<a/>', 'application/xml;charset=utf-8'), (b'plain', 'text/plain'),
                              (b'{}', 'application/json;charset=nosuch'), (b'<entry xmlns="http://www.w3.org/2005/Atom"><a></entry>', 'application/atom+xml'),
                              (b'plain', None)])

    # ------------------------------------------------------------ requests
    def request(self):
        r = self.r
        m = r.choice(['GET'] * 9 + ['POST'] * 4 + ['PUT'] * 5 + ['DELETE'] * 3)
        rq = {'m': m, 'segs': [], 'opt': '', 'nav': {'n': '', 'kp': 0, 'k': []}, 'bad': 0, 'acc': 0, 'ver': 2, 'fmt': r.choice(['atom', 'json']),
              'q': json.loads(json.dumps(NOQ)), 'body': json.loads(json.dumps(NOBODY))}
        h = {}
        self.bytes, self.ctype = b'', None
        self.qo = []
        if m == 'GET':
            uri = self.get(rq)
        else:
            uri = getattr(self, m.lower())(rq)
        # version and format
        x = r.random()
        if x < 0.15:
            rq['ver'] = 1
            h['MaxDataServiceVersion'] = r.choice(['1.0', '1.0;me'])
            if r.random() < 0.3:
                h['DataServiceVersion'] = '1.0'
        elif x < 0.5:
            h['DataServiceVersion'] = r.choice(['2.0', '1.0;x', '2.0; y'])
            h['MaxDataServiceVersion'] = r.choice(['2.0', '3.0'])
        entity = self.kind in ('set', 'ent')
        text = rq['opt'] in ('value', 'count')
        if text:
            rq['fmt'] = 'atom'
            if r.random() < 0.06:
                rq['acc'] = 1
                h['Accept'] = 'image/png'
            elif r.random() < 0.5:
                h['Accept'] = r.choice(['text/plain, application/octet-stream;q=0.5', '*/*', 'text/*, */*;q=0.1'])
            if self.kind == 'ent' and rq['opt'] == 'value' or self.binary:
                rq['acc'] = 0
                h['Accept'] = '*/*'
        elif m != 'GET' and m != 'POST':
            h['Accept'] = 'application/json' if rq['fmt'] == 'json' else 'application/xml'
        elif r.random() < 0.05 and not any(o.startswith('$format') for o in self.qo):
            rq['acc'] = 1
            h['Accept'] = r.choice(['image/png', 'application/foo', 'application/*;q=0, text/*;q=0, image/*'])
        elif rq['fmt'] == 'json':
            if m == 'GET' and r.random() < 0.3:
                self.qo.append('$format=json')
                if r.random() < 0.4:
                    h['Accept'] = 'application/atom+xml'
            else:
                h['Accept'] = r.choice(['application/json', 'application/json;q=0.9, application/atom+xml;q=0.1', 'application/json, */*;q=0.1'])
        else:
            a = (['application/atom+xml', 'application/atom+xml, application/json;q=0.5'] if entity else []) + ['application/xml', '*/*', 'application/*', None]
            if not entity:
                a.remove('application/*')
            a = r.choice(a)
            if a:
                h['Accept'] = a
            elif m == 'GET' and entity and r.random() < 0.2:
                self.qo.append(r.choice(['$format=atom', '$format=xml']))
        if self.ctype:
            h['Content-Type'] = self.ctype
        h.update(self.h)
        self.h = {}
        return rq, {'m': m, 'uri': '/service.svc/' + uri + ('?' + '&'.join(self.qo) if self.qo else ''), 'h': h,
                    'body': base64.b64encode(self.bytes).decode(), 'follow': 1 if m == 'GET' else 0}
    h = {}
    binary = False

    BADOPTS = {'set': ['$top=-1', '$top=x', '$skip=-2', '$filter=', '$filter=Nope%20eq', '$filter=(1%20eq%201', '$orderby=CID%20up', '$foo=1', '$inlinecount=some',
                       '$expand=Nope', '$select=Nope', '$expand=Orders/Nope', '$top=1.5', "$filter='a"],
               'ent': ['$top=1', '$orderby=CID', '$skip=1', '$inlinecount=allpages', '$foo=x', '$expand=Nope', '$select=Nope', '$skiptoken=1'],
               'prop': ['$top=1', '$filter=1%20eq%201', '$expand=Orders', '$select=CID', '$skip=1', '$foo=x'],
               'cx': ['$top=1', '$expand=Orders', '$select=Street', '$foo=x']}

    def get(self, rq):
        r = self.r
        self.binary = False
        x = r.random()
        if x < 0.02:
            self.kind = 'root'
            self.qo = []
            rq['fmt'] = 'json' if rq['fmt'] == 'json' else 'atom'
            return ''
        if x < 0.12:
            return self.links(rq)
        kind = self.kind = r.choice(['set'] * 5 + ['ent'] * 4 + ['prop'] * 2 + ['cx'])
        segs, uri, s = self.path(kind)
        rq['segs'] = segs
        if kind == 'set' and r.random() < 0.15 or kind == 'ent' and r.random() < 0.05 or kind in ('prop', 'cx') and r.random() < 0.03:
            rq['opt'] = 'count'
            uri += '/$count'
            if kind == 'set':
                self.qo = [o for o in self.options(s, True, rq['q'], False) if o.startswith('$filter')]
                rq['q'].update({'o': [], 'top': -1, 'skip': -1, 'cnt': 0, 'sel': [], 'exp': []})
            return uri
        if kind == 'prop' and r.random() < 0.5 or kind == 'ent' and (s == 3 and r.random() < 0.6 or r.random() < 0.05) or kind in ('cx', 'set') and r.random() < 0.03:
            rq['opt'] = 'value'
            if kind == 'prop':
                i = self.prop(s, segs)
                self.binary = i is not None and PROPS[s][i][1] == 'Binary'
            return uri + '/$value'
        if r.random() < 0.05:
            rq['bad'] = 1
            self.qo = [r.choice(self.BADOPTS[kind])]
        elif kind in ('set', 'ent'):
            self.qo = self.options(s, kind == 'set', rq['q'], False)
        return uri

    def links(self, rq):
        r = self.r
        self.kind = 'links'
        segs, uri, s = self.path('ent' if r.random() < 0.97 else 'set')
        rq['segs'] = segs
        rq['opt'] = 'links'
        n, t, m = r.choice(NAVS[s])
        if r.random() < 0.03:
            n = 'Nothing'
        if m == '*' and rq['m'] == 'DELETE' and r.random() < 0.9:
            k = self.key(t)
            rq['nav'] = {'n': n, 'kp': 1, 'k': k}
            return uri + '/$links/' + n + self.pred(t, k)
        rq['nav'] = {'n': n, 'kp': 0, 'k': []}
        if rq['m'] == 'GET' and m == '*' and r.random() < 0.3:
            q = rq['q']
            if r.random() < 0.6:
                q['top'] = r.choice([0, 1, 2])
                self.qo.append('$top=%d' % q['top'])
            if r.random() < 0.6:
                q['skip'] = r.choice([0, 1])
                self.qo.append('$skip=%d' % q['skip'])
            if r.random() < 0.5:
                q['cnt'] = 1
                self.qo.append('$inlinecount=allpages')
        self.linkto = t
        return uri + '/$links/' + n

    def linkbody(self, rq):
        r = self.r
        b = rq['body']
        if r.random() < 0.06:
            b['t'] = 'bad'
            self.bytes, self.ctype = self.malformed()
            return
        t = self.linkto if r.random() < 0.95 else r.randrange(4)
        k = self.key(t)
        b['t'] = 'link'
        b['to'] = {'s': t + 1, 'k': k}
        u = r.choice([ROOT, '/service.svc/', '']) + SETS[t] + self.pred(t, k)
        if r.random() < 0.04:
            b['to'] = {'s': 0, 'k': []}
            u = r.choice(['http://elsewhere/service.svc/' + SETS[t] + self.pred(t, k), ROOT + SETS[t], ROOT + 'Nope(1)', ROOT, ''])
        self.bytes, self.ctype = self.doc(r.choice(['atom', 'json']), '<uri xmlns="http://schemas.microsoft.com/ado/2007/08/dataservices">%s</uri>' % self.xmltext(u), {'uri': u})
        if 'atom' in self.ctype:
            self.ctype = 'application/xml'

    def wrong(self, s, v):
        """makes a value of the wrong type, sometimes"""
        if self.r.random() < 0.04:
            ns = [i for i, p in enumerate(PROPS[s]) if p[1] == 'Int32' and v[i] != ABS]
            if ns:
                v = list(v)
                v[self.r.choice(ns)] = WRONG
        return v

    def post(self, rq):
        r = self.r
        self.binary = False
        if r.random() < 0.25:
            u = self.links(rq)
            self.linkbody(rq)
            return u
        self.kind = 'set'
        segs, uri, s = self.path('set' if r.random() < 0.95 else r.choice(['ent', 'prop', 'cx']))
        rq['segs'] = segs
        b = rq['body']
        if s == 3:
            if len(segs) > 1 or segs[0]['kp']:
                return self.post(rq)
            title = r.choice([None, 'T', 'a b'])
            b['t'] = 'stream'
            b['title'] = V(title)
            if title is not None:
                self.h = {'Slug': title}
            self.stream(b)
            return uri
        if r.random() < 0.06:
            b['t'] = 'bad'
            self.bytes, self.ctype = self.malformed()
            return uri
        up = None
        if len(segs) > 1 and r.random() < 0.9:
            up = {'Orders': 0, 'Lines': 1}.get(segs[-1]['n'])
        b['t'] = 'ent'
        b['v'] = self.wrong(s, self.row(s, 0.15))
        if s == 1 and r.random() < 0.05:
            b['v'][2] = []
        b['b'] = self.bindings(s, 2, 0.4, up)
        if r.random() < 0.1:
            self.deep(s, up, b)
        self.bytes, self.ctype = self.doc(r.choice(['atom', 'json']), self.entry(s, b['v'], b['b']), self.jentry(s, b['v'], b['b']))
        return uri

    def deep(self, s, up, b):
        """new entities only, with keys that are not in use yet, at all levels"""
        r = self.r

        def new(s, up, depth):
            v = self.row(s, 0.0)
            v[0] = V('N%d' % r.randrange(10000)) if s == 0 else V(r.randrange(100, 100000))
            bs = []
            for n, t, m in NAVS[s]:
                k = 0 if t == up or t == 3 or depth == 0 else r.choice([1, 2, 3]) if m == '*' else 1 if m == '1' or r.random() < 0.3 else 0
                bs.append([new(t, s, depth - 1) for i in range(k)])
            return {'t': 'new', 'v': v, 'b': bs}
        x = new(s, up, 3)
        b['v'], b['b'] = x['v'], x['b']

    def stream(self, b):
        r = self.r
        t = r.choice(['text/plain', 'image/x-y', 'application/octet-stream', 'text/xml'])
        self.bytes = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 4, 40])))
        self.ctype = t
        b['str'] = [t, list(self.bytes)]

    def put(self, rq):
        r = self.r
        self.binary = False
        x = r.random()
        b = rq['body']
        if x < 0.2:
            u = self.links(rq)
            self.linkbody(rq)
            return u
        kind = self.kind = r.choice(['ent'] * 4 + ['prop'] * 3 + ['cx', 'cx']) if r.random() < 0.96 else 'set'
        segs, uri, s = self.path(kind)
        rq['segs'] = segs
        fmt = r.choice(['atom', 'json'])
        if kind == 'ent' and (s == 3 and r.random() < 0.5 or r.random() < 0.03):
            rq['opt'] = 'value'
            b['t'] = 'stream'
            self.stream(b)
            return uri + '/$value'
        if kind != 'prop' and r.random() < 0.06 or kind == 'prop' and r.random() < 0.04:
            b['t'] = 'bad'
            self.bytes, self.ctype = self.malformed()
            return uri
        if kind == 'prop':
            i = self.prop(s, segs)
            n, t = PROPS[s][i] if i is not None else ('Nothing', 'String')
            v = (self.key(s)[i] if i is not None and i < NKEY[s] else self.value(s, i)) if i is not None else V('x')
            last = n.split('.')[-1]
            if r.random() < 0.4:
                rq['opt'] = 'value'
                b['t'] = 'raw'
                if v == []:
                    v = V('x') if t == 'String' else V(3) if t == 'Int32' else V(b'ab')
                if t == 'Int32' and r.random() < 0.1:
                    v = WRONG
                    self.bytes, self.ctype = r.choice([b'x', b'', b'1.5', b'99999999999', b'0x1']), 'text/plain'
                elif t == 'Binary':
                    self.bytes, self.ctype = bytes(v[1:]), r.choice(['application/octet-stream', 'application/octet-stream', None])
                else:
                    txt = str(v[1]) if v[0] == 1 else uncode(v[1:])
                    self.bytes, self.ctype = txt.encode('utf-8'), 'text/plain;charset=utf-8'
                    if all(ord(c) < 256 for c in txt) and r.random() < 0.3:
                        self.bytes, self.ctype = txt.encode('latin-1'), r.choice(['text/plain', 'text/plain;charset=iso-8859-1', None])
                if r.random() < 0.04 and self.ctype:
                    b['t'] = 'bad'
                    self.ctype = 'image/png'
                b['v'] = v
                return uri + '/$value'
            if t == 'Int32' and r.random() < 0.08:
                v = WRONG
            b['t'] = 'prop'
            b['v'] = v
            x = self.xmlprop(last, t, v).replace('<d:' + last, '<d:%s xmlns:d="http://schemas.microsoft.com/ado/2007/08/dataservices"'
                                                ' xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata"' % last, 1)
            self.bytes, self.ctype = self.doc(fmt, x, {last: self.jval(t, v)})
            return uri
        if kind == 'cx':
            b['t'] = 'cx'
            b['v'] = [ABS if r.random() < 0.2 else self.value(0, i) for i in (3, 4)]
            fs = [(n, x) for n, x in zip(('Street', 'City'), b['v']) if x != ABS]
            x = ('<d:Addr xmlns:d="http://schemas.microsoft.com/ado/2007/08/dataservices" xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata"'
                 ' m:type="M.Address">%s</d:Addr>') % ''.join(self.xmlprop(n, 'String', x) for n, x in fs)
            self.bytes, self.ctype = self.doc(fmt, x, {'Addr': dict((n, self.jval('String', x)) for n, x in fs)})
            return uri
        b['t'] = 'ent'
        k = None
        if kind == 'ent' and segs[-1]['kp'] == 1 and r.random() < 0.9:
            k = segs[-1]['k']
        v = self.row(s, 0.15, k)
        if k is None or r.random() < 0.3:
            v[:NKEY[s]] = [ABS] * NKEY[s] if r.random() < 0.7 else v[:NKEY[s]]
        if s == 1 and r.random() < 0.06:
            v[2] = []
        b['v'] = self.wrong(s, v)
        bs = [[] for _ in NAVS[s]]
        if r.random() < 0.25:
            i = r.randrange(len(NAVS[s]))
            if NAVS[s][i][2] != '*':
                bs[i] = [{'t': 'key', 'k': self.key(NAVS[s][i][1])}]
        b['b'] = bs
        self.bytes, self.ctype = self.doc(fmt, self.entry(s, b['v'], bs), self.jentry(s, b['v'], bs))
        return uri

    def delete(self, rq):
        r = self.r
        self.binary = False
        x = r.random()
        if x < 0.3:
            return self.links(rq)
        kind = self.kind = r.choice(['ent'] * 6 + ['prop'] * 3 + ['cx', 'set'])
        segs, uri, s = self.path(kind)
        while kind == 'cx':
            # what deleting a complex value means is left open
            kind = self.kind = 'prop'
            segs, uri, s = self.path(kind)
        rq['segs'] = segs
        if r.random() < 0.04:
            rq['opt'] = 'value'
            return uri + '/$value'
        return uri


# ---------------------------------------------------------------- reading responses
A = '{http://www.w3.org/2005/Atom}'
D = '{http://schemas.microsoft.com/ado/2007/08/dataservices}'
M = '{http://schemas.microsoft.com/ado/2007/08/dataservices/metadata}'
APP = '{http://www.w3.org/2007/app}'
REL = 'http://schemas.microsoft.com/ado/2007/08/dataservices/related/'


class Bad(Exception):
    pass


def rdlit(t):
    """reads a literal: (value, rest)"""
    m = re.match(r"'((?:[^']|'')*)'", t, re.S)
    if m:
        return V(m.group(1).replace("''", "'")), t[m.end():]
    m = re.match(r"(?:X|binary)'((?:[0-9A-Fa-f]{2})*)'", t)
    if m:
        return V(bytes.fromhex(m.group(1))), t[m.end():]
    m = re.match(r'-?\d+', t)
    if m:
        return V(int(m.group(0))), t[m.end():]
    if t.startswith('null'):
        return [], t[4:]
    raise Bad('literal ' + t[:40])


def rduri(u):
    """the entity, and the navigation, that a URI names"""
    if u.startswith(ROOT):
        u = u[len(ROOT):]
    elif u.startswith('/service.svc/'):
        u = u[len('/service.svc/'):]
    elif re.match('[a-z]+:', u):
        raise Bad('URI ' + u)
    for ch in u:
        if not 0x20 < ord(ch) < 0x7f:
            raise Bad('URI ' + u)
    t = urllib.parse.unquote(u, errors='strict')
    m = re.match(r'(\w+)\(', t)
    if not m or m.group(1) not in SETS:
        raise Bad('URI ' + u)
    s = SETS.index(m.group(1))
    t = t[m.end():]
    names = [p[0] for p in PROPS[s][:NKEY[s]]]
    ks = {}
    while True:
        n = re.match(r'(\w+)=', t)
        if n:
            t = t[n.end():]
        elif NKEY[s] > 1:
            raise Bad('URI ' + u)
        v, t = rdlit(t)
        ks[n.group(1) if n else names[0]] = v
        if t.startswith(','):
            t = t[1:]
        else:
            break
    if sorted(ks) != sorted(names) or not t.startswith(')'):
        raise Bad('URI ' + u)
    t = t[1:]
    if t and not t.startswith('/'):
        raise Bad('URI ' + u)
    return {'s': s + 1, 'k': [ks[n] for n in names], 'n': t[1:]}


def rdtag(t):
    m = re.match(r'(?:W/)?"((?:[^"\\]|\\.)*)"$', t)
    if not m:
        raise Bad('tag ' + t)
    v, rest = rdlit(re.sub(r'\\(.)', r'\1', m.group(1)))
    if rest:
        raise Bad('tag ' + t)
    return v


def rdval(t, x):
    """an XML property"""
    if x.get(M + 'null') == 'true':
        return []
    if len(x):
        raise Bad('value')
    s = x.text or ''
    if t == 'Int32':
        if not re.match(r'-?\d+$', s):
            raise Bad('value')
        return V(int(s))
    # the form of URIs and CSDL, not base64
    return V(s) if t == 'String' else V(bytes.fromhex(s))


def rdjval(t, x):
    if x is None:
        return []
    if t == 'Int32':
        if type(x) is not int:
            raise Bad('value')
        return V(x)
    if type(x) is not str:
        raise Bad('value')
    return V(x) if t == 'String' else V(base64.b64decode(x, validate=True))


def rdprops(s, x):
    out = []
    types = dict(PROPS[s])
    for c in x:
        n = c.tag[len(D):] if c.tag.startswith(D) else None
        if n == 'Addr':
            for f in c:
                fn = 'Addr.' + f.tag[len(D):]
                out.append([fn, rdval(types[fn], f)])
        elif n in types:
            out.append([n, rdval(types[n], c)])
        else:
            raise Bad('property ' + c.tag)
    if len(set(n for n, _ in out)) != len(out):
        raise Bad('repeated property')
    return out


def rdentry(x, nsel=None):
    e = {'v': [], 'x': [], 'd': [], 'e': ABS, 'src': 0}
    k = rduri(x.find(A + 'id').text)
    if k['n']:
        raise Bad('id')
    e['s'], e['k'] = k['s'], k['k']
    s = k['s'] - 1
    if x.get(M + 'etag') is not None:
        e['e'] = rdtag(x.get(M + 'etag'))
    c = x.find(A + 'content')
    ps = x.find(M + 'properties')
    if c is not None and c.get('src') is not None:
        e['src'] = 1
        m = re.match(r'(.*)/\$value$', c.get('src'))
        if not m or rduri(m.group(1)) != {'s': e['s'], 'k': e['k'], 'n': ''}:
            raise Bad('content')
    elif c is not None:
        ps = c.find(M + 'properties')
    if ps is not None:
        e['v'] = rdprops(s, ps)
    cat = x.find(A + 'category')
    if cat is None or cat.get('term') != 'M.' + SETS[s][:-1]:
        raise Bad('category')
    if s == 3:
        t = x.find(A + 'title')
        e['title'] = t is not None
        e['v'].append(['Title', V(t.text or '') if t is not None else []])
    for l in x.findall(A + 'link'):
        if l.get('rel', '').startswith(REL):
            n = l.get('rel')[len(REL):]
            u = rduri(l.get('href'))
            if u['n'] != n:
                raise Bad('link')
            e['d'].append(u)
            i = l.find(M + 'inline')
            if i is not None:
                f = i.find(A + 'feed')
                nav = [y for y in NAVS[s] if y[0] == n][0]
                if (f is not None) != (nav[2] == '*') and len(i):
                    raise Bad('inline')
                items = f.findall(A + 'entry') if f is not None else i.findall(A + 'entry')
                e['x'].append([n, [rdentry(y) for y in items]])
    return e


def rdjentry(o, nsel=None):
    e = {'v': [], 'x': [], 'd': [], 'e': ABS, 'src': 0}
    md = o['__metadata']
    k = rduri(md['uri'])
    if k['n']:
        raise Bad('uri')
    e['s'], e['k'] = k['s'], k['k']
    s = k['s'] - 1
    if md.get('type') != 'M.' + SETS[s][:-1]:
        raise Bad('type')
    if 'etag' in md:
        e['e'] = rdtag(md['etag'])
    if 'media_src' in md:
        m = re.match(r'(.*)/\$value$', md['media_src'])
        if not m or rduri(m.group(1)) != {'s': e['s'], 'k': e['k'], 'n': ''}:
            raise Bad('media_src')
        e['src'] = 1
    types = dict(PROPS[s])
    navs = dict((n, m) for n, t, m in NAVS[s])
    for n, x in o.items():
        if n == '__metadata':
            continue
        if n == 'Addr':
            e['v'] += [['Addr.' + f, rdjval(types['Addr.' + f], y)] for f, y in x.items() if f != '__metadata']
        elif n in types:
            e['v'].append([n, rdjval(types[n], x)])
        elif n in navs:
            if type(x) is dict and '__deferred' in x:
                u = rduri(x['__deferred']['uri'])
                if u['n'] != n:
                    raise Bad('deferred')
                e['d'].append(u)
            elif navs[n] == '*':
                items = x['results'] if type(x) is dict else x
                e['x'].append([n, [rdjentry(y) for y in items]])
            else:
                e['x'].append([n, [rdjentry(x)] if x is not None else []])
        else:
            raise Bad('member ' + n)
    return e


def proptype(segs):
    """the type of the property that a path names"""
    s = SETS.index(segs[0]['n'])
    for g in segs[1:]:
        for n, t, m in NAVS[s]:
            if n == g['n']:
                s = t
    for n, t in PROPS[s]:
        if n.split('.')[-1] == segs[-1]['n']:
            return t
    raise Bad('property')


def response(pages, q):
    """the abstract form of a response, whose further pages were fetched"""
    rs = {'code': pages[0]['code'], 't': 'garbage', 'fmt': '', 'items': [], 'cnt': -1, 'pages': len(pages), 'etag': ABS, 'ver': 0, 'loc': {'s': 0, 'k': [], 'n': ''}, 'val': [],
          'name': '', 'fields': [], 'names': [], 'ctype': '', 'raw': [], 'why': ''}
    p = pages[0]
    h = p['h']
    try:
        m = re.match(r'([12])\.0', h.get('dataserviceversion', ''))
        rs['ver'] = int(m.group(1)) if m else 0
        data = base64.b64decode(p['body'])
        if h.get('content-length') != str(len(data)):
            raise Bad('length')
        ct = rs['ctype'] = h.get('content-type', '')
        if p['code'] >= 400:
            if ct.startswith('application/json'):
                o = json.loads(data.decode('utf-8'))
                o['error']['code'], o['error']['message']
            else:
                x = ET.fromstring(data)
                if x.tag != M + 'error' or x.find(M + 'code') is None or x.find(M + 'message') is None:
                    raise Bad('error')
            rs['t'] = 'error'
            return rs
        if 'etag' in h:
            rs['etag'] = rdtag(h['etag'])
        if 'location' in h:
            rs['loc'] = rduri(h['location'])
        rs['raw'] = list(data)
        if p['code'] == 204:
            rs['t'] = 'empty' if not data else 'garbage'
            return rs
        q = q or {}
        if q.get('opt') in ('value', 'count'):
            if ct.startswith('text/plain'):
                rs['t'] = 'text'
                rs['val'] = code(data.decode('utf-8'))
            elif ct.startswith(('application/octet-stream', 'octet/stream')):
                rs['t'] = 'bytes'
                rs['val'] = list(data)
            return rs
        for i, g in enumerate(pages):
            if g['code'] != 200 and g['code'] != 201:
                raise Bad('page')
            ct2 = g['h']['content-type']
            if ct2.split(';')[0] != ct.split(';')[0]:
                raise Bad('page')
            b = base64.b64decode(g['body'])
            if ct.startswith('application/json'):
                rs['fmt'] = 'json'
                jsonbody(rs, json.loads(b.decode('utf-8')), i, q)
            else:
                rs['fmt'] = 'atom'
                xmlbody(rs, ET.fromstring(b), i, q)
    except (Bad, KeyError, ValueError, TypeError, AttributeError, IndexError, ET.ParseError, UnicodeError) as e:
        rs['t'] = 'garbage'
        rs['why'] = repr(e)[:200]
        for k in ('items', 'names', 'fields'):
            rs[k] = []
    return rs


def jsonbody(rs, o, i, q):
    if sorted(o) != ['d']:
        raise Bad('d')
    d = o['d']
    if type(d) is dict and 'EntitySets' in d:
        rs['t'] = 'service'
        rs['names'] = d['EntitySets']
        return
    items = d if type(d) is list else d['results'] if type(d) is dict and type(d.get('results')) is list else None
    if items is not None:
        if rs['ver'] == 1 and type(d) is not list or rs['ver'] == 2 and type(d) is list:
            raise Bad('version')
        links = bool(items) and all(sorted(x) == ['uri'] for x in items)
        t = 'links' if links else 'feed' if items else 'empties'
        if i and rs['t'] != t and 'empties' not in (t, rs['t']):
            raise Bad('page')
        if i == 0 or rs['t'] == 'empties':
            rs['t'] = t
        if i == 0 and type(d) is dict and '__count' in d:
            rs['cnt'] = int(d['__count'])
        rs['items'] += [rduri(x['uri']) for x in items] if links else [rdjentry(x) for x in items]
        return
    if type(d) is dict and '__metadata' in d and 'uri' in d['__metadata']:
        rs['t'] = 'entry'
        rs['items'] = [rdjentry(d)]
        return
    if type(d) is dict and sorted(d) == ['uri']:
        rs['t'] = 'link'
        rs['items'] = [rduri(d['uri'])]
        return
    if type(d) is dict and sorted(d) == ['results']:
        d = d['results']
    if len(d) != 1:
        raise Bad('value')
    n, v = list(d.items())[0]
    rs['name'] = n
    if n == 'Addr':
        rs['t'] = 'cx'
        rs['fields'] = [[f, rdjval('String', x)] for f, x in v.items() if f != '__metadata']
    else:
        rs['t'] = 'prop'
        rs['val'] = rdjval(proptype(q.get('segs', ())), v)


def xmlbody(rs, x, i, q):
    if x.tag == A + 'feed':
        if i and rs['t'] != 'feed':
            raise Bad('page')
        rs['t'] = 'feed'
        c = x.find(M + 'count')
        if c is not None and i == 0:
            rs['cnt'] = int(c.text)
        rs['items'] += [rdentry(y) for y in x.findall(A + 'entry')]
    elif x.tag == A + 'entry':
        rs['t'] = 'entry'
        rs['items'] = [rdentry(x)]
    elif x.tag == D + 'links':
        rs['t'] = 'links'
        rs['items'] += [rduri(y.text) for y in x.findall(D + 'uri')]
        c = x.find(M + 'count')
        if c is not None:
            rs['cnt'] = int(c.text)
    elif x.tag == D + 'uri':
        rs['t'] = 'link'
        rs['items'] = [rduri(x.text)]
    elif x.tag == APP + 'service':
        rs['t'] = 'service'
        rs['names'] = [c.get('href') for c in x.iter(APP + 'collection')]
    elif x.tag == D + 'Addr':
        rs['t'] = 'cx'
        rs['name'] = 'Addr'
        rs['fields'] = [[f.tag[len(D):], rdval('String', f)] for f in x]
    elif x.tag.startswith(D):
        rs['t'] = 'prop'
        rs['name'] = x.tag[len(D):]
        t = proptype(q.get('segs', ()))
        if x.get(M + 'type', 'Edm.' + t) != 'Edm.' + t:
            raise Bad('type')
        rs['val'] = rdval(t, x)
    else:
        raise Bad('document')
