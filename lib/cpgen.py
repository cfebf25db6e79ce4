"""Random content packages: manifests, files and histories of operations."""
import urllib.parse

esc = lambda s: urllib.parse.quote(s, safe='._-').replace('~', '%7E')
NS = 'http://www.imsglobal.org/xsd/imscp_v1p1'
PKG = ['r1', 'r2', 'pkg']
FILES = ['a.txt', 'A.txt', 'b', 'c.d.txt', 'e 1.txt', 'x%41.gif', 'p;q', 'h#?.t', 'a_1.txt', 'a_2.txt', '.x.y'[1:]]
DIRS = ['d1', 'd2', 'd 3', 'D1']
MANIFEST = 'imsmanifest.xml'


class G:
    def __init__(self, rng, high=True):
        self.r = rng
        self.n = 0
        self.names = FILES + (['\u00e9.t\u00e9'] if high else [])

    def content(self):
        self.n += 1
        return 'c%d' % self.n

    def name(self):
        return esc(self.r.choice(self.names))

    def dirs(self):
        return [esc(self.r.choice(DIRS[:2] if self.r.random() < 0.7 else DIRS)) for _ in range(self.r.choice([0, 0, 0, 1, 1, 2]))]

    def path(self, hidden=0.06):
        p = self.dirs() + [self.name()]
        x = self.r.random()
        if x < hidden:
            p.insert(self.r.randrange(len(p)), '.h')
        elif x < 1.5 * hidden:
            p[-1] = '.svn'
        return p

    def href(self, odd=0.12):
        r = self.r
        x = r.random()
        if x < odd / 3:
            return {'t': 'web', 's': ['http://www.example.com/' + self.name()]}
        if x < odd:
            p = r.choice([['..'] + [self.name()], ['..', 'pkg'] + self.path(0), ['..', 'out.txt'], ['..', '..', 'out.txt'], ['..', 'pkg2', 'a.txt'], [MANIFEST], ['d1', '..', MANIFEST], ['.svn'], ['..', 'pkg'], ['d1', '..', '..', 'out.txt'], ['..', '..', 'r2', 'pkg', 'd1', 'b']])
        else:
            p = self.path(0)
            if r.random() < 0.3:
                p[r.randrange(len(p)):0] = r.choice([['.'], ['d1', '..'], ['d2', '.', '..']])
        if r.random() < 0.15:
            return {'t': 'abs', 's': self.norm(PKG + p)}
        return {'t': 'rel', 's': p}

    @staticmethod
    def norm(p):
        out = []
        for s in p:
            if s == '..':
                out.pop()
            elif s != '.':
                out.append(s)
        return out

    def base(self, p=0.25):
        if self.r.random() > p:
            return []
        b = self.r.choice([['d1', ''], ['d2', 'x.html'], ['d1', 'd2', ''], ['d%203', ''], ['..', 'pkg', 'd1', ''], ['.', ''], ['..', 'pkg2', '']])
        return [{'t': 'abs', 's': self.norm(PKG + b[:-1]) + b[-1:]} if self.r.random() < 0.2 else {'t': 'rel', 's': b}]

    def refs(self, n):
        return [h for h in (self.href(0.15) for _ in range(n)) if h['s'] not in (PKG, ['..', 'pkg'])]

    def start(self):
        """a package on the disk: files and a manifest"""
        r = self.r
        files = {}
        for _ in range(r.choice([0, 1, 2, 4])):
            files[tuple(self.path())] = self.content()
        rec = {'k': 'hist', 'pkg': PKG, 'files': [{'p': list(p), 'c': c} for p, c in files.items()], 'res': [], 'manifest': [], 'bases': [],
               'out0': [{'p': ['r1', 'r2', 'out.txt'], 'c': 'o1'}, {'p': ['r1', 'r2', 'pkg2', 'a.txt'], 'c': 'o2'}, {'p': ['r1', 'out.txt'], 'c': 'o3'}, {'p': ['src', 'keep.txt'], 'c': 'o4'}]}
        rec['outside'] = [x['p'] for x in rec['out0']]
        if r.random() < 0.7:
            mb, rsb = self.base(0.1), self.base(0.1)
            rec['bases'] = mb + rsb
            for _ in range(r.choice([0, 1, 2, 3])):
                rb = self.base()
                fs = []
                for h in self.refs(r.choice([0, 1, 2, 3])):
                    fs.append({'fb': self.base(0.08), 'h': h})
                    fs[-1]['bases'] = mb + rsb + rb + fs[-1]['fb']
                e = [r.choice(fs)['h']] if fs and r.random() < 0.5 else [self.href(0.05)] if r.random() < 0.3 else []
                rec['res'].append({'rb': rb, 'bases': mb + rsb + rb, 'entry': e, 'refs': fs})
            rec['manifest'] = [ord(ch) for ch in manifest(mb, rsb, rec['res'])]
        return rec

    def step(self, k):
        r = self.r
        op = r.choices(['res', 'file', 'copy', 'del', 'uniq', 'entry', 'put', 'open', 'pif'], [2, 5, 5, 4, 3, 2, 2, 1, 0.6])[0]
        o = {'op': op, 'x': r.randrange(1000)}
        if op == 'res':
            o['base'] = self.base()
        elif op == 'file':
            o['h'] = self.href()
        elif op == 'del':
            o['h'] = self.href(0.2)
        if op in ('file', 'del') and r.random() < 0.6:
            o.update({'pick': r.randrange(1000), 'via': r.choice([[], [], ['d1', '..'], ['.']])})
        if op == 'copy':
            o['name'] = esc(r.choice(self.names[:4] + [MANIFEST, '.svn'])) if r.random() < 0.6 else self.name()
            o.update({'src': ['src', 'new%d' % k, o['name']], 'there': r.random() < 0.85, 'c': self.content()})
        elif op == 'uniq':
            p = self.path(0) if r.random() < 0.8 else r.choice([['..', 'x'], ['..', 'pkg', 'b'], ['d1', '..', 'a.txt'], ['..', 'pkg2', 'a.txt'], [MANIFEST], ['IMSmanifest.xml']])
            ab = r.random() < 0.3
            o['h'] = {'t': 'abs', 's': PKG + p} if ab else {'t': 'rel', 's': p}
            o['low'] = o['h'] if ab else {'t': 'rel', 's': [esc(urllib.parse.unquote(s).lower()) for s in p]}
        elif op == 'entry':
            o['y'] = r.randrange(1000)
        elif op == 'put':
            o.update({'p': self.path(), 'c': self.content()})
        return o

    def history(self, n):
        rec = self.start()
        rec['steps'] = [self.step(k) for k in range(n)]
        for o in rec['steps']:
            if o['op'] == 'res':
                o['bases'] = rec['bases'] + o['base']
        return rec

    def archive(self):
        r = self.r
        es = []
        for _ in range(r.choice([1, 2, 3, 4])):
            p = [r.choice(['a', 'b', 'd1']) for _ in range(r.choice([1, 1, 2, 3]))]
            if r.random() < 0.2:
                p[-1] = self.name()
            for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
                x = r.choice(['..', '..', '.', '', 'd1'])
                if x != '..' or p.count('..') < 2:
                    p.insert(r.randrange(len(p) + 1), x)
            if all(s == '' for s in p):
                p.append('a')
            es.append({'s': p, 'c': '' if r.random() < 0.35 else self.content(), 'utf8': r.random() < 0.4})
        return {'k': 'zip', 'pkg': ['t', 'X'], 'entries': es, 'steps': []}


def href(h):
    return h['s'][0] if h['t'] == 'web' else ('file://$SCRATCH/' if h['t'] == 'abs' else '') + '/'.join(h['s'])


def manifest(mb, rsb, res):
    b = lambda x: ' xml:base="%s"' % href(x[0]) if x else ''
    out = ['<manifest xmlns="%s" identifier="m1"%s><organizations/><resources%s>' % (NS, b(mb), b(rsb))]
    for k, r in enumerate(res):
        out.append('<resource identifier="q%d" type="webcontent"%s%s>' % (k, b(r['rb']), ' href="%s"' % href(r['entry'][0]) if r['entry'] else ''))
        out += ['<file href="%s"%s/>' % (href(f['h']), b(f['fb'])) for f in r['refs']]
        out.append('</resource>')
    return ''.join(out) + '</resources></manifest>'
