"""URI references: components, resolution, relative references, escaping and http equivalence, judged by specs/uri/URI."""
import itertools


def c(s):
    return [ord(x) for x in s]


def run(ctx):
    r = ctx.rng
    n = 1 if ctx.quick else 25
    recs = []

    def put(k, xs, b='', size=400):
        for j in range(0, len(xs), size):
            recs.append({'k': k, 'b': c(b), 'xs': xs[j:j + size]})
    # components: every short text, and longer ones made of telling pieces
    al = 'a:/?#.%4@'
    xs = [''.join(w) for m in range(0, 5 if ctx.quick else 6) for w in itertools.product(al, repeat=m)]
    ps = ['a', 'b', 'Z', '0', '9', ':', '/', '/', '//', '?', '#', '.', '..', '%41', '%2f', '%', '%4', '%zz', '@', ';', '=', '&', '+', '$', ',', '-', '_', '~', '*', "'", '(', ')', '!',
          ' ', '"', '<', '>', '[', ']', '^', '`', '{', '|', '}', '\\', '\x7f', '\x00', '\xe9', 'http:', 'h+t-t.p1:', '1a:', 'mailto:', 'www.example.com', ':80', 'user@']
    for _ in range(6000 * n):
        xs.append(''.join(r.choice(ps[:13] if r.random() < 0.6 else ps) for _ in range(r.randint(1, 12))))
    put('parse', [c(x) for x in xs])
    # resolution
    segs = ['.', '..', '', 'a', 'g']
    paths = ['/'.join(w) for m in range(1, 5) for w in itertools.product(segs, repeat=m)]
    more = ['...', '.a', '..a', 'b;p', 'b:c', 'x=1', '%2e', 'a.b', '..;x', '.;']
    bases = ['http://a/b/c/d;p?q', 'http://a', 'http://a/', 'http://a?q', 'http://a/b/../c/./d', 'http://a/b//c/', 'x:/b/c', 'x:/', 'file:///a/b', 'http://u@h:80/b/c?q#f', 'http://a/../b/c', 'http://a/b/c/..']
    for b in bases:
        qs = paths if ctx.quick and b == bases[0] or not ctx.quick else r.sample(paths, 150)
        out = []
        for p in qs:
            out.append(p + r.choice(['', '', '', '?y', '#s', '?y#s', '?', '#', '?a/../b']))
        for _ in range(60 * n):
            p = '/'.join(r.choice(segs + more) for _ in range(r.randint(1, 6)))
            out.append(r.choice(['', '', '', '/', '//g', '//g/', 'http:', 'http://x/', 'HTTP:/']) + p + r.choice(['', '', '?y', '#s', '?y#s', '?', '#']))
        put('resolve', [c(x) for x in out], b, 100)
    # relative references
    abss = ['/'.join(w) for m in range(0, 4) for w in itertools.product(['', 'a', 'b'], repeat=m)]
    tops = ['http://h/', 'http://h/', 'http://h/', 'http://i/', 'HTTP://h/', 'x:/', 'file:///', 'http://h', '/', '', 'mailto:', '//h/']
    for _ in range(150 * n):
        t = r.choice(tops[:6] if r.random() < 0.7 else tops)
        b = t + r.choice(abss) + r.choice(['', '', '', '?q', '#f'])
        out = []
        for _ in range(80):
            p = r.choice(abss) if r.random() < 0.6 else '/'.join(r.choice(['a', 'b', '', 'b:c', '.', '..', 'a;x', 'x?y'.split('?')[0]]) for _ in range(r.randint(1, 5)))
            out.append((t if r.random() < 0.8 else r.choice(tops)) + p + r.choice(['', '', '', '?q', '#f', '?z#g', '?']))
        put('relative', [c(x) for x in out], b, 100)
    # escaping
    xs = [[k] for k in range(256)] + [[k, 52] for k in range(256)]
    for _ in range(1500 * n):
        xs.append([r.choice([37, 37, 52, 65, 97, 102, 103, 47, 59, 32, 0, 127, 128, 255, r.randrange(256)]) for _ in range(r.randint(0, 9))])
    put('escape', xs)
    # http equivalence
    xs = []
    for _ in range(5000 * n):
        def one():
            s = r.choice(['http', 'http', 'HTTP', 'https', 'HttpS']) + '://' + r.choice(['', '', '', 'u@', 'U@', 'u:p@']) + r.choice(['h.com', 'h.com', 'H.com', 'i.com'])
            s += r.choice(['', '', ':', ':80', ':443', ':080', ':8080'])
            s += r.choice(['', '/', '/', '/a', '/%61', '/A', '/%41', '/a%2Fb', '/a%2fb', '/a/b', '/%7Esmith/', '/~smith/', '/%7esmith/', '/a%20b', '/a?q', '?q', '/?q', '/?%71', '/a?q=%26', '/a?q=&', '/#f', '/a#f'])
            return s
        a = one()
        b = one()
        if r.random() < 0.7:        # close to one another
            b = a
            for x, y in r.sample([('http', 'HTTP'), ('h.com', 'H.COM'), (':80', ''), ('.com/', '.com:/'), ('.com/', '.com:80/'), ('.com/', '.com:443/'), ('/a', '/%61'), ('%7e', '~'), ('%2F', '%2f'), ('.com', '.com/'), ('/?', '?'), ('q', '%71'), ('u@', 'U@')], r.randint(1, 3)):
                b = b.replace(x, y, 1)
        xs.append([c(a), c(b)])
    put('http', xs)
    out = ctx.drive('uri_io.py', recs)
    ctx.count('uris', sum(len(x['xs']) for x in recs))
    t = lambda s: ''.join(map(chr, s))
    for v, o in ctx.judge('uri', 'URITrace', out):
        if v['bad']:
            for j in v['xs'][:3]:
                x = o['xs'][j - 1]
                d = dict((k, t(w) if w and isinstance(w, list) and isinstance(w[0], int) else w) for k, w in x.items())
                ctx.violate('%s %s %s' % (o['k'], t(o['b']), d['s']), '%s base %r: %s' % (o['k'], t(o['b']), d), {'k': o['k'], 'base': t(o['b']), 'got': d, 'want': v['want']})
