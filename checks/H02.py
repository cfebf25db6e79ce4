"""HTTP header values: parsing, formatting, order, hash values and negotiation of the real classes, judged by specs/http/HTTP."""
import itertools
import httpgen
from httpgen import c

SHORT = {'mt': 'a/;=" *', 'mr': 'a/;=q*', 'al': 'a/;=q1,', 'ac': 'a;=q1,*', 'te': 'a;=" ,', 'ptl': 'a/1 .', 'ltl': 'a-, *', 'et': 'W/"\\ a', 'ar': 'a, "(', 'cc': 'a=",1 '}


def run(ctx):
    g = httpgen.G(ctx.rng)
    r = ctx.rng
    n = 1 if ctx.quick else 20
    ctx.tlc('http', 'MCHTTP', 'INIT Init\nNEXT Next\nINVARIANT Inv\n')
    recs = []

    def put(op, k, xs, size=150):
        for j in range(0, len(xs), size):
            recs.append({'op': op, 'k': k, 'xs': xs[j:j + size]})
    for k in httpgen.KINDS:
        xs = [g.text(k) for _ in range((1200 if k == 'fd' else 600) * n)]
        if k in SHORT:
            xs += [''.join(w) for m in range(0, 4 if ctx.quick else 6) for w in itertools.product(SHORT[k], repeat=m)]
        put('parse', k, [{'s': c(x)} for x in xs])
    for k in httpgen.KINDS:
        if k not in ('ptl', 'ltl', 'fd'):
            put('make', k, [{'v': g.v(k)} for _ in range(250 * n)])
    xs = []
    for _ in range(1200 * n):
        d = g.date()
        xs.append({'v': d, 'z': 0 if d[0] in (1, 9999) else r.choice([0, 0, 1, -1, 60, 120, -60, 330, -720, 840, -1439, 1439, r.randint(-1439, 1439)])})
    put('date', 'fd', xs)
    g.few = True
    for k in ('mt', 'mr', 'ai', 'at', 'ag', 'te', 'pt', 'lt', 'et', 'hv'):
        put('cmp', k, [{'ss': [c(g.valid(k)) for _ in range(6)]} for _ in range(60 * n)], 10)
    for k, offer in (('al', lambda: g.valid('mt')), ('ac', lambda: r.choice(['iso-8859-1', 'ISO-8859-1', 'utf-8', 'x', 'y'])),
                     ('ae', lambda: r.choice(['gzip', 'GZip', 'identity', 'IDENTITY', 'x', 'y'])), ('ag', lambda: g.lang())):
        put('sel', k, [{'s': c(sel(g, k)), 'os': [c(offer()) for _ in range(r.randint(0, 5))]} for _ in range(1000 * n)])
    out = ctx.drive('http_io.py', recs)
    t = lambda s: ''.join(map(chr, s))
    for v, o in ctx.judge('http', 'HTTPTrace', out):
        ctx.count('texts read' if v['k'].startswith('parse') else v['k'].split()[0], v['stat']['ok'])
        ctx.count('left open', v['stat']['open'])
        if v['bad']:
            for j in v['xs'][:3]:
                x = o['xs'][j - 1]
                s = t(x['s']) if 's' in x else str(x.get('v', x.get('ss')))
                ctx.violate('%s %s' % (v['k'], s), '%s of %r%s: got %s%s; expected %s' % (
                    v['k'], s, ' offering %s' % [t(y) for y in x['os']] if 'os' in x else '', dict((a, b) for a, b in x.items() if a not in ('s', 'back', 'os')),
                    ', written %r' % t(x['back']) if 'back' in x else '', v['want']), {'op': o['op'], 'k': o['k'], 'x': x, 'want': v['want']})


def sel(g, k):
    """a header that can be read, with everything in it close to what is on offer"""
    r = g.r
    g.spacy = 0.0
    q = lambda: r.choice(['', '', ';q=0', ';q=0.5', ';q=0.5', ';q=0.8', ';q=1.0', ';q=0.001'])
    if k == 'al':
        f = lambda: g.mtype(0.45) + ''.join(g.param(('a', 'A', 'b')) for _ in range(r.choice([0, 0, 1, 1, 2])))
    elif k == 'ag':
        f = lambda: '*' if r.random() < 0.2 else g.lang()
    else:
        ts = ['iso-8859-1', 'ISO-8859-1', 'utf-8', 'UTF-8', 'x', '*'] if k == 'ac' else ['gzip', 'identity', 'Identity', 'x', 'y', '*']
        f = lambda: r.choice(ts)
    return ', '.join(f() + q() for _ in range(r.randint(0 if k != 'al' else 1, 5)))
