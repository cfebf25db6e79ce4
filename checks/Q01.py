"""QTI expressions: values judged by specs/qti/QTI."""
import json
import qtigen


def run(ctx):
    g = qtigen.G(ctx.rng)
    n = 350 if ctx.quick else 12000
    recs = [g.exprdoc(12, 3, 'xml' if i % 3 == 0 else 'api') for i in range(n)]
    recs += g.grid()
    out = ctx.drive('qti_io.py', recs)
    ctx.count('expressions', sum(len(x['exprs']) for x in recs))
    ctx.note('%d expressions evaluated' % sum(len(x['exprs']) for x in recs))
    for x, o in ctx.judge('qti', 'QTITrace', out):
        ctx.count('unspecified', x['any'])
        if x['bad']:
            for j in x['js']:
                e, got = o['exprs'][j - 1], o['got'][j - 1]
                src = g.xexpr(e)
                ctx.violate('%s' % src, 'the expression %s gives %s (expected: %s) in the item %s' % (src, json.dumps(got), x['why'][:400], o['xml']), {'expr': src, 'got': got, 'item': o['xml']})
