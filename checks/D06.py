"""The REST interface of the OData server: recorded requests are judged by specs/store/Service."""
import json
import vlib, svcgen

NAMES = ('Sc', 'SetN', 'Props', 'NKey', 'NavN', 'Tok', 'Media', 'Cx', 'CxF', 'NotNull')
CFG = 'INIT Init\nNEXT Next\nINVARIANT Judge\nCONSTANTS\n' + ''.join('%s <- M%s\n' % (n, n) for n in NAMES)


def history(g, n, i):
    r = g.r
    init = g.store()
    reqs = [g.request() for _ in range(n)]
    return {'model': svcgen.model(), 'init': init, 'topmax': r.choice([0, 0, 1, 2, 3]), 'reqs': [x[1] for x in reqs]}, [x[0] for x in reqs]


def kind(rq):
    return '%s-%s' % (rq['m'], rq['opt'] or rq['body']['t'])


def run(ctx):
    r = ctx.tlc('store', 'MCService', 'INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS\n' + ''.join('%s <- M%s\n' % (n, n) for n in NAMES))
    ctx.note('MCService: %d states' % r['distinct'] if 'distinct' in r else 0)
    g = svcgen.Gen(ctx.rng)
    n, per = (360, 26) if ctx.quick else (4500, 36)
    hs = [history(g, per, i) for i in range(n)]
    out = ctx.drive('service_io.py', [h[0] for h in hs], timeout=780)
    ctx.note('%d histories of %d requests performed' % (n, per))
    xs = []
    for (h, rqs), o in zip(hs, out):
        for st in o['steps']:
            rq = rqs[st['j']]
            hq = h['reqs'][st['j']]
            if st['loc']:
                # the entity that was made, fetched from where the server said it is
                rs0 = svcgen.response(xs[-1][2]['pages'], rqs[st['j']])
                if not rs0['loc']['s']:
                    continue
                rq = dict(rq, m='GET', opt='', bad=0, segs=[{'n': svcgen.SETS[rs0['loc']['s'] - 1], 'kp': 1, 'k': rs0['loc']['k']}])
            rs = svcgen.response(st['pages'], rq)
            if rs['t'] in ('empties', 'feed', 'links') and not rs['items']:
                rs['t'] = 'links' if rq['opt'] == 'links' else 'feed'
            xs.append(({'pre': st['pre'], 'post': st['post'], 'rq': rq, 'rs': rs}, hq, st))
            ctx.count('requests_' + kind(rq), 1)
            ctx.count('answers_%d' % rs['code'], 1)
    recs = [{'xs': [x[0] for x in xs[i:i + 25]]} for i in range(0, len(xs), 25)]
    for b in range(0, len(recs), 400):
        part = recs[b:b + 400]
        for v, rec in ctx.judge('store', 'ServiceTrace', part, cfg=CFG):
            if not v['bad']:
                continue
            for j, w in sorted(v['want']):
                x, hq, st = xs[(b + v['bad'] - 1) * 25 + j - 1]
                report(ctx, x, hq, st, w)


def report(ctx, x, hq, st, w):
    import base64
    body = base64.b64decode(hq['body'])
    got = base64.b64decode(st['pages'][0]['body'])
    rq, rs = x['rq'], x['rs']
    ctx.violate('%s:%s:%s' % (kind(rq), w, vlib.digest([x['pre'], rq])),
                '%s%s %s (%s, body %r): wrong: %s; answered %s %s %s %r%s in the state %s' % (
                    'fetching what Location names after ' if st['loc'] else '', hq['m'], hq['uri'], json.dumps(hq['h']), body[:600],
                    w, rs['code'], rs['t'], rs['why'], got[:600], ' ' + st['pages'][0].get('note', '')[-200:], json.dumps(x['pre'])),
                {'request': hq, 'abstract': rq, 'before': x['pre'], 'after': x['post'], 'wrong': w, 'response': rs, 'body': got.decode('latin-1')})
