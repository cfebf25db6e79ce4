"""QTI item sessions: template and response processing, attempts and saved responses, judged by specs/qti/Session."""
import json
import qtigen


def run(ctx):
    g = qtigen.G(ctx.rng)
    n = 700 if ctx.quick else 14000
    recs = [g.session() for i in range(n)]
    out = ctx.drive('qti_io.py', recs)
    ctx.count('actions', sum(len(x['acts']) for x in recs))
    for x, o in ctx.judge('qti', 'SessionTrace', out):
        ctx.count('actions judged', x['n'])
        if x['bad']:
            j = x['n']
            a = o['acts'][j - 1]
            b = o['obs'][j - 1]
            got = [v for v in b['vars'] if x['x'].startswith(v['id'] + ' ')]
            ctx.violate('%s %s' % (a['a'], x['why']), '%s with %s (action %d of %s) %s %s: %s; %s. Item: %s' % (
                a['a'], a['form'], j, [y['a'] for y in o['acts']], x['why'], b['err'], x['x'][:400], json.dumps(got)[:500], o['xml']), o)
