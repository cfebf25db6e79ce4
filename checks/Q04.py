"""Test sessions: recorded sessions of random linear tests, judged by specs/qti/TestSession."""
import qtigen


def run(ctx):
    g = qtigen.G(ctx.rng)
    n = 1 if ctx.quick else 20
    recs = [g.tsession(i + 1) for i in range(500 * n)]
    out = ctx.drive('tsession_io.py', recs)
    ctx.count('events', sum(len(x.get('obs', ())) for x in out))
    n = 0
    for x, o in ctx.judge('qti', 'TestSessionTrace', out):
        n += x['n']
        if x['bad']:
            ctx.violate(x['why'][:60], 'event %d: %s: %s' % (x['n'], x['why'][:300], o['xml'][:200]), {'record': o, 'why': x['why'], 'n': x['n']})
    ctx.count('judged', n)
