"""QTI v1.2 items migrated to v2.1 by the real code and run there, judged by specs/qti/Migrate."""
import json
import miggen


def run(ctx):
    r = ctx.tlc('qti', 'MCMigrate', 'INIT Init\nNEXT Next\nINVARIANT Agree\nCONSTANT MaxLen = %d\n' % (5 if ctx.quick else 7))
    if r['violated']:
        raise RuntimeError('the specification disagrees with itself: ' + str(r['violated']))
    g = miggen.G(ctx.rng)
    n = 400 if ctx.quick else 12000
    out = ctx.drive('mig_io.py', [g.item() for i in range(n)])
    for x, o in ctx.judge('qti', 'MigrateTrace', out):
        ctx.count('responses scored', x['n'])
        if x['bad']:
            w = x['why']
            key = w[0] if w[0] not in ('error', 'score') else '%s %s' % (w[0], ' '.join(w[1].split(': ')[-1 if w[0] == 'score' else 0].split()[:2]))
            ctx.violate(key, '%s of %s: %s. Item: %s' % (w[0], (w + ['the item'])[2], w[1][:500], o['xml']), o)
