"""Test forms: the selections and orders the real code makes, judged by specs/qti/Forms."""
import qtigen


def run(ctx):
    g = qtigen.G(ctx.rng)
    n = 1 if ctx.quick else 15
    recs = [g.form(i % 6 == 0, i + 1) for i in range(1200 * n)]
    recs += g.mixforms(100000)
    out = ctx.drive('form_io.py', recs)
    ctx.count('forms', sum(x['runs'] for x in recs))
    for x, o in ctx.judge('qti', 'FormTrace', out):
        if x['bad']:
            ctx.violate(x['why'][:60], '%s: %s' % (x['why'][:300], o['xml']), {'xml': o['xml'], 'seed': o['seed'], 'why': x['why']})
