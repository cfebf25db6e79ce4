"""Character classes through histories of operations and schema regular expressions on texts, judged by specs/regex."""
import regen
from regen import c


def run(ctx):
    r = ctx.rng
    g = regen.G(r)
    n = 1 if ctx.quick else 15
    recs = []
    for _ in range(1000 * n):
        ops = g.history()
        named = {x for o in ops for x in [o.get('a'), o.get('z')] + o.get('cs', []) if x is not None}
        probes = sorted({p for x in named for p in (x - 1, x, x + 1) if 0 <= p <= regen.MAXC and not 0xd800 <= p < 0xe000} | {0, regen.MAXC})
        recs.append({'op': 'cc', 'ops': ops, 'probes': probes})
    for k in range(2000 * n):
        e, s = g.expr(r.choice([0, 1, 1, 2, 3]))
        bad = k % 10 == 0
        recs.append({'op': 're', 'bad': bad, 'e': e, 'src': c(g.bad(s) if bad else s), 'ts': [] if bad else g.targets(e)})
    t = lambda s: ''.join(map(chr, s))
    for v, o in ctx.judge('regex', 'RegexTrace', ctx.drive('re_io.py', recs)):
        ctx.count('histories of classes' if v['op'] == 'cc' else 'expressions', 1)
        if v['op'] == 're':
            ctx.count('texts matched', v['yes'])
        if v['bad']:
            if o['op'] == 'cc':
                key = '%s %s' % ('+'.join(v['parts']), ' '.join(show(x) for x in o['ops']))
                ctx.violate('class ' + key, 'character classes: %s give %s (%s)' % (key, o['regs'][-1:], o['st']), o)
            elif o['bad']:
                ctx.violate('bad %s' % t(o['src']), 'expression %r is no expression: %s %s' % (t(o['src']), o['st'], o.get('why', '')), o)
            else:
                if v['parts'] == ['nested']:
                    ctx.violate('re nested repetition', 'expressions that repeat what can be empty without bound, (a?)* or (a*)*, end in an error of re: %r' % t(o['src']), o)
                    continue
                ps = [p for p in v['parts'] if isinstance(p, int)]
                ctx.violate('re %s' % t(o['src']), 'expression %r: %s' % (t(o['src']), ', '.join('%r %s' % (t(o['ts'][p - 1]), 'matches' if o['got'][p - 1] else 'does not match') for p in ps) or '%s %s' % (o['st'], o.get('why'))), o)


def show(o):
    x = lambda k: '%x' % o[k]
    return '%d.%s(%s)' % (o['r'], o['o'], ','.join([x(k) for k in 'az' if k in o] + [str(o[k]) for k in 'q' if k in o] + ['%x' % p for p in o.get('cs', [])]))
