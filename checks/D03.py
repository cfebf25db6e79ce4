"""OData expressions: grammar, text form and evaluation, judged by specs/expr."""
import json
import vlib, exprgen

BINS = ['or', 'and', 'eq', 'lt', 'add', 'sub', 'mul', 'div']


def run(ctx):
    # exhaustive: every tree of two levels over all operators, printed by the specification with the fewest brackets
    def cfg(d, leaves, bins, uns):
        q = lambda l: '{' + ', '.join('"%s"' % x for x in l) + '}'
        return 'INIT Init\nNEXT Next\nINVARIANTS Inv Emit\nCONSTANTS\nDepth = %d\nLeaves = %s\nBins = %s\nUns = %s\n' % (d, q(leaves), q(bins), q(uns))
    r = ctx.tlc('expr', 'MCExpr', cfg(2, ['I32'], exprgen.BIN if not ctx.quick else exprgen.BIN, ['not', '-']))
    ex = [x['ts'] for x in r['out']]
    r = ctx.tlc('expr', 'MCExpr', cfg(2, ['I32', 'NI32'], ['or', 'eq', 'sub'] if ctx.quick else BINS, ['-']))
    ex += [x['ts'] for x in r['out']]
    ctx.note('%d trees enumerated by the specification' % len(ex))
    rng = ctx.rng
    g = exprgen.Gen(rng)
    recs = [{'ts': ts, 'src': exprgen.render(ts)} for ts in ex]
    n = 9000 if ctx.quick else 250000
    for i in range(n):
        k = rng.random()
        e = g.expr('B' if k < 0.5 else rng.choice('NIS'), rng.choice([1, 2, 2, 3]))
        ts = g.toks(e, rng.choice([0, 0, 0.2]))
        if rng.random() < 0.12:
            ts = g.spoil(ts)
        recs.append({'ts': ts, 'src': exprgen.render(ts, rng)})
    parts = [recs[i::vlib.NCPU] for i in range(vlib.NCPU)]
    cfgf = ctx.write_json('cfg.json', {'lits': [t for t, _ in exprgen.LITS], 'row1': exprgen.ROW1, 'row2': exprgen.ROW2})
    envf = ctx.write_json('env.json', exprgen.env())

    def one(i):
        f = ctx.write_lines('in%d.ndjson' % i, parts[i])
        o = ctx.path('out%d.ndjson' % i)
        ctx.jython('expr_io.py', [cfgf, f, o], c2=True)
        return [json.loads(l) for l in open(o)]
    out = sum(ctx.parallel([lambda i=i: one(i) for i in range(vlib.NCPU)]), [])
    ctx.note('%d expressions parsed and evaluated' % len(out))
    log = ctx.write_lines('all.ndjson', out)
    r = ctx.tlc('expr', 'ExprTrace', 'INIT Init\nNEXT Next\nINVARIANTS Judge Stat\n', env={'VQ_LOG': log, 'VQ_ENV': envf})
    for x in r['out']:
        if 'k' in x:
            ctx.count('expressions_' + x['k'], 1)
    ctx.count('traces_validated_against_impl', len(out))
    ctx.sample(out[-1])
    for x in r['out']:
        if 'bad' in x:
            o = out[x['bad'] - 1]
            ctx.violate('%s:%s' % (x['why'], o['src']), 'expression %s: %s wrong: tree %s, error %r, printed %r (%s), value %s; specified %s' % (
                o['src'], x['why'], json.dumps(o['ast']), o['pe'], o['note'], o['round'], json.dumps(o['v']), x['want']), o)
