"""Query options on entity collections, judged by specs/expr/Query."""
import json
import vlib, exprgen, querygen


def make(ctx, tables, per):
    rng = ctx.rng
    ts = [querygen.table(rng) for _ in range(tables)]
    for n in range(5):
        ts.append(querygen.table(rng, n, 'int'))
    g = exprgen.Gen(rng)
    qs = []
    for i, t in enumerate(ts):
        for _ in range(per):
            qs.append(querygen.query(rng, g, i + 1, t))
    return ts, qs


def paging(ctx, ts, qs):
    """every paging configuration of the small tables, as enumerated by the specification"""
    r = ctx.tlc('expr', 'MCPage', 'INIT Init\nNEXT Next\nINVARIANTS Inv Emit\nCONSTANT MaxN = 4\n')
    base = len(ts) - 5
    for x in r['out']:
        t = ts[base + x['n']]
        for mode in ('pages', 'advance'):
            if mode == 'advance' and x['top'] == 0:
                continue
            for o in ('', 'I32 desc'):
                qs.append({'table': base + x['n'] + 1, 'via': 0, 'mode': mode, 'f': [], 'fsrc': '', 'osrc': o,
                           'o': [{'ts': [['name', 'I32', '']], 'd': -1}] if o else [], 'top': x['top'], 'skip': x['skip'], 'max': x['max'],
                           'sel': [], 'expand': [], 'base': list(range(1, x['n'] + 1))})
    return len(r['out'])


def judge(ctx, ts, out, tag=''):
    e = exprgen.env()
    envf = ctx.write_json('qenv%s.json' % tag, {'lits': e['lits'], 'names': e['names'], 'tables': [querygen.env(t) for t in ts]})
    log = ctx.write_lines('qall%s.ndjson' % tag, out)
    r = ctx.tlc('expr', 'QueryTrace', 'INIT Init\nNEXT Next\nINVARIANTS Judge Stat\n', env={'VQ_LOG': log, 'VQ_ENV': envf})
    for x in r['out']:
        if 'k' in x:
            ctx.count('queries_' + x['k'], 1)
    ctx.count('traces_validated_against_impl', len(out))
    ctx.sample({k: v for k, v in out[-1].items() if k != 'rows'})
    for x in r['out']:
        if 'bad' in x:
            o = out[x['bad'] - 1]
            what = {k: o[k] for k in ('via', 'mode', 'fsrc', 'osrc', 'top', 'skip', 'max', 'sel', 'expand', 'base', 'res')}
            ctx.violate('%s%s:%s' % (tag, x['why'], vlib.digest([ts[o['table'] - 1], {k: v for k, v in o.items() if k not in ('res', 'rows')}])),
                        'query on a table of %d rows (%s keys): %s wrong: %s' % (len(ts[o['table'] - 1]['rows']), ts[o['table'] - 1]['kt'], x['why'], json.dumps(what)),
                        {'query': o, 'table': ts[o['table'] - 1]})


def run(ctx):
    ts, qs = make(ctx, 40 if ctx.quick else 500, 60 if ctx.quick else 150)
    n = paging(ctx, ts, qs)
    ctx.note('%d queries, %d paging configurations from the specification' % (len(qs), n))
    cfgf = ctx.write_json('cfg.json', {'lits': [t for t, _ in exprgen.LITS], 'tables': ts})
    parts = [[q for q in qs if q['table'] % vlib.NCPU == i] for i in range(vlib.NCPU)]

    def one(i):
        f = ctx.write_lines('q%d.ndjson' % i, parts[i])
        o = ctx.path('qo%d.ndjson' % i)
        ctx.jython('query_io.py', [cfgf, f, o], c2=True)
        return [json.loads(l) for l in open(o)]
    out = sum(ctx.parallel([lambda i=i: one(i) for i in range(vlib.NCPU)]), [])
    ctx.note('performed')
    judge(ctx, ts, out)
