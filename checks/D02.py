"""Threads on one in-memory container: every controlled execution is linearizable with respect to specs/store."""
import json
import vlib


def run(ctx):
    cp = ctx.javac('SchedTrace')
    n = 32 if ctx.quick else 600

    def one(i):
        f = ctx.write_json('c%d.json' % i, {'seed': '%s/%s' % (ctx.seed, i), 'scenarios': n, 'budget': 90 if ctx.quick else 600,
                                            'preempt1': 70 if ctx.quick else 400, 'random': 30 if ctx.quick else 200})
        o = ctx.path('o%d.ndjson' % i)
        ctx.jython('store_threads.py', [f, o], extra_cp=[cp])
        return [json.loads(l) for l in open(o)]
    lines = []
    for part in ctx.parallel([lambda i=i: one(i) for i in range(vlib.NCPU)]):
        ctx.count('executions', part[-1]['runs'])
        lines += part[:-1]
    ctx.note('%d distinct histories of %d executions' % (len(lines), ctx.cov['executions']))
    log = ctx.write_lines('all.ndjson', lines)
    r = ctx.tlc('store', 'StoreConc', 'INIT Init\nNEXT Next\nINVARIANTS Inv Accept\n', env={'VQ_LOG': log})
    acc = {x['acc'] for x in r['out']}
    ctx.count('traces_validated_against_impl', len(lines))
    ctx.sample(lines[len(lines) // 2])
    for i, x in enumerate(lines):
        if i + 1 not in acc:
            ops = sorted(e['op']['op'] for e in x['log'] if e['e'] == 'call')
            ctx.violate('conc:%s:%s' % ('+'.join(ops), vlib.digest(x)),
                        'no order of the operations explains this execution%s: %s final %s schema %s' % (
                            ' (%s)' % x['problem'] if x['problem'] else '', json.dumps(x['log']), json.dumps(x['final']), json.dumps(x['sc'])), x)
