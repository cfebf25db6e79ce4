"""Checks built on specs/store: exhaustive replay of the explored graph, and judged random histories."""
import json, os
import vlib, storegen

INV = 'INIT Init\nNEXT Next\nINVARIANTS Inv Refused DeleteMinimal Emit\n'


def explore(ctx, scs, name):
    f = ctx.write_json(name + '-schemas.json', scs)
    r = ctx.tlc('store', 'MCStore', INV, env={'VQ_SCHEMAS': f})
    g = {}
    for x in r['out']:
        e = g.setdefault(x['si'], {'si': x['si'], 'sc': scs[x['si'] - 1], 'st': []})
        if x['t'] == 'ops':
            e['ops'] = x['ops']
        else:
            e['st'].append({'view': x['view'], 'r': x['r']})
    return list(g.values())


def sampled(graphs, rng, frac):
    """keeps, in each state, a sample of the operations (always those that change the state), marking the rest skip"""
    if frac >= 1:
        return graphs
    for g in graphs:
        for s in g['st']:
            s['r'] = [x if (rng.random() < frac) else ['later'] + x for x in s['r']]
    return graphs


def replay(ctx, graphs, kts, timeout=700):
    """replays the transitions of the graphs, in parallel processes of about equal work"""
    jobs = [[] for i in range(vlib.NCPU)]
    load = [0] * len(jobs)
    # split large graphs: each part tests a part of the operations of every state
    parts = []
    for g in graphs:
        n = sum(1 for s in g['st'] for x in s['r'] if x[0] not in ('skip', 'later'))
        k = max(1, n // 8000)
        for p in range(k):
            if k == 1:
                parts.append((n, g))
            else:
                h = {'si': g['si'], 'sc': g['sc'], 'ops': g['ops'], 'st': [
                    {'view': s['view'], 'r': [x if i % k == p or x[0] in ('skip', 'later') else ['later'] + x for i, x in enumerate(s['r'])]} for s in g['st']]}
                parts.append((n // k, h))
    parts.sort(key=lambda x: -x[0])
    for n, g in parts:
        i = load.index(min(load))
        jobs[i].append(g)
        load[i] += n

    def one(i):
        fi = ctx.write_json('rep%d.json' % i, jobs[i])
        fo = ctx.path('rep%d.out' % i)
        ctx.jython('store_replay.py', [fi, fo, ctx.seed, kts[i % len(kts)]], timeout=timeout, mem="2g", c2=False)
        return json.load(open(fo))
    for o in ctx.parallel([lambda i=i: one(i) for i in range(len(jobs)) if jobs[i]]):
        ctx.count('traces_validated_against_impl', o['replays'])
        ctx.count('operations_replayed', o['steps'])
        for b in o['bad']:
            report(ctx, b)


def report(ctx, b):
    op = b['history'][-1] if b.get('history') else b['op']
    ctx.violate('replay:%s:%s' % (op['op'], vlib.digest([b['sc'], b['in'], op])),
                '%s in state %s of schema %s: got %s %s, the specification requires %s %s' % (
                    json.dumps(op), b['in'], json.dumps(b['sc']), b['err'], json.dumps(b['view']), b['expected_err'], b['expected_view']), b)


def random_histories(ctx, cfg, procs=vlib.NCPU, name='rnd', c2=False, timeout=700):
    def one(i):
        c = dict(cfg, seed='%s/%s/%s' % (name, ctx.seed, i))
        fi = ctx.write_json('%s%d.json' % (name, i), c)
        fo = ctx.path('%s%d.ndjson' % (name, i))
        ctx.jython('store_random.py', [fi, fo], timeout=timeout, c2=c2, env=cfg.get('env'))
        return fo
    files = ctx.parallel([lambda i=i: one(i) for i in range(procs)])
    log = ctx.path(name + '.ndjson')
    lines = []
    with open(log, 'w') as f:
        for fo in files:
            for l in open(fo):
                f.write(l)
                lines.append(l)
    judge(ctx, log, [json.loads(l) for l in lines], name)


def judge(ctx, log, lines, name):
    r = ctx.tlc('store', 'StoreTrace', 'INIT Init\nNEXT Next\nINVARIANTS Inv Judge\n', env={'VQ_LOG': log}, allow_violation=False)
    inits = sum(1 for x in lines if x['t'] == 'init')
    ctx.count('traces_validated_against_impl', inits)
    ctx.count('history_operations', len(lines) - inits)
    if lines:
        oks = [x for x in lines if x['t'] == 'op' and x['err'] == 'ok']
        ctx.sample({'history_operation': oks[len(oks) // 2]} if oks else lines[0])
    for x in r['out']:
        hist = lines[x['h'] - 1:x['l']]
        op = hist[-1]
        ctx.violate('%s:%s:%s:%s' % (name, x['clause'], op['op']['op'], vlib.digest(hist)),
                    'history of %d operations on schema %s: %s: %s gave %s %s; the specification requires %s %s' % (
                        len(hist) - 1, json.dumps(hist[0]['sc']), x['clause'], json.dumps(op['op']), op['err'], json.dumps(op['view']),
                        x['err'], json.dumps(x['view'])), hist)
