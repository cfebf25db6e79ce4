# args: config.json out.ndjson : concurrent scenarios on the in-memory container under controlled schedules.
import vqboot, sys, random, time
import sched
import store_common as sco
import store_random as sr

FILES = ['odata2/memds.py', 'odata2/csdl.py']


class TApi(sco.Api):
    def reset(self):
        sched.install()
        try:
            super(TApi, self).reset()
        finally:
            sched.uninstall()


def execute(api, init, threads, decide, points, seed):
    api.rng = random.Random(seed)
    api.reset()
    for op in init:
        api.apply(op)
    log = []

    def body(i):
        def f():
            for op in threads[i]:
                op = dict(op)
                log.append({'e': 'call', 'th': i + 1, 'op': op})
                err, r = api.run(op)
                if op['op'] == 'get':
                    r = -1 if r is None else (r if isinstance(r, int) else -2)
                elif op.get('auto'):
                    r = r if err == 'ok' and isinstance(r, int) and 0 <= r < 50 else (-1 if err != 'ok' else -2)
                else:
                    r = -1
                log.append({'e': 'ret', 'th': i + 1, 'err': err, 'r': r})
        return f
    s = sched.Scheduler([body(i) for i in range(len(threads))], decide, points, FILES)
    problem = s.run()
    return log, problem, s.n


def resolve(h):
    """puts the key that was generated (or an unused one, if the insertion failed) in the call"""
    log = h['log']
    for i, e in enumerate(log):
        if e['e'] == 'call' and e['op'].get('auto'):
            k = 59
            for f in log[i + 1:]:
                if f['th'] == e['th']:
                    if f['r'] >= 0:
                        k = f['r']
                    break
            e['op']['t' if e['op']['op'] == 'navins' else 'k'] = k
    return h


def main(cfgf, outf):
    cfg = vqboot.load(cfgf)
    rng = random.Random(cfg['seed'])
    out = vqboot.Log(outf)
    runs = 0
    t0 = time.time()
    for scen in range(cfg['scenarios']):
        if time.time() - t0 > cfg.get('budget', 600):
            break
        if rng.random() < 0.7:
            fm, tm = rng.choice('1?*'), rng.choice('1?*')
            fn, tn = rng.choice([(True, True), (True, True), (True, False), (False, True)])
            sc = {'n': 2, 'a': [{'f': 1, 't': 2, 'fm': fm, 'tm': tm, 'fn': fn, 'tn': tn}], 'unnamed': True}
        else:
            sc = sr.rand_schema(rng)
        keys = 2
        api = TApi(sc, ['int'] * sc['n'], rng)
        api.reset()
        init = []
        view = api.view()
        for i in range(rng.choice([0, 2, 4, 6])):
            for j in range(20):
                op = sr.rand_op(rng, sc, keys, view, False)
                if op['op'] not in ('clear', 'navclear') and api.apply(op) == 'ok':
                    init.append(op)
                    break
            view = api.view()
        auto = rng.random() < 0.3
        threads = []
        nt = rng.choice([2, 2, 2, 3])
        for i in range(nt):
            ops = []
            for j in range(rng.choice([1, 1, 2])):
                while True:
                    op = sr.rand_op(rng, sc, keys, view, False)
                    if auto and op['op'] in ('insert', 'navins') and rng.random() < 0.6 and all(a['f'] != a['t'] for a in sc['a']):
                        op['auto'] = True
                        op['b'] = [[b for b in x if b['t'] == 'key'] for x in op['b']]
                    if rng.random() < 0.15:
                        op = dict(op, op=rng.choice(['get', 'get', 'scan']), b=[], auto=False)
                    if op['op'] not in ('clear', 'navclear'):
                        break
                ops.append(op)
            threads.append(ops)
        rec = {'t': 'scenario', 'sc': sc, 'init': init, 'keys': 60}
        hists = {}
        aseed = rng.random()

        def go(decide, points, how):
            log, problem, n = execute(api, init, threads, decide, points, aseed)
            final = api.view() if problem is None else []
            k = vqboot.json.dumps([log, problem, final, api.note])
            if k not in hists:
                hists[k] = {'log': log, 'problem': problem or '', 'final': final, 'note': api.note, 'how': how}
            return n

        # no preemption, each order of threads
        npts = 0
        for first in range(nt):
            npts = max(npts, go(lambda n, c, r, f=first: c if c in r else (f if f in r else r[0]), [], ['serial', first]))
            runs += 1
        # one preemption: thread first runs to its p-th point, then the others to the end, then it resumes
        pts = list(range(1, npts + 1))
        rng.shuffle(pts)
        for first in range(nt):
            for p in pts[:cfg['preempt1']]:
                st = {'c': 0, 'sw': False}

                def decide(n, c, r, f=first, p=p, st=st):
                    if n >= p:
                        o = [j for j in r if j != f]
                        return (c if c in o else o[0]) if o else f
                    return f if f in r else r[0]
                go(decide, [p], ['p1', first, p])
                runs += 1
        for q in range(cfg['random']):
            rr = random.Random('%s/%s/%s' % (cfg['seed'], scen, q))
            sw = sorted(rr.sample(range(1, npts + 1), min(npts, rr.choice([2, 3, 4, 6]))))
            go(lambda n, c, r, sw=sw, rr=rr: (c if (c in r and n not in sw) else rr.choice(r)), sw, ['r', sw])
            runs += 1
        for k, h in sorted(hists.items()):
            out.put(dict(rec, **resolve(h)))
    out.put({'t': 'end', 'runs': runs})
    out.close()


main(sys.argv[1], sys.argv[2])
