# args: config.json out.ndjson : random histories on the in-memory container (and other backends), logged for specs/store/StoreTrace
import vqboot, sys, random
import store_common as sco


def rand_schema(rng):
    while True:
        n = rng.choice([1, 2, 2, 3, 3])
        a = []
        for i in range(rng.choice([1, 1, 2, 2, 3])):
            f = rng.randint(1, n)
            t = rng.randint(1, n)
            fm = rng.choice('1?**')
            tm = rng.choice('1?**')
            fn, tn = rng.choice([(True, True), (True, True), (True, False), (False, True)])
            a.append({'f': f, 't': t, 'fm': fm, 'tm': tm, 'fn': fn, 'tn': tn})
        sc = {'n': n, 'a': a}
        # requirements: a required end without navigation property towards it can only be met through one navigation
        need = [0] * (n + 1)
        unnamed = False
        for x in a:
            if x['f'] == x['t'] and '1' in (x['fm'], x['tm']):
                break
            if x['tm'] == '1' and not x['fn']:
                need[x['f']] += 1
            if x['fm'] == '1' and not x['tn']:
                need[x['t']] += 1
            unnamed = unnamed or (x['tm'] == '1' and not x['tn']) or (x['fm'] == '1' and not x['fn'])
        else:
            if max(need) <= 1 and not (unnamed and len(a) > 1):
                sc['unnamed'] = unnamed
                return sc


def rand_bind(rng, sc, s, keys, view, depth, req=True):
    out = []
    for n in sco.navseq(sc, s):
        t = sco.target(sc, n)
        bs = []
        tm = sco.tmult(sc, n)
        p = 0.85 if (tm == '1' and req) else (0.35 if depth else 0.15)
        ex = [e[0] for e in view[t - 1]]
        for j in range(rng.choice([1, 1, 1, 2, 3]) if tm == '*' else 1):
            if rng.random() < p:
                if depth and rng.random() < 0.35:
                    bs.append({'t': 'new', 'k': rng.randint(0, keys), 'v': rng.randint(0, 9),
                               'b': rand_bind(rng, sc, t, keys, view, depth - 1)})
                else:
                    k = rng.choice(ex) if ex and rng.random() < 0.85 else rng.randint(0, keys)
                    bs.append({'t': 'key', 'k': k, 'v': 0, 'b': []})
        out.append(bs)
    return out


def rand_op(rng, sc, keys, view, auto):
    s = rng.randint(1, sc['n'])
    ns = sco.navseq(sc, s)
    ex = [e[0] for e in view[s - 1]]
    o = rng.choice(['insert'] * 6 + ['update'] * 3 + ['delete'] * 3 + ['navset', 'navrep', 'navdel', 'navins'] * 2 + ['navclear', 'clear'])
    if o == 'clear' and (sc['unnamed'] or rng.random() < 0.6):
        o = 'delete'
    if o.startswith('nav') and not ns:
        o = 'insert'
    op = {'op': o, 's': s, 'k': 0, 'v': rng.randint(0, 9), 'n': 1, 't': 0, 'b': []}
    if o == 'insert':
        op['k'] = rng.randint(0, keys)
        op['b'] = rand_bind(rng, sc, s, keys, view, 2)
        if auto and rng.random() < 0.3:
            op['auto'] = True
    else:
        op['k'] = rng.choice(ex) if ex and rng.random() < 0.9 else rng.randint(0, keys)
    if o == 'update':
        op['b'] = rand_bind(rng, sc, s, keys, view, 1, False)
    if o.startswith('nav'):
        op['n'] = rng.randint(1, len(ns))
        n = ns[op['n'] - 1]
        t = sco.target(sc, n)
        ext = [e[0] for e in view[t - 1]]
        op['t'] = rng.choice(ext) if ext and rng.random() < 0.85 else rng.randint(0, keys)
        if o == 'navdel' and rng.random() < 0.7:
            for e in view[s - 1]:
                if e[0] == op['k'] and e[2][op['n'] - 1]:
                    op['t'] = rng.choice(e[2][op['n'] - 1])
        if o == 'navins':
            op['t'] = rng.randint(0, keys)
            op['b'] = rand_bind(rng, sc, t, keys, view, 1)
            if auto and rng.random() < 0.3:
                op['auto'] = True
    return op


def history(rng, log, api, sc, keys, auto, length):
    api.reset()
    log.put({'t': 'init', 'sc': sc, 'keys': keys + length})
    view = api.view()
    for i in range(length):
        op = rand_op(rng, sc, keys, view, auto)
        err = api.apply(op)
        if op.get('auto'):
            if err == 'ok':
                k = api.newkey
                if not (0 <= k <= keys + length):
                    err = 'generated key %r' % k
                    k = 0
                if op['op'] == 'navins':
                    op['t'] = k
                else:
                    op['k'] = k
            else:
                # which key was tried is not known, and does not matter, unless it was the key that was refused
                continue
        view = api.view()
        log.put({'t': 'op', 'op': op, 'err': err, 'view': view, 'note': api.note})
        if not view:
            break


def main(cfgf, outf):
    cfg = vqboot.load(cfgf)
    log = vqboot.Log(outf)
    rng = random.Random(cfg['seed'])
    backend = sco.Api
    if cfg.get('backend'):
        backend = getattr(__import__(cfg['backend']), 'Backend')
    for i in range(cfg['schemas']):
        sc = rand_schema(rng)
        kts = [rng.choice(cfg.get('keytypes', ['int', 'str', 'pair'])) for s in range(sc['n'])]
        auto = all(k == 'int' for k in kts)
        api = backend(sc, kts, rng)
        for j in range(cfg['histories']):
            history(rng, log, api, sc, rng.choice([3, 5, 8]), auto and rng.random() < 0.5, cfg['length'])
    log.close()


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2])
