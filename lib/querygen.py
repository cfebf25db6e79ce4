"""Random tables and queries for the query checks."""
import exprgen
from exprgen import V, LITS, BYT, TYPES


def table(rng, n=None, kt=None):
    kt = kt or rng.choice(['int', 'str', 'pair'])
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8]) if n is None else n
    np = rng.choice([1, 2, 3])
    if kt == 'int':
        keys = rng.sample(range(1, 60), n)
    elif kt == 'str':
        keys = [exprgen.cs(s) for s in rng.sample(["a", "b", "B", "aa", "o'x", "", "z z", "a/b", "\u00e9", "k,1", "x=2", "(p)"], n)]
    else:
        keys = [[a, exprgen.cs(b)] for a, b in rng.sample([(a, b) for a in (1, 2, 3, 10) for b in ("x", "y", "o'z")], n)]

    def vals():
        r = {}
        for nm, t in TYPES.items():
            src = {'Int16': 'Int32', 'Byte': 'Int32', 'Single': 'Double'}.get(t, t)
            c = [x for x in BYT[src] if not (t == 'Byte' and x[0] == '-')]
            if rng.random() < 0.75:
                r[nm] = rng.choice(c if rng.random() < .5 else c[:3])
        return r
    parents = [{'vals': vals()} for _ in range(np)]
    ones = list(range(1, np + 1))
    rng.shuffle(ones)
    rows = []
    for k in keys:
        v = vals()
        for nm, t in (('Cx/I32', 'Int32'), ('Cx/St', 'String'), ('Cx/Dp/Db', 'Double')):
            if rng.random() < .6:
                v[nm] = rng.choice(BYT[t])
        rows.append({'key': k, 'vals': v, 'one': ones.pop() if ones and rng.random() < .5 else 0,
                     'many': [p for p in range(1, np + 1) if rng.random() < .5]})
    ins = list(range(n))
    rng.shuffle(ins)
    return {'kt': kt, 'rows': rows, 'parents': parents, 'insert': ins}


VAL = dict(LITS)


def env(t):
    """expression contexts: rows, parents, complex values"""
    n, np = len(t['rows']), len(t['parents'])
    ctx, extra = [], []

    def props(vals):
        out = []
        for nm, ty in TYPES.items():
            out.append([nm, dict(VAL[vals[nm]], t=ty) if nm in vals else V(ty, n=True)])
            out.append(['N' + nm, V(ty, n=True)])
        return out
    back = {}
    for i, r in enumerate(t['rows']):
        if r['one']:
            back[r['one']] = i + 1
    for i, r in enumerate(t['rows']):
        p = props(r['vals'])
        cx = n + np + 2 * i + 1
        p.append(['Cx', V('Complex', a=cx)])
        p.append(['One', V('Entity', a=n + r['one'], s=[1]) if r['one'] else V('Null', n=True)])
        p.append(['None', V('Null', n=True)])
        ctx.append({'p': p})
        g = lambda nm, ty: dict(VAL[r['vals'][nm]]) if nm in r['vals'] else V(ty, n=True)
        extra.append({'p': [['I32', g('Cx/I32', 'Int32')], ['St', g('Cx/St', 'String')], ['Dp', V('Complex', a=cx + 1)]]})
        extra.append({'p': [['Db', g('Cx/Dp/Db', 'Double')], ['NSt', V('String', n=True)]]})
    for j, r in enumerate(t['parents']):
        ctx.append({'p': props(r['vals']) + [['Back', V('Entity', a=back[j + 1], s=[1]) if j + 1 in back else V('Null', n=True)]]})
    ctx += extra
    key = []
    for r in t['rows']:
        k = r['key']
        key.append([k] if t['kt'] == 'int' else list(k) if t['kt'] == 'str' else [k[0]] + k[1])
    return {'ctx': ctx, 'fq': ['M.T'] * n + ['M.R'] * np + ['?'] * (2 * n), 'key': key}


def simple_order(rng, g):
    n = rng.choice(['I32', 'I64', 'St', 'De', 'Db', 'Bo', 'DT', 'Gu', 'NI32', 'I16', 'Cx/I32', 'One/I32', 'One/St', 'Cx/St'])
    return ('path', n.split('/'))


def query(rng, g, ti, t, mode=None):
    q = {'table': ti, 'via': rng.randrange(1, len(t['parents']) + 1) if rng.random() < .3 else 0,
         'mode': mode or rng.choice(['values', 'values', 'pages', 'advance', 'tokskip']), 'f': [], 'fsrc': '', 'o': [], 'osrc': '',
         'top': -1, 'skip': 0, 'max': 0, 'sel': [], 'expand': []}
    q['base'] = [i + 1 for i, r in enumerate(t['rows']) if not q['via'] or q['via'] in r['many']]
    if rng.random() < .6:
        q['f'] = g.toks(g.expr('B', rng.choice([1, 1, 2, 3])), 0.05)
        q['fsrc'] = exprgen.render(q['f'], rng)
    os = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        e = simple_order(rng, g) if rng.random() < .75 else g.expr(rng.choice('NSI'), 1)
        d = rng.choice([1, 1, -1])
        ts = g.toks(e, 0)
        q['o'].append({'ts': ts, 'd': d})
        os.append(exprgen.render(ts) + (' desc' if d < 0 else rng.choice(['', ' asc'])))
    q['osrc'] = rng.choice([',', ', ']).join(os)
    n = len(t['rows'])
    if q['mode'] != 'values':
        q['top'] = rng.choice([-1, -1, 0, 1, 2, 3, n, n + 1])
        q['skip'] = rng.choice([0, 0, 0, 1, 2, n, n + 1])
        q['max'] = rng.choice([0, 1, 2, 3, n, n + 1]) if rng.random() < .7 else 0
        if q['mode'] == 'advance' and q['top'] == 0:
            q['top'] = 1
        if q['mode'] == 'tokskip':
            q['top'] = rng.choice([0, 1, 2, n])
            q['max'] = q['max'] or 1
    else:
        if rng.random() < .4:
            q['sel'] = rng.sample(['I32', 'St', 'Db', 'Cx', 'NBo', 'DT', 'Bi'], rng.choice([1, 2, 3])) if rng.random() < .8 else ['*']
        if rng.random() < .4:
            q['expand'] = rng.sample(['One', 'Many'], rng.choice([1, 2]))
    return q
