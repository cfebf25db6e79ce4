"""XML trees written, read, copied and compared by the real classes, judged by specs/tree/Tree; written texts are read by expat as well."""
import treegen
from treegen import c


def run(ctx):
    r = ctx.rng
    g = treegen.G(r)
    n = 1 if ctx.quick else 12
    ctx.tlc('tree', 'MCTree', 'CONSTANT MaxDepth = %d\nCONSTANT SeesHidden = FALSE\nINIT Init\nNEXT Next\nINVARIANT Faithful\nINVARIANT Scoped\n' % (3 if ctx.quick else 4))
    recs = []
    for k in range(600 * n):
        ns, high = k % 3 > 0, k % 5 == 0
        t = g.spine(ns, high) if r.random() < 0.25 else g.tree(ns, high, r.choice([0, 1, 2, 3, 3]))
        if r.random() < 0.6:
            g.inner(t)
        if r.random() < 0.4:
            g.late(t)
        recs.append({'op': 'write', 'ns': ns, 'ascii': not high, 'into': r.random() < 0.5, 'tree': t, 'path': g.path(t)})
    for k in range(600 * n):
        ns = k % 3 > 0
        a = g.tree(ns, False, r.choice([0, 1, 2]))
        recs.append({'op': 'cmp', 'ns': ns, 'a': a, 'b': g.change(a, ns)})
    for k in range(1500 * n):
        x = g.qtree(r.choice([0, 1, 1, 2, 3]))
        recs.append({'op': 'read', 'raw': x, 'text': c(treegen.qtext(x))})
    out = ctx.drive('tree_io.py', recs)
    for o in out:
        for w in o.get('out', []):
            w['raw'] = treegen.expat_tree(''.join(map(chr, w['text'])).encode('utf-8')) if w['st'] == 'ok' else []
    t = lambda s: ''.join(map(chr, s))
    for v, o in ctx.judge('tree', 'TreeTrace', out):
        ctx.count('documents refused' if v['err'] else v['op'], 1)
        if v['bad']:
            if v['op'] == 'read':
                s = t(o['text'])
                ctx.violate('read %s' % s, 'reading %s: %s %s; expected %s' % (s, o['st'], o['tree'] or o['why'], v['want'] or 'an error'), {'o': o, 'want': v['want']})
            elif v['op'] == 'cmp':
                ctx.violate('cmp %s %s' % (show(o['a']), show(o['b'])), 'comparing %s and %s: %s, %s %s' % (show(o['a']), show(o['b']), o['ab'], o['ba'], o['why']), o)
            else:
                for p in v['parts']:
                    what = '; '.join('%s: %s %r' % (w['how'], w['st'], t(w['text'])) for w in o['out']) if p == 'write' else '%s %s' % (o['why'], o['copy'] and show(o['copy'][0]))
                    ctx.violate('%s %s' % (p, show(o['tree'])), '%s of %s gives %s' % (p, show(o['tree']), what), o)


def show(e):
    t = lambda s: ''.join(map(chr, s))
    if e['k'] == 't':
        return repr(t(e['t']))
    q = lambda q: ('{%s}' % t(q['ns']) if q['ns'] else '') + t(q['n'])
    return '<%s%s%s>%s' % (q(e['q']), ''.join(' %s=%r' % (q(a['q']), t(a['v'])) for a in e['as']), ''.join(' !%s:%s' % (t(b), t(a)) for a, b in e.get('pf', [])), '[%s]' % ' '.join(map(show, e['cs'])) if e['cs'] else '')
