# Performs queries (filter, orderby, paging, select, expand) on entity collections of the real code.
import vqboot
import sys
from StringIO import StringIO
import expr_io
from expr_io import observed, fill, PROPS
import store_common
import pyslet.odata2.csdl as edm
import pyslet.odata2.edmx as edmx
import pyslet.odata2.memds as memds
import pyslet.odata2.core as core


def pykey(kt, k):
    return k if kt == 'int' else vqboot.text(k) if kt == 'str' else (k[0], vqboot.text(k[1]))


def build(t, vals):
    doc = edmx.Document()
    doc.Read(StringIO(expr_io.metadata(store_common.KEYTYPES[t['kt']])))
    cdef = doc.root.DataServices['M.C']
    store = memds.InMemoryEntityContainer(cdef)
    with cdef['U'].OpenCollection() as c:
        for i, r in enumerate(t['parents']):
            e = c.NewEntity()
            e.SetKey(i + 1)
            fill(e, r['vals'], vals)
            c.InsertEntity(e)
    idx = {}
    with cdef['S'].OpenCollection() as c:
        for i in t['insert']:
            r = t['rows'][i]
            e = c.NewEntity()
            k = pykey(t['kt'], r['key'])
            e.SetKey(k)
            fill(e, r['vals'], vals)
            for m in r['many']:
                e['Many'].BindEntity(m)
            if r['one']:
                e['One'].BindEntity(r['one'])
            c.InsertEntity(e)
            idx[k] = i + 1
    return cdef, store, idx, doc


class Table(object):
    def __init__(self, t, vals, wrap=None):
        self.t = t
        self.cdef, self.store, self.idx, self.doc = build(t, vals)
        if wrap:
            self.cdef = wrap(self)

    def row(self, e):
        return self.idx[e.Key()]


def rowview(T, e, sel, expand):
    vs = []
    for n in [p for p, _ in PROPS] + ['N' + p for p, _ in PROPS]:
        vs.append({'n': n, 'sel': 1 if e.Selected(n) else 0, 'v': observed(e[n]), 'key': 0})
    vs.append({'n': 'Cx', 'sel': 1 if e.Selected('Cx') else 0, 'v': observed(e['Cx']), 'key': 0})
    ex = []
    r = T.t['rows'][T.row(e) - 1]
    for n in expand:
        got = []
        if not e[n].isExpanded:
            got.append(-1)
        with e[n].OpenCollection() as c:
            for x in c.itervalues():
                got.append(x.Key())
        want = r['many'] if n == 'Many' else [r['one']] if r['one'] else []
        ex.append({'n': n, 'got': [int(x) for x in got], 'want': want})
    return {'r': T.row(e), 'vs': vs, 'ex': ex}


def query(T, q, exact=True):
    res = {'err': '', 'pages': [], 'len': -1, 'has': []}
    rows = []
    src = None
    try:
        if q['via']:
            pc = T.cdef['U'].OpenCollection()
            src = pc[q['via']]['Sm'].OpenCollection()
        else:
            src = T.cdef['S'].OpenCollection()
        with src as c:
            if q['sel'] or q['expand']:
                c.Expand(dict((n, None) for n in q['expand']) or None, dict((n, None) for n in q['sel']) or None)
            if q['fsrc']:
                c.Filter(core.CommonExpression.FromString(q['fsrc']))
            if q['osrc']:
                c.OrderBy(core.CommonExpression.OrderByFromString(q['osrc']))
            if q['mode'] == 'values':
                page = []
                for e in c.itervalues():
                    page.append(T.row(e))
                    if q['sel'] or q['expand']:
                        rows.append(rowview(T, e, q['sel'], q['expand']))
                res['pages'].append(page)
            elif q['mode'] == 'pages':
                if q['max']:
                    c.TopMax(q['max'])
                top = q['top'] if q['top'] >= 0 else None
                skip, tok = q['skip'], None
                while True:
                    c.SetPage(top, skip, tok)
                    page = [T.row(e) for e in c.iterpage()]
                    res['pages'].append(page)
                    tok = c.NextSkipToken()
                    if tok is None or len(res['pages']) > 40:
                        break
                    if top is not None:
                        top -= len(page)
                    skip = None
            elif q['mode'] == 'tokskip':
                c.TopMax(q['max'])
                c.SetPage(None, q['skip'])
                res['pages'].append([T.row(e) for e in c.iterpage()])
                tok = c.NextSkipToken()
                if tok is not None:
                    c.TopMax(None)
                    c.SetPage(None, q['top'], tok)
                    res['pages'].append([T.row(e) for e in c.iterpage()])
            else:
                if q['max']:
                    c.TopMax(q['max'])
                c.SetPage(q['top'] if q['top'] >= 0 else None, q['skip'])
                for i in range(len(T.t['rows']) + 3):
                    res['pages'].append([T.row(e) for e in c.iterpage(True)])
            res['len'] = len(c)
            for r in T.t['rows']:
                k = pykey(T.t['kt'], r['key'])
                res['has'].append(1 if k in c else 0)
    except Exception as x:
        res['err'] = '%s:%s' % (x.__class__.__name__, str(x)[:80])
        res['pages'] = []
        res['has'] = []
        rows = []
    return res, rows


def literals(cfg):
    expr_io.Dump(cfg['lits'])
    vals = {}
    for text in cfg['lits']:
        vals[text] = core.CommonExpression.FromString(text).value.value
    return vals


def main(cfgfile, infile, outfile):
    cfg = vqboot.load(cfgfile)
    vals = literals(cfg)
    tabs = {}
    out = vqboot.Log(outfile)
    for q in vqboot.lines(infile):
        if q['table'] not in tabs:
            tabs[q['table']] = Table(cfg['tables'][q['table'] - 1], vals)
        q['res'], q['rows'] = query(tabs[q['table']], q)
        out.put(q)
    out.close()


if __name__ == '__main__':
    main(*sys.argv[1:])
