# Migrates QTI v1 items to v2 in the real code and runs them: mig_io.py IN OUT
import vqboot
from vqboot import *
from StringIO import StringIO
from qti_io import scalar, value
import pyslet.qtiv2.core as core
import pyslet.qtiv2.variables as variables
import pyslet.qtiv2.interactions as interactions
import pyslet.imsqtiv2p1 as qti2
import pyslet.imsqtiv1p2p1 as qti1
import pyslet.html40_19991224 as html
import pyslet.xml20081126.structures as xml

B = variables.BaseType
C = variables.Cardinality


def opt(v):
    return [] if v is None else [v]


def num(v):
    return [] if v is None else [scalar(B.float, float(v))]


def tokens(e):
    """the words of the content and the interactions in it, in order"""
    out = []
    for c in e.GetChildren():
        if isinstance(c, (str, unicode)):
            out += [codes(x) for x in c.split()]
        else:
            if isinstance(c, interactions.Interaction):
                out.append(codes(u'@' + c.responseIdentifier))
            out += tokens(c)
    return out


def inter(i):
    """what an interaction offers"""
    g = lambda n: getattr(i, n, None)
    o = {'id': codes(i.responseIdentifier), 'k': i.__class__.__name__, 'shuffle': int(bool(g('shuffle'))), 'min': opt(g('minChoices')), 'max': opt(g('maxChoices')),
         'lo': num(g('lowerBound')), 'hi': num(g('upperBound')), 'step': opt(g('step')), 'orient': '', 'chars': opt(g('expectedLength')), 'lines': opt(g('expectedLines')), 'ch': []}
    if o['k'] == 'SliderInteraction' and i.orientation is not None:
        o['orient'] = core.Orientation.EncodeValue(i.orientation)
    if o['k'] == 'ChoiceInteraction':
        for c in i.FindChildrenDepthFirst(interactions.SimpleChoice, False):
            o['ch'].append({'id': codes(c.identifier), 'fixed': int(bool(c.fixed)), 'txt': tokens(c)})
    return o


def decl(d):
    o = {'id': codes(d.identifier), 'k': 'R' if isinstance(d, variables.ResponseDeclaration) else 'O', 'c': C.EncodeValue(d.cardinality), 'b': B.EncodeValue(d.baseType),
         'def': [], 'min': [], 'max': [], 'cut': []}
    if d.DefaultValue is not None:
        v = d.GetDefaultValue()
        o['def'] = value(v)['v']
    if o['k'] == 'O':
        o['min'], o['max'], o['cut'] = num(d.normalMinimum), num(d.normalMaximum), num(d.masteryValue)
    return o


def observe(item, r, how):
    b = item.FindChildrenDepthFirst(qti2.content.ItemBody, False)
    body = list(b)[0]
    o = {'how': how, 'id': codes(item.identifier), 'title': item.title, 'toks': tokens(body), 'inters': [], 'decls': [], 'fbs': [], 'runs': []}
    ints = list(body.FindChildrenDepthFirst(interactions.Interaction))
    o['inters'] = [inter(i) for i in ints]
    o['decls'] = [decl(d) for d in item.declarations.values()]
    for f in item.FindChildrenDepthFirst(qti2.items.ModalFeedback if hasattr(qti2.items, 'ModalFeedback') else qti2.QTIModalFeedback, False):
        o['fbs'].append({'id': codes(f.identifier), 'show': core.ShowHide.EncodeValue(f.showHide), 'out': f.outcomeIdentifier, 'title': f.title or '', 'txt': tokens(f)})
    state = variables.ItemSessionState(item)
    state.BeginSession()
    groups = []
    pos = 0
    for x in r['resps']:        # the interactions of each response, in order
        k = len(x['gaps']) if x['render'] == 'fib' else 1
        groups.append(ints[pos:pos + k])
        pos += k
    for run in r['runs']:
        p = {'st': 'ok', 'vars': []}
        try:
            for x, g, vals in zip(r['resps'], groups, run):
                vals = [raw(x, v, g) for v in vals]
                for n, i in enumerate(g):
                    v = state[i.responseIdentifier]
                    mine = vals if len(g) == 1 else vals[n:n + 1]
                    if v.Cardinality() == C.single:
                        v.SetValue(mine[0] if mine else None)
                    else:
                        v.SetValue(mine)
            state.EndAttempt()
            for n, d in item.declarations.items():
                if isinstance(d, variables.OutcomeDeclaration):
                    w = value(state[n])
                    p['vars'].append({'id': codes(n), 'b': w['b'], 'v': w['v']})
        except Exception, e:
            p['st'] = '%s: %s' % (e.__class__.__name__, str(e)[:150])
        o['runs'].append(p)
    return o


def raw(x, v, g):
    if x['t'] == 'lid':
        k = [l['id'] for l in x['labels']].index(v)
        return list(g[0].FindChildrenDepthFirst(interactions.SimpleChoice, False))[k].identifier
    if x['base'] == 'string':
        return text(v)
    if x['base'] == 'integer':
        return v[0]
    return float(v[0]) / v[1]


def run(r):
    r['obs'] = []
    r['err'] = ''
    r['log'] = []
    try:
        doc = qti1.QTIDocument()
        doc.Read(src=StringIO(r['xml'].encode('utf-8')))
        out = doc.root.MigrateV2()
        r['n'] = len(out)
        d2, lom, log = out[0]
        r['log'] = log
        r['obs'].append(observe(d2.root, r, 'the migrated item'))
        s = unicode(d2)
        r['out'] = s
        d3 = core.QTIDocument()
        d3.Read(src=StringIO(s.encode('utf-8')))
        r['obs'].append(observe(d3.root, r, 'the migrated item, written and read back'))
    except Exception, e:
        import traceback
        r['err'] = '%s: %s' % (e.__class__.__name__, str(e)[:200])
        r['tb'] = traceback.format_exc()[-700:]
    return r


if __name__ == '__main__':
    log = Log(sys.argv[2])
    for r in lines(sys.argv[1]):
        log.put(run(r))
    log.close()
