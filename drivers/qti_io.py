# Evaluates QTI expressions and runs item sessions in the real code: qti_io.py IN OUT
import vqboot
from vqboot import *
from StringIO import StringIO
from fractions import Fraction
import pyslet.qtiv2.core as core
import pyslet.qtiv2.expressions as expressions
import pyslet.qtiv2.variables as variables
import pyslet.qtiv2.processing as processing
import pyslet.imsqtiv2p1 as qti

B = variables.BaseType
C = variables.Cardinality
CLASSES = {}
for n in dir(expressions):
    c = getattr(expressions, n)
    if isinstance(c, type) and issubclass(c, expressions.Expression) and hasattr(c, 'XMLNAME') and c.XMLNAME:
        CLASSES[c.XMLNAME[1]] = c


def scalar(b, v):
    if b == B.boolean:
        return [1 if v else 0]
    if b == B.integer:
        return [int(v)] if type(v) in (int, long) else [int(v), 0, 0, 0]
    if b in (B.float, B.duration):
        if v != v or v in (float('inf'), float('-inf')):
            return [0, 0]
        q = Fraction(v).limit_denominator(1000)
        n, d = int(q.numerator), int(q.denominator)
        if abs(n) > 2000000000:
            return [0, 0]
        if abs(float(n) / d - v) <= 1e-9 * max(1.0, abs(v)):
            return [n, d]
        return [n, d, 1]
    if b == B.point:
        return [int(v[0]), int(v[1])]
    if b in (B.pair, B.directedPair):
        return codes(u' '.join(v))
    return codes(unicode(v))


def value(v):
    """the observable value: cardinality, base type and scalars"""
    c = v.Cardinality()
    r = {'s': 'v', 'c': C.EncodeValue(c) if c is not None else '', 'b': B.EncodeValue(v.baseType) if v.baseType is not None else '', 'v': [], 'f': [], 'g': []}
    if v.IsNull():
        return r
    if c == C.single:
        r['v'] = [scalar(v.baseType, v.value)]
    elif c == C.ordered:
        r['v'] = [scalar(v.baseType, x) for x in v.value]
    elif c == C.multiple:
        r['v'] = [scalar(v.baseType, x) for x in v.GetValues()]
    elif c == C.record:
        r['f'] = sorted(v)
        r['g'] = [B.EncodeValue(v[x].baseType) for x in r['f']]
        r['v'] = [scalar(v[x].baseType, v[x].value) for x in r['f']]
    return r


ERR = {'s': 'e', 'c': '', 'b': '', 'v': [], 'f': [], 'g': []}


def bad(e):
    return {'s': 'x', 'c': '%s: %s' % (e.__class__.__name__, str(e)[:100]), 'b': '', 'v': [], 'f': [], 'g': []}


def read(src):
    doc = core.QTIDocument()
    doc.Read(src=StringIO(src.encode('utf-8')))
    return doc.root


def build(e, parent):
    """an expression made directly (the attributes go through the same decoding as those read from XML)"""
    cls = CLASSES[e['op']]
    x = parent.ChildElement(cls) if parent is not None else cls(None)
    for n, v in e['at']:
        x.SetAttribute(n, v)
    if e['txt']:
        x.AddData(e['txt'])
    for k in e['kids']:
        build(k, x)
    x.ContentChanged()
    return x


def evaluate(x, state):
    try:
        return value(x.Evaluate(state))
    except core.ProcessingError:
        return ERR
    except (ValueError, OverflowError, ZeroDivisionError), e:
        return dict(bad(e), s='o')
    except Exception, e:
        return bad(e)


def expr(r):
    item = read(r['xml'])
    state = variables.ItemSessionState(item)
    state.BeginSession()
    state.BeginAttempt()
    if r['mode'] == 'xml':
        xs = [x.Expression for x in item.ResponseProcessing.ResponseRule]
    else:
        xs = [build(e, None) for e in r['exprs']]
    got = [evaluate(x, state) for x in xs]
    r['got'] = got
    return r


def dump(state, decls):
    out = []
    for d in decls + [{'id': 'numAttempts', 'k': 'r'}, {'id': 'completionStatus', 'k': 'o'}]:
        x = d['id']
        v = value(state[x])
        o = {'id': x, 'val': v, 'def': v, 'cor': v, 'sv': []}
        if d['k'] in 'RO':
            o['def'] = value(state[x + '.DEFAULT'])
        if d['k'] == 'R':
            o['cor'] = value(state[x + '.CORRECT'])
        if x + '.SAVED' in state:
            o['sv'] = [value(state[x + '.SAVED'])]
        out.append(o)
    return out


def session(r):
    item = read(r['xml'])
    state = variables.ItemSessionState(item)
    obs = []
    for a in r['acts']:
        st = 'ok'
        err = ''
        try:
            ps = dict((n, v if len(v) != 1 or m else v[0]) for n, v, m in a['form'])
            if a['a'] == 'clone':
                state.SelectClone()
            elif a['a'] == 'begin':
                state.BeginSession()
            elif a['a'] == 'attempt':
                state.BeginAttempt()
            elif a['a'] == 'save':
                state.SaveSession(ps)
            elif a['a'] == 'submit':
                state.SubmitSession(ps)
            elif a['a'] == 'end':
                state.EndAttempt()
        except variables.BadSessionParams:
            st = 'refused'
        except (core.ProcessingError, ValueError), e:
            st = 'err'
            err = '%s: %s' % (e.__class__.__name__, str(e)[:200])
        except Exception, e:
            st = 'crash'
            err = '%s: %s' % (e.__class__.__name__, str(e)[:200])
        obs.append({'st': st, 'err': err, 'vars': dump(state, r['decls'])})
    r['obs'] = obs
    return r


if __name__ == '__main__':
    log = Log(sys.argv[2])
    for r in lines(sys.argv[1]):
        log.put(expr(r) if 'exprs' in r else session(r))
    log.close()
