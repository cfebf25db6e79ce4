# Runs test sessions in the real code: tsession_io.py IN OUT
import vqboot
from vqboot import *
import os
import random
import shutil
import tempfile
import time
NOW = [0]
time.time = staticmethod(lambda: 1000000.0 + NOW[0] / 4.0)
import pyslet.qtiv2.core as core
import pyslet.qtiv2.tests as tests
import pyslet.qtiv2.variables as variables
import pyslet.html40_19991224 as html
import pyslet.imsqtiv2p1 as qti
import pyslet.rfc2396 as uri
from qti_io import value
from StringIO import StringIO

KINDS = {'SessionKeyMismatch': 'mismatch', 'SessionKeyExpired': 'expired', 'SessionActionMissing': 'noaction', 'BadSessionParams': 'refused', 'ProcessingError': 'err'}


def look(state, keys, res, err, div, names):
    q = p = None
    if res != 'unbegun':
        q = state.GetCurrentQuestion()
        p = state.GetCurrentTestPart()
    if state.key not in keys:
        keys.append(state.key)
    vars = []
    for n, more in names:
        v = value(state[n])
        o = {'id': n, 'val': v, 'def': v, 'cor': v, 'sv': [], 'd': 'D' in more}
        if 'D' in more:
            o['def'] = value(state[n + '.DEFAULT'])
        if 'C' in more:
            o['cor'] = value(state[n + '.CORRECT'])
            if n + '.SAVED' in state:
                o['sv'] = [value(state[n + '.SAVED'])]
        vars.append(o)
    nav = []
    if div is not None:
        for b in div.FindChildrenDepthFirst(html.Button):
            nav.append([b.name, 'key' if b.value == state.key else 'other', 'off' if b.disabled else 'on'])
    return {'res': res, 'err': err, 'cur': q.identifier if q is not None else '', 'part': p.identifier if p is not None else '', 'key': keys.index(state.key) + 1, 'nkeys': len(keys), 'vars': vars, 'nav': nav}


def run(r, tmp):
    for i, x in enumerate(r['items']):
        f = open(os.path.join(tmp, 'item%d.xml' % (i + 1)), 'wb')
        f.write(x['xml'].encode('utf-8'))
        f.close()
    doc = core.QTIDocument(baseURI=uri.URIFactory.URLFromPathname(os.path.join(tmp, 'test.xml')))
    doc.Read(src=StringIO(r['xml'].encode('utf-8')))
    random.seed(r['seed'])
    NOW[0] = 0
    r['crash'] = ''
    r['obs'] = []
    form = tests.TestForm(doc.root)
    r['form'] = list(form)
    state = variables.TestSessionState(form)
    names = [('duration', '')] + [(d['id'], '') for d in r['outs']]
    r['vars'] = [{'n': n, 'id': '', 'x': n, 'more': []} for n, m in names]
    for n in sorted(set(r['form'])):
        if n and n[0] != '-':
            xs = [('duration', '')]
            k = r['nodes'][n]['item']
            if k:
                xs += [(x, '') for x in ('numAttempts', 'completionStatus')]
                xs += [(d['id'], {'R': 'CD', 'O': 'D', 'T': ''}[d['k']]) for d in r['items'][k - 1]['decls']]
            for x, m in xs:
                names.append((n + '.' + x, m))
                r['vars'].append({'n': n + '.' + x, 'id': n, 'x': x, 'more': [{'C': 'CORRECT', 'D': 'DEFAULT'}[y] for y in m]})
    keys = []
    r['start'] = look(state, keys, 'unbegun', '', None, names)
    r['names'] = sorted(set(state))
    begun = False
    for e in r['evs']:
        if begun and e['a'] == 'begin':
            e['a'] = 'submit'
        elif not begun and e['a'] in ('save', 'submit'):
            e['a'] = 'begin'
        NOW[0] = e['t']
        ps = {}
        for f in e['fs']:
            for n, v, m in f['form']:
                ps[f['id'] + '.' + n] = v if len(v) != 1 or m else v[0]
        k = e['key']
        if k > len(keys):
            k = e['key'] = 0
        key = state.key if k == 0 else keys[k - 1] if k > 0 else u'0' * 56
        if k > 0 and key == state.key:
            e['key'] = 0
        res, err, div = 'ok', '', None
        try:
            if e['a'] == 'begin':
                div = state.BeginSession(key)
            else:
                if e['a'] != 'none':
                    ps[e['a'].upper()] = key
                div = state.HandleEvent(ps)
        except Exception, x:
            res = KINDS.get(x.__class__.__name__, 'crash')
            err = '%s: %s' % (x.__class__.__name__, str(x)[:200])
            if res == 'crash' and isinstance(x, (ValueError, OverflowError, ZeroDivisionError)):
                res = 'err'
        begun = begun or e['a'] == 'begin' and res == 'ok'
        o = look(state, keys, res if begun else 'unbegun', err, div, names)
        o['res'] = res
        r['obs'].append(o)
        if res in ('crash', 'err', 'refused'):
            break
    for x in r['items']:
        x['xml'] = ''
    return r


if __name__ == '__main__':
    log = Log(sys.argv[2])
    tmp = tempfile.mkdtemp('vq')
    try:
        for r in lines(sys.argv[1]):
            log.put(run(r, tmp))
    finally:
        shutil.rmtree(tmp)
    log.close()
