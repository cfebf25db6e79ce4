# Makes test forms with the real code: form_io.py IN OUT
import vqboot
from vqboot import *
import random
from StringIO import StringIO
import pyslet.qtiv2.core as core
import pyslet.qtiv2.tests as tests
import pyslet.imsqtiv2p1 as qti


def run(r):
    doc = core.QTIDocument()
    doc.Read(src=StringIO(r['xml'].encode('utf-8')))
    r['crash'] = ''
    r['err'] = False
    seen = {}
    random.seed(r['seed'])
    for k in xrange(r['runs']):
        try:
            f = tests.TestForm(doc.root)
        except core.SelectionError:
            r['err'] = True
            continue
        except Exception, e:
            r['crash'] = '%s: %s' % (e.__class__.__name__, str(e)[:200])
            break
        t = tuple(f)
        if t not in seen:
            seen[t] = [{'id': x, 'at': list(f.find(x))} for x in sorted(set(t)) + ['nosuch']]
            if len(f) != len(t) or [f[j] for j in xrange(len(t))] != list(t):
                r['crash'] = 'the form is not the sequence of its components'
            for x in set(t):
                if f.index(x) != t.index(x):
                    r['crash'] = 'index(%r)' % x
    r['forms'] = [{'q': list(t), 'find': seen[t]} for t in sorted(seen)]
    return r


if __name__ == '__main__':
    log = Log(sys.argv[2])
    for r in lines(sys.argv[1]):
        log.put(run(r))
    log.close()
