# Character classes and schema regular expressions in the real code: re_io.py IN OUT
import vqboot
from vqboot import *
import re
from pyslet.unicode5 import CharClass
from pyslet.xsdatatypes20041028 import RegularExpression, RegularExpressionError


def cc(r):
    regs = [CharClass(), CharClass(), CharClass()]
    r['regs'] = []
    r['st'] = 'ok'
    try:
        for o in r['ops']:
            c = regs[o['r'] - 1]
            k = o['o']
            if k == 'range':
                c.AddRange(unichr(o['a']), unichr(o['z']))
            elif k == 'unrange':
                c.SubtractRange(unichr(o['a']), unichr(o['z']))
            elif k == 'char':
                c.AddChar(unichr(o['a']))
            elif k == 'unchar':
                c.SubtractChar(unichr(o['a']))
            elif k == 'add':
                c.AddClass(regs[o['q'] - 1])
            elif k == 'sub':
                c.SubtractClass(regs[o['q'] - 1])
            elif k == 'neg':
                c.Negate()
            elif k == 'copy':
                regs[o['r'] - 1] = CharClass(regs[o['q'] - 1])
            elif k == 'new':
                regs[o['r'] - 1] = CharClass(text(o['cs']))
            r['regs'].append([[[ord(a), ord(z)] for a, z in x.ranges] for x in regs])
        r['eq'] = [[bool(x == y) for y in regs] for x in regs]
        r['test'] = [[p for p in r['probes'] if x.Test(unichr(p))] for x in regs]
        ms = [re.compile(unicode(x)) for x in regs]
        r['re'] = [[p for p in r['probes'] if m.match(unichr(p))] for m in ms]
        ys = [eval(repr(x)) for x in regs]
        r['rep'] = [[p for p in r['probes'] if x.Test(unichr(p))] for x in ys]
    except Exception, e:
        if isinstance(e, ValueError) and 'unpaired surrogate' in str(e):
            # this platform cannot write classes whose ranges end among the surrogates
            r['st'] = 'surrogate'
            return
        r['st'] = 'crash %s: %s' % (e.__class__.__name__, str(e)[:200])


def regex(r):
    r['got'] = []
    r['st'] = 'ok'
    try:
        x = RegularExpression(text(r['src']))
        r['got'] = [int(bool(x.Match(text(t)))) for t in r['ts']]
    except RegularExpressionError, e:
        r['st'] = 'err'
        r['why'] = str(e)[:200]
    except Exception, e:
        if isinstance(e, ValueError) and 'unpaired surrogate' in str(e):
            r['st'] = 'surrogate'
            return
        r['st'] = 'crash'
        r['why'] = '%s: %s' % (e.__class__.__name__, str(e)[:200])


if __name__ == '__main__':
    log = Log(sys.argv[2])
    for r in lines(sys.argv[1]):
        (cc if r['op'] == 'cc' else regex)(r)
        log.put(r)
    log.close()
