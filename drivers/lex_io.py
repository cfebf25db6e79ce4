# Schema simple types in the real code: lex_io.py IN OUT
import vqboot
from vqboot import *
import pyslet.xsdatatypes20041028 as xsi

u = lambda s: s if isinstance(s, unicode) else unicode(s)
CODECS = {'int': (xsi.DecodeInteger, xsi.EncodeInteger), 'bool': (xsi.DecodeBoolean, xsi.EncodeBoolean), 'dec': (xsi.DecodeDecimal, xsi.EncodeDecimal),
          'dbl': (xsi.DecodeDouble, xsi.EncodeDouble), 'flt': (xsi.DecodeFloat, xsi.EncodeFloat),
          'replace': (xsi.WhiteSpaceReplace, u), 'collapse': (xsi.WhiteSpaceCollapse, u)}


def enum(r):
    class E(xsi.Enumeration):
        decode = {}
    names, aliases = {}, {}
    for x in r['t']:
        (aliases if x['v'] in names.values() else names)[text(x['n'])] = x['v']
    E.decode = dict(names)
    xsi.MakeEnumeration(E)
    xsi.MakeEnumerationAliases(E, dict((a, [n for n in names if names[n] == v][0]) for a, v in aliases.items()))
    f = E.DecodeLowerValue if r['lower'] else E.DecodeValue
    s = text(r['s'])
    r['list'] = E.DecodeValueList(f, s)
    r['enc'] = codes(u(E.EncodeValueList(r['list'])))
    d = E.DecodeValueDict(f, s)
    r['dict'] = [{'v': k, 'w': codes(u(v))} for k, v in d.items()]
    r['denc'] = codes(u(E.EncodeValueDict(d)))


if __name__ == '__main__':
    log = Log(sys.argv[2])
    for r in lines(sys.argv[1]):
        r['st'] = 'ok'
        try:
            if r['k'] == 'enum':
                enum(r)
            else:
                f, g = CODECS[r['k']]
                r['got'] = codes(u(g(f(text(r['s'])))))
        except ValueError, e:
            r['st'] = 'err'
        except Exception, e:
            r['st'] = 'crash %s: %s' % (e.__class__.__name__, str(e)[:200])
        log.put(r)
    log.close()
