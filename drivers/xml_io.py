# Parses documents with the real XML parser: xml_io.py IN OUT
import vqboot
from vqboot import *
import warnings
warnings.simplefilter('ignore')
import threading
import pyslet.xml20081126.structures as xml
import pyslet.xml20081126.parser as xmlp


def u(s):
    return s if isinstance(s, unicode) else unicode(s)


def events(e, out):
    at = e.GetAttributes()
    out.append({'k': 's', 'n': codes(u(e.GetXMLName())), 't': [], 'a': [[codes(u(n)), codes(u(v))] for n, v in at.items()]})
    for c in e.GetChildren():
        if isinstance(c, xml.Element):
            events(c, out)
        elif len(c):
            out.append({'k': 't', 'n': [], 'a': [], 't': codes(u(c))})
    out.append({'k': 'e', 'n': [], 'a': [], 't': []})


class Runaway(Exception):
    pass


class Parser(xmlp.XMLParser):
    """the real parser, with a limit on the number of steps taken"""
    def __init__(self, e):
        xmlp.XMLParser.__init__(self, e)
        self.vq_n = 0

    def NextChar(self):
        self.vq_n += 1
        if self.vq_n > 20000:
            raise Runaway()
        return xmlp.XMLParser.NextChar(self)

    def BuffText(self, s):
        self.vq_n += 1
        if self.vq_n > 20000:
            raise Runaway()
        return xmlp.XMLParser.BuffText(self, s)


CHUNK = xml.XMLEntity.ChunkSize
ENC = {'': None, 'utf8': ('', 'utf-8'), 'utf8bom': ('\xef\xbb\xbf', 'utf-8'), 'utf16le': ('\xff\xfe', 'utf-16-le'),
       'utf16be': ('\xfe\xff', 'utf-16-be'), 'latin1': ('', 'latin-1')}


def one(r):
    try:
        xml.XMLEntity.ChunkSize = r['chunk'] or CHUNK
        enc = ENC[r['enc']]
        src = text(r['src'])
        ent = xml.XMLEntity(enc[0] + src.encode(enc[1]) if enc else src)
        p = Parser(ent)
        doc = p.ParseDocument(xml.Document())
        ev = []
        events(doc.root, ev)
        return {'src': r['src'], 'enc': r['enc'], 'chunk': r['chunk'], 'res': 'ok', 'ev': ev, 'err': ''}
    except xml.XMLFatalError, e:
        return {'src': r['src'], 'enc': r['enc'], 'chunk': r['chunk'], 'res': 'nwf', 'ev': [], 'err': str(e.__class__.__name__)}
    except xml.XMLForbiddenEntityReference, e:
        return {'src': r['src'], 'enc': r['enc'], 'chunk': r['chunk'], 'res': 'nwf', 'ev': [], 'err': str(e.__class__.__name__)}
    except Exception, e:
        return {'src': r['src'], 'enc': r['enc'], 'chunk': r['chunk'], 'res': 'exc', 'ev': [], 'err': '%s: %s' % (e.__class__.__name__, repr(e)[:200])}


if __name__ == '__main__':
    log = Log(sys.argv[2])
    for r in lines(sys.argv[1]):
        log.put(one(r))
    log.close()
