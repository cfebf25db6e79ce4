# XML trees in the real code: tree_io.py IN OUT
import vqboot
from vqboot import *
import warnings
warnings.simplefilter('ignore')
import pyslet.xml20081126.structures as xml
import pyslet.xmlnames20091208 as xmlns
from StringIO import StringIO

u = lambda s: s if isinstance(s, unicode) else unicode(s)
XMLURI = xmlns.XML_NAMESPACE


def dump(e):
    if isinstance(e, (str, unicode)):
        return {'k': 't', 't': codes(u(e))}
    n = e.GetXMLName()
    q = {'ns': [], 'n': codes(u(n))} if isinstance(n, (str, unicode)) else {'ns': codes(u(n[0] or '')), 'n': codes(u(n[1]))}
    as_ = []
    d = e.GetAttributes()
    for a in d:
        if isinstance(a, tuple):
            ns = u'' if a[0] in (None, xmlns.NO_NAMESPACE) else u(a[0])
            an = {'ns': codes(ns), 'n': codes(u(a[1]))}
        elif a.startswith('xml:'):
            an = {'ns': codes(u(XMLURI)), 'n': codes(u(a[4:]))}
        else:
            an = {'ns': [], 'n': codes(u(a))}
        as_.append({'q': an, 'v': codes(u(d[a]))})
    return {'k': 'e', 'q': q, 'as': as_, 'cs': [dump(c) for c in e.GetChildren()]}


def fill(e, t, ns, late=None):
    for a in t['as']:
        an, av = a['q'], text(a['v'])
        if ns:
            e.SetAttribute((text(an['ns']) or xmlns.NO_NAMESPACE, text(an['n'])), av)
        else:
            e.SetAttribute((u'xml:' if an['ns'] else u'') + text(an['n']), av)
    for u_, p in t.get('pf', []):
        if ns and text(p) not in e.prefixToNS:
            e.MakePrefix(text(u_), text(p))
    for c in t['cs']:
        if c['k'] == 't':
            e.AddData(text(c['t']))
        elif late is not None and c.get('late'):
            late.append((e, c))
        else:
            child(e, c, ns, late)


class Inner(xml.Element):        # elements only
    XMLCONTENT = xml.ElementContent


class NSInner(xmlns.XMLNSElement):
    XMLCONTENT = xml.ElementContent


def child(e, c, ns, late=None):
    if ns:
        fill(e.ChildElement(NSInner if c.get('ec') else xmlns.XMLNSElement, (text(c['q']['ns']) or None, text(c['q']['n']))), c, ns, late)
    else:
        fill(e.ChildElement(Inner if c.get('ec') else xml.Element, text(c['q']['n'])), c, ns, late)


def build(t, ns, late=None):
    doc = xmlns.XMLNSDocument() if ns else xml.Document()
    name = (text(t['q']['ns']) or None, text(t['q']['n'])) if ns else text(t['q']['n'])
    fill(doc.ChildElement((NSInner if t.get('ec') else xmlns.XMLNSElement) if ns else Inner if t.get('ec') else xml.Element, name), t, ns, late)
    return doc


def parse(s, ns):
    doc = xmlns.XMLNSDocument() if ns else xml.Document()
    doc.Read(src=StringIO(s.encode('utf-8')))
    return doc


def write(r):
    ns = r['ns']
    late = []
    doc = build(r['tree'], ns, late)
    if late:
        # some elements are added after the document has been written once
        try:
            unicode(doc)
        except Exception:
            pass
        for e, c in late:
            child(e, c, ns)
    r['out'] = []
    def tabless(doc):
        s = StringIO()
        doc.WriteXML(s, tab='')
        return u(s.getvalue())
    def part(doc):      # an element on its own
        s = StringIO()
        doc.root.WriteXML(s, root=True)
        return u(s.getvalue())
    def inner(doc):
        e = doc.root
        for j in r['path']:
            e = [x for x in e.GetChildren() if not isinstance(x, (str, unicode))][j]
        s = StringIO()
        e.WriteXML(s, root=True)
        return u(s.getvalue()).lstrip()
    for how, f in (('unicode', unicode), ('str', lambda d: u(str(d))), ('tab', tabless), ('root', part), ('inner', inner)):
        if how == 'str' and not r['ascii']:
            continue
        o = {'how': how, 'text': [], 'st': 'ok', 'back': []}
        try:
            s = f(doc)
            o['text'] = codes(s)
            o['back'] = [dump(parse(s, ns).root)]
        except Exception, e:
            o['st'] = 'crash %s: %s' % (e.__class__.__name__, str(e)[:200])
        r['out'].append(o)
    r['copy'] = []
    r['why'] = ''
    try:
        d2 = xmlns.XMLNSDocument() if ns else xml.Document()
        r['copy'] = [dump(doc.root.Copy(d2) if r['into'] else doc.root.Copy())]
        if r['into']:
            o = {'how': 'copy', 'text': [], 'st': 'ok', 'back': []}
            r['out'].append(o)
            s = unicode(d2)
            o['text'] = codes(s)
            o['back'] = [dump(parse(s, ns).root)]
    except Exception, e:
        r['why'] = 'crash %s: %s' % (e.__class__.__name__, str(e)[:200])


def read(r):
    r['tree'] = []
    r['why'] = ''
    try:
        doc = parse(text(r['text']), True)
        r['tree'] = [dump(doc.root)]
        r['st'] = 'ok'
    except xml.XMLFatalError, e:
        r['st'] = 'err'
        r['why'] = str(e)[:200]
    except Exception, e:
        r['st'] = 'crash %s: %s' % (e.__class__.__name__, str(e)[:200])


def sign(n):
    return (n > 0) - (n < 0)


if __name__ == '__main__':
    log = Log(sys.argv[2])
    for r in lines(sys.argv[1]):
        if r['op'] == 'write':
            write(r)
        elif r['op'] == 'read':
            read(r)
        else:
            r['why'] = ''
            try:
                a, b = build(r['a'], r['ns']), build(r['b'], r['ns'])
                r['ab'], r['ba'] = sign(cmp(a.root, b.root)), sign(cmp(b.root, a.root))
            except Exception, e:
                r['ab'], r['ba'] = 70, 70
                r['why'] = '%s: %s' % (e.__class__.__name__, str(e)[:200])
        log.put(r)
    log.close()
