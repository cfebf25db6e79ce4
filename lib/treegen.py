"""Random XML trees and documents with namespaces (specs/tree)."""
import copy
import xml.parsers.expat

XMLURI = 'http://www.w3.org/XML/1998/namespace'
NSURI = 'http://www.w3.org/2000/xmlns/'
URIS = ['u:a', 'u:b', 'http://x/?a=1&b="2"', "u:'q'", 'ns1', 'u:\xe9']
NAMES = ['a', 'b', 'c', 'ns1', 'x-y', 'A', '_1', 'xmlnsa', '~n']
TEXTS = ['x', 'y z', ' x', 'x ', '  ', ' ', '\n', '\t', '\r', '\r\n', 'a&b', '<', ']]>', '"', "'", '\'"', '&amp;', '\xe9', '\u20ac', '\U00010400', 'x\n\ty', 'x  y', '', '&#13;', '\x85', '\u2028', '>']


def c(s):
    return [ord(x) for x in s]


def expat_tree(s):
    """the qualified tree of a document as expat reads it, [] if it does not"""
    stack = [{'cs': []}]
    p = xml.parsers.expat.ParserCreate()
    p.ordered_attributes = True
    p.buffer_text = True

    def start(q, a):
        e = {'k': 'e', 'q': c(q), 'as': [{'q': c(a[i]), 'v': c(a[i + 1])} for i in range(0, len(a), 2)], 'cs': []}
        stack[-1]['cs'].append(e)
        stack.append(e)

    def data(d):
        stack[-1]['cs'].append({'k': 't', 't': c(d)})
    p.StartElementHandler = start
    p.EndElementHandler = lambda q: stack.pop()
    p.CharacterDataHandler = data
    try:
        p.Parse(s, True)
    except xml.parsers.expat.ExpatError:
        return []
    return stack[0]['cs']


class G(object):
    def __init__(self, r):
        self.r = r

    def text(self):
        if self.r.random() < 0.1:
            return ''.join(self.r.choice('\'"\'" <&>') for _ in range(self.r.randrange(1, 6)))
        return ''.join(self.r.choice(TEXTS) for _ in range(self.r.choice([1, 1, 2, 3])))

    def name(self, high=False):
        r = self.r
        if high and r.random() < 0.1:
            return r.choice(['\xe9', 'a\u20ac'[:1] + '\xb7', '\u03b1'])
        return r.choice([n for n in NAMES if n[0] != '~'])

    def tree(self, ns, high, depth=3, spaces=True):
        r = self.r
        uri = lambda p: r.choice(URIS) if ns and r.random() < p else ''
        as_, seen = [], set()
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            a = (uri(0.5), self.name(high))
            if a not in seen:
                seen.add(a)
                as_.append({'q': {'ns': c(a[0]), 'n': c(a[1])}, 'v': c(self.text() if r.random() < 0.8 else '')})
        if spaces and r.random() < (0.3 if depth > 1 else 0.1):
            as_.append({'q': {'ns': c(XMLURI), 'n': c('space')}, 'v': c(r.choice(['preserve', 'preserve', 'default']))})
        if r.random() < 0.1:
            as_.append({'q': {'ns': c(XMLURI), 'n': c('lang')}, 'v': c(r.choice(['en', '']))})
        t = {'k': 'e', 'q': {'ns': c(uri(0.7)), 'n': c(self.name(high))}, 'as': as_, 'cs': []}
        if ns:
            t['pf'] = [[c(r.choice(URIS)), c(r.choice(['', 'p', 'q', 'ns1', 'ns2']))]] if r.random() < 0.2 else []
        last = 'e'
        words = 0.45 if r.random() < 0.6 else 0
        for _ in range(r.choice([0, 1, 1, 2, 3, 4]) if depth else r.choice([0, 0, 1])):
            if last == 'e' and r.random() < words or not depth:
                x = self.text()
                if x:
                    t['cs'].append({'k': 't', 't': c(x)})
                    last = 't'
            else:
                t['cs'].append(self.tree(ns, high, depth - 1, spaces))
                last = 'e'
            if not depth:
                break
        return t

    def spine(self, ns, high, depth=4):
        """elements in elements, and white space that is preserved somewhere"""
        t = self.tree(ns, high, 0)
        t['as'] = [a for a in t['as'] if a['q']['ns'] != c(XMLURI)]
        if self.r.random() < 0.3:
            t['as'].append({'q': {'ns': c(XMLURI), 'n': c('space')}, 'v': c(self.r.choice(['preserve', 'preserve', 'default']))})
        if depth:
            t['cs'] = [self.spine(ns, high, depth - 1)]
            if self.r.random() < 0.2:
                t['cs'].append({'k': 't', 't': c(self.text() or ' ')} if self.r.random() < 0.5 else self.tree(ns, high, 0))
        return t

    def path(self, t):
        cs = [x for x in t['cs'] if x['k'] == 'e']
        if not cs or self.r.random() < 0.3:
            return []
        j = self.r.randrange(len(cs))
        return [j] + self.path(cs[j])

    def inner(self, t):
        """marks some that hold only elements"""
        if all(x['k'] == 'e' for x in t['cs']):
            t['ec'] = True
        for x in t['cs']:
            if x['k'] == 'e' and self.r.random() < 0.9:
                self.inner(x)
        return t

    def late(self, t):
        """marks some last children"""
        cs = t['cs']
        for e in cs:
            if e['k'] == 'e':
                self.late(e)
        if cs and cs[-1]['k'] == 'e' and self.r.random() < 0.4:
            cs[-1]['late'] = True
        return t

    def change(self, t, ns=True):
        """a tree with one small difference, perhaps"""
        t = copy.deepcopy(t)
        r = self.r
        e = t
        while True:
            cs = [x for x in e['cs'] if x['k'] == 'e']
            if not cs or r.random() < 0.4:
                break
            e = r.choice(cs)
        y = r.randrange(9)
        if not ns and y in (0, 4):
            y = 1
        if y == 0:
            e['q']['ns'] = c(r.choice(URIS))
        elif y == 1:
            e['q']['n'] = c(self.name())
        elif y == 2 and e['as']:
            r.choice(e['as'])['v'] = c(self.text())
        elif y == 3 and e['as']:
            del e['as'][r.randrange(len(e['as']))]
        elif y == 4 and e['as']:
            a = r.choice(e['as'])
            ns = c(r.choice(URIS + ['']))
            if not any(x['q'] == {'ns': ns, 'n': a['q']['n']} for x in e['as']):
                a['q']['ns'] = ns
        elif y == 5 and e['cs']:
            del e['cs'][r.randrange(len(e['cs']))]
        elif y == 6:
            e['cs'].append({'k': 't', 't': c(self.text() or 'z')})
        elif y == 7 and e['cs']:
            i = r.randrange(len(e['cs']))
            if e['cs'][i]['k'] == 't':
                e['cs'][i]['t'] = c(self.text() or 'z')
            else:
                e['cs'].insert(i, copy.deepcopy(e['cs'][i]))
        return t

    # ------------------------------------------------- qualified documents
    def qname(self):
        r = self.r
        p = r.choice(['', '', '', 'p', 'p', 'q', 'xml'] if r.random() < 0.93 else ['xmlns', 'z', 'p:q', ':', ''])
        n = r.choice(['a', 'b', 'xmlns', 'c', 'd']) if r.random() < 0.98 else r.choice(['1', '-', 'a:', ''])
        if p == ':':
            return ':a'
        return p + ':' + (n or 'a') if p else (n if n and n[0] in 'abcdx' else 'a')

    def qtree(self, depth=3, top=True):
        r = self.r
        as_ = {}
        if top and r.random() < 0.9:
            as_['xmlns:p'] = r.choice(URIS[:3])
            as_['xmlns:q'] = r.choice(URIS[:2])
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            p = r.choice(['', '', 'p', 'q', 'z'])
            u = r.choice(URIS[:3] + ([''] if not p else []))
            if r.random() < 0.04:
                p, u = r.choice([('xml', XMLURI), ('xml', 'u:a'), ('xmlns', NSURI), ('xmlns', 'u:a'), ('', XMLURI), ('', NSURI), ('p', ''), ('p', XMLURI), ('a:b', 'u:a'), ('1', 'u:a')])
            as_['xmlns:' + p if p else 'xmlns'] = u
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            q = self.qname()
            if not (q == 'xmlns' or q.startswith('xmlns:')):
                as_.setdefault(q, r.choice(['', 'v', 'w']))
        q = self.qname()
        e = {'k': 'e', 'q': c(q), 'as': [{'q': c(k), 'v': c(v)} for k, v in as_.items()], 'cs': []}
        for _ in range(r.choice([0, 1, 1, 2, 3]) if depth else 0):
            if r.random() < 0.2 and (not e['cs'] or e['cs'][-1]['k'] == 'e'):
                e['cs'].append({'k': 't', 't': c('x')})
            else:
                e['cs'].append(self.qtree(depth - 1, False))
        return e


def qtext(e):
    t = lambda s: ''.join(map(chr, s))
    esc = lambda s: s.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')
    if e['k'] == 't':
        return esc(t(e['t']))
    return '<%s%s>%s</%s>' % (t(e['q']), ''.join(' %s="%s"' % (t(a['q']), esc(t(a['v']))) for a in e['as']), ''.join(map(qtext, e['cs'])), t(e['q']))
