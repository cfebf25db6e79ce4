# Sends HTTP requests to the WSGI application of the real OData server and records responses and the store.
import vqboot
import sys, re, base64, traceback, urllib
from StringIO import StringIO
import pyslet.odata2.csdl as edm
import pyslet.odata2.edmx as edmx
import pyslet.odata2.metadata as metadata
import pyslet.odata2.memds as memds
import pyslet.odata2.core as core
import pyslet.odata2.server as server
import pyslet.rfc2616 as http

ROOT = 'http://host/service.svc'
SETS = ['Customers', 'Orders', 'Lines', 'Docs']
PROPS = [['CID', 'Name', 'Rank', 'Addr.Street', 'Addr.City', 'Ver'], ['OID', 'Note', 'Qty'], ['OID', 'Num', 'Text'], ['DID', 'Title', 'Ver']]
NKEY = [1, 1, 2, 1]
# associations: the set, its property, the other set
LINKS = [(1, 'Customer', 0), (2, 'Order', 1), (0, 'Photo', 3)]


def enc(v):
    if v is None:
        return []
    if isinstance(v, (int, long)):
        return [1, int(v)]
    if isinstance(v, unicode):
        return [2] + vqboot.codes(v)
    return [3] + [ord(c) for c in v]


def dec(v):
    if not v:
        return None
    if v[0] == 1:
        return v[1]
    if v[0] == 2:
        return vqboot.text(v[1:])
    return ''.join(map(chr, v[1:]))


def prop(e, n):
    for p in n.split('.'):
        e = e[p]
    return e


def rawkey(si, vals):
    vs = [dec(v) for v in vals]
    return vs[0] if len(vs) == 1 else tuple(vs)


def keyof(k):
    return [enc(x) for x in k] if isinstance(k, tuple) else [enc(k)]


class Service(object):
    def __init__(self, model, init, topmax):
        doc = metadata.Document()
        doc.Read(StringIO(model.encode('utf-8')))
        self.svc = server.Server(ROOT)
        self.svc.SetModel(doc)
        if topmax:
            self.svc.topmax = topmax
        self.cdef = doc.root.DataServices['M.Box']
        self.store = memds.InMemoryEntityContainer(self.cdef)
        for x in init:
            with self.cdef[SETS[x['s']]].OpenCollection() as c:
                e = c.NewEntity()
                for n, v in zip(PROPS[x['s']], x['v']):
                    prop(e, n).SetFromValue(dec(v))
                for n, k in x['b']:
                    e[n].BindEntity(rawkey(0, k))
                c.InsertEntity(e)
                if x['m']:
                    e.SetStreamFromGenerator(http.MediaType.FromString(str(x['m'][0])), [''.join(map(chr, x['m'][1]))])

    def view(self):
        rows, links, streams = [], [[] for _ in LINKS], []
        for si, name in enumerate(SETS):
            rs = []
            with self.cdef[name].OpenCollection() as c:
                for e in c.itervalues():
                    r = [enc(prop(e, n).value) for n in PROPS[si]]
                    rs.append(r)
                    for li, (s, n, _) in enumerate(LINKS):
                        if s == si:
                            with e[n].OpenCollection() as nc:
                                for t in nc.keys():
                                    links[li].append([r[:NKEY[si]], keyof(t)])
                    if si == 3:
                        streams.append([4, r[:1], [str(e.GetStreamType()), [ord(ch) for ch in ''.join(e.GetStreamGenerator())]]])
            rs.sort()
            rows.append(rs)
        return {'e': rows, 'l': [sorted(x) for x in links], 'm': sorted(streams)}

    def send(self, m, uri, h, body):
        if uri.startswith('http://host'):
            uri = uri[len('http://host'):]
        out = {'code': 0, 'h': {}}
        env = {'REQUEST_METHOD': str(m), 'SCRIPT_NAME': '', 'PATH_INFO': urllib.unquote(str(uri.split('?', 1)[0])),
               'QUERY_STRING': str(uri.split('?', 1)[1]) if '?' in uri else None,
               'SERVER_NAME': '127.0.0.1', 'SERVER_PORT': '80', 'SERVER_PROTOCOL': 'HTTP/1.0', 'wsgi.version': (1, 0),
               'wsgi.input': StringIO(body), 'wsgi.errors': StringIO(), 'wsgi.multithread': True, 'wsgi.multiprocess': True, 'wsgi.run_once': False}
        if body or m in ('POST', 'PUT'):
            env['CONTENT_LENGTH'] = str(len(body))
        for k, v in h.items():
            k = str(k).upper().replace('-', '_')
            env[k if k == 'CONTENT_TYPE' else 'HTTP_' + k] = str(v)

        def start(status, headers, exc=None):
            out['code'] = int(status.split(' ')[0])
            for a, b in headers:
                out['h'][a.lower()] = str(b)
        err = sys.stderr
        sys.stderr = StringIO()
        try:
            data = ''.join(self.svc(env, start))
            if isinstance(data, unicode):
                data = data.encode('latin-1')
        except:
            out['code'] = 599
            data = traceback.format_exc()
        out['note'] = sys.stderr.getvalue()[-300:] if out['code'] >= 500 else ''
        sys.stderr = err
        out['body'] = base64.b64encode(data)
        return out, data


def nextlink(data):
    m = re.search(r'<[^<>]*link\b[^<>]*\brel="next"[^<>]*>', data)
    if m:
        return re.search(r'href="([^"]*)"', m.group(0)).group(1).replace('&amp;', '&').replace('&#38;', '&')
    m = re.search(r'"__next"\s*:\s*\{\s*"uri"\s*:\s*("(?:[^"\\]|\\.)*")', data)
    if m:
        return str(vqboot.json.loads(m.group(1)))
    return None


log = vqboot.Log(sys.argv[2])
for rec in vqboot.lines(sys.argv[1]):
    S = Service(rec['model'], rec['init'], rec['topmax'])
    pre = S.view()
    steps = []
    for j, q in enumerate(rec['reqs']):
        rs, data = S.send(q['m'], q['uri'], q['h'], base64.b64decode(q['body']))
        pages = [rs]
        if q['m'] == 'GET' and rs['code'] == 200 and q['follow']:
            while len(pages) < 30:
                u = nextlink(data)
                if not u:
                    break
                # a choice of format made in the URI may not be repeated in the link
                fmt = re.search(r'[?&]\$format=\w+', q['uri'])
                if fmt and '$format=' not in u:
                    u += ('&' if '?' in u else '?') + fmt.group(0)[1:]
                r2, data = S.send('GET', u, dict((k, v) for k, v in q['h'].items()), '')
                r2['uri'] = u
                pages.append(r2)
        post = S.view()
        steps.append({'j': j, 'pre': pre, 'post': post, 'pages': pages, 'loc': 0})
        pre = post
        loc = rs['h'].get('location')
        if rs['code'] == 201 and loc:
            rs, data = S.send('GET', loc, dict((k, v) for k, v in q['h'].items() if k in ('Accept', 'MaxDataServiceVersion')), '')
            post = S.view()
            steps.append({'j': j, 'pre': pre, 'post': post, 'pages': [rs], 'loc': 1})
            pre = post
    log.put({'steps': steps})
log.close()
