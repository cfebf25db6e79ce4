PROPERTY = 'D06'
NEEDS = 'a POST of an Atom entry with an inline feed whose entries themselves have an inline feed (a deep insert two levels deep)'
BREAKS = 'the entries of the inner feed are also inserted in the set of the outer one'
EDITS = [('pyslet/pyslet/odata2/core.py', '''							for entry in link.Inline.Feed.FindChildrenDepthFirst(Entry,subMatch=False):
								# create''', '''							for entry in link.Inline.Feed.FindChildrenDepthFirst(Entry):
								# create''')]
MODEL = r'''
import base64
from StringIO import StringIO
import pyslet.odata2.metadata as metadata, pyslet.odata2.memds as memds, pyslet.odata2.server as server
def ent(n, props, navs):
    return '<EntityType Name="%s"><Key><PropertyRef Name="ID"/></Key><Property Name="ID" Type="Edm.Int32" Nullable="false"/>%s%s</EntityType>' % (
        n, ''.join('<Property Name="%s" Type="Edm.String" Nullable="true"/>' % p for p in props),
        ''.join('<NavigationProperty Name="%s" Relationship="M.%s" FromRole="%s" ToRole="%s"/>' % x for x in navs))
def assoc(n, a, ma, b, mb):
    return '<Association Name="%s"><End Type="M.%s" Multiplicity="%s" Role="%s"/><End Type="M.%s" Multiplicity="%s" Role="%s"/></Association>' % (n, a, ma, a, b, mb, b)
def aset(n, a, b):
    return '<AssociationSet Name="%ss" Association="M.%s"><End EntitySet="%ss" Role="%s"/><End EntitySet="%ss" Role="%s"/></AssociationSet>' % (n, n, a, a, b, b)
X = ('<?xml version="1.0"?><edmx:Edmx Version="1.0" xmlns:edmx="http://schemas.microsoft.com/ado/2007/06/edmx">'
     '<edmx:DataServices m:DataServiceVersion="2.0" xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata">'
     '<Schema Namespace="M" xmlns="http://schemas.microsoft.com/ado/2006/04/edm"><EntityContainer Name="Box" m:IsDefaultEntityContainer="true">'
     '<EntitySet Name="As" EntityType="M.A"/><EntitySet Name="Bs" EntityType="M.B"/><EntitySet Name="Cs" EntityType="M.C"/>'
     + aset('AB', 'A', 'B') + aset('BC', 'B', 'C') + '</EntityContainer>'
     + ent('A', ['P'], [('Bs', 'AB', 'A', 'B')]) + ent('B', ['P'], [('A', 'AB', 'B', 'A'), ('Cs', 'BC', 'B', 'C')]) + ent('C', ['P'], [('B', 'BC', 'C', 'B')])
     + assoc('AB', 'A', '0..1', 'B', '*') + assoc('BC', 'B', '0..1', 'C', '*') + '</Schema></edmx:DataServices></edmx:Edmx>')
doc = metadata.Document()
doc.Read(StringIO(X))
svc = server.Server('http://h/s.svc')
svc.SetModel(doc)
box = doc.root.DataServices['M.Box']
store = memds.InMemoryEntityContainer(box)
def send(m, path, body='', **h):
    out = []
    env = {'REQUEST_METHOD': m, 'SCRIPT_NAME': '', 'PATH_INFO': '/s.svc/' + path.split('?')[0], 'QUERY_STRING': path.split('?')[1] if '?' in path else None,
           'SERVER_NAME': 'h', 'SERVER_PORT': '80', 'SERVER_PROTOCOL': 'HTTP/1.0', 'wsgi.input': StringIO(body), 'wsgi.errors': StringIO(), 'CONTENT_LENGTH': str(len(body))}
    env.update(h)
    data = ''.join(svc(env, lambda s, hs, e=None: out.append((int(s.split()[0]), hs))))
    return out[0][0], data
def keys(n):
    with box[n].OpenCollection() as c:
        return sorted(c.keys())
'''
DEMO = MODEL + r'''
def entry(i, nav='', es=''):
    if nav:
        nav = ('<link rel="http://schemas.microsoft.com/ado/2007/08/dataservices/related/%s" type="application/atom+xml;type=feed" href="x"><m:inline>'
               '<feed><title/><id/><updated>2000-01-01T00:00:00Z</updated>%s</feed></m:inline></link>' % (nav, es))
    return ('<entry xmlns="http://www.w3.org/2005/Atom" xmlns:d="http://schemas.microsoft.com/ado/2007/08/dataservices" '
            'xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata"><id/><title/><updated>2000-01-01T00:00:00Z</updated><author><name/></author>%s'
            '<content type="application/xml"><m:properties><d:ID>%i</d:ID></m:properties></content></entry>' % (nav, i))
r = send('POST', 'As', entry(1, 'Bs', entry(2, 'Cs', entry(3) + entry(4))), CONTENT_TYPE='application/atom+xml')
print r, keys('As'), keys('Bs'), keys('Cs')
sys.exit(0 if r[0] == 201 and (keys('As'), keys('Bs'), keys('Cs')) == ([1], [2], [3, 4]) else 1)
'''
