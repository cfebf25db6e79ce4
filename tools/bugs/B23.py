import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from B21 import MODEL
PROPERTY = 'D06'
NEEDS = 'a PUT of a single link to a navigation property that leads to many'
BREAKS = 'instead of being refused, the request replaces all the links there are'
EDITS = [('pyslet/pyslet/odata2/server.py', '''					if parentEntity[request.linksProperty].isCollection:
						raise BadURISegment("%s: can't update a link with multiplicity *"%request.linksProperty)
					with''', '''					with''')]
DEMO = MODEL + r'''
for s, i, b in (('Bs', 1, None), ('Bs', 2, None), ('Bs', 3, None), ('As', 1, [1, 2])):
    with box[s].OpenCollection() as c:
        e = c.NewEntity()
        e.SetKey(i)
        for k in b or []:
            e['Bs'].BindEntity(k)
        c.InsertEntity(e)
r = send('PUT', 'As(1)/$links/Bs', '{"uri": "http://h/s.svc/Bs(3)"}', CONTENT_TYPE='application/json')
with box['As'].OpenCollection() as c:
    with c[1]['Bs'].OpenCollection() as n:
        ks = sorted(n.keys())
print r, ks
sys.exit(0 if 400 <= r[0] < 500 and ks == [1, 2] else 1)
'''
