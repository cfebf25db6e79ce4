PROPERTY = 'D04'
NEEDS = 'iterating page by page with a provider page limit when the first page was requested with a skip'
BREAKS = 'the skip is applied again on every following page, so entities are lost'
EDITS = [('pyslet/pyslet/odata2/csdl.py', '''								self.skip=None
								self.skiptoken=self.nextSkiptoken
''', '''								self.skiptoken=self.nextSkiptoken
''')]
DEMO = r'''
from StringIO import StringIO
import pyslet.odata2.edmx as edmx, pyslet.odata2.memds as memds, pyslet.odata2.core as core
X = """<?xml version="1.0"?><edmx:Edmx Version="1.0" xmlns:edmx="http://schemas.microsoft.com/ado/2007/06/edmx">
<edmx:DataServices m:DataServiceVersion="2.0" xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata">
<Schema Namespace="M" xmlns="http://schemas.microsoft.com/ado/2006/04/edm"><EntityContainer Name="C" m:IsDefaultEntityContainer="true">
<EntitySet Name="A" EntityType="M.A"/></EntityContainer>
<EntityType Name="A"><Key><PropertyRef Name="ID"/></Key><Property Name="ID" Type="Edm.String" Nullable="false"/>
<Property Name="V" Type="Edm.Int32" Nullable="true"/><Property Name="W" Type="Edm.Int32" Nullable="true"/></EntityType></Schema></edmx:DataServices></edmx:Edmx>"""
doc = edmx.Document()
doc.Read(StringIO(X))
c = doc.root.DataServices['M.C']
store = memds.InMemoryEntityContainer(c)
rows = [(u'a', 1, 5), (u'b', 2, 4), (u'c', 1, 3), (u'd', 2, 6)]
with c['A'].OpenCollection() as cs:
    for k, v, w in rows:
        e = cs.NewEntity()
        e.SetKey(k)
        e['V'].SetFromValue(v)
        e['W'].SetFromValue(w)
        cs.InsertEntity(e)
    for i in range(6):
        e = cs.NewEntity()
        e.SetKey(u'e%i' % i)
        e['V'].SetFromValue(i)
        e['W'].SetFromValue(i)
        cs.InsertEntity(e)
    cs.TopMax(2)
    cs.SetPage(None, 1)
    got = []
    for i in range(10):
        got += [e.Key() for e in cs.iterpage(True)]
print got
sys.exit(0 if got == [u'b', u'c', u'd'] + [u'e%i' % i for i in range(6)] else 1)
'''
