PROPERTY = 'D04'
NEEDS = 'a page requested with both a skip token and an additional skip'
BREAKS = 'the position given by the skip token is lost when $skip is used with it'
EDITS = [('pyslet/pyslet/odata2/csdl.py', '''			eMin=self.skip+eMin
		if self.topmax:''', '''			eMin=self.skip or eMin
		if self.topmax:''')]
DEMO = r'''
from StringIO import StringIO
import pyslet.odata2.edmx as edmx, pyslet.odata2.memds as memds
X = """<?xml version="1.0"?><edmx:Edmx Version="1.0" xmlns:edmx="http://schemas.microsoft.com/ado/2007/06/edmx">
<edmx:DataServices m:DataServiceVersion="2.0" xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata">
<Schema Namespace="M" xmlns="http://schemas.microsoft.com/ado/2006/04/edm"><EntityContainer Name="C" m:IsDefaultEntityContainer="true">
<EntitySet Name="A" EntityType="M.A"/></EntityContainer>
<EntityType Name="A"><Key><PropertyRef Name="ID"/></Key><Property Name="ID" Type="Edm.Int32" Nullable="false"/></EntityType></Schema></edmx:DataServices></edmx:Edmx>"""
doc = edmx.Document()
doc.Read(StringIO(X))
c = doc.root.DataServices['M.C']
store = memds.InMemoryEntityContainer(c)
with c['A'].OpenCollection() as cs:
    for k in range(10):
        e = cs.NewEntity()
        e.SetKey(k)
        cs.InsertEntity(e)
    cs.TopMax(3)
    cs.SetPage(None, 0)
    a = [e.Key() for e in cs.iterpage()]
    cs.SetPage(None, 2, cs.NextSkipToken())
    b = [e.Key() for e in cs.iterpage()]
print a, b
sys.exit(0 if b == [5, 6, 7] else 1)
'''
