PROPERTY = 'D01'
NEEDS = 'an entity deleted while linked, then another entity inserted with the same key'
BREAKS = 'deleting an entity leaves its own link list behind: an entity inserted later with that key starts with links nobody made, and they are one-sided'
EDITS = [('pyslet/pyslet/odata2/memds.py', '''					del self.reverseIndex[toKey]
			del self.index[fromKey]			
''', '''					del self.reverseIndex[toKey]
			if not toKeys:
				del self.index[fromKey]			
''')]
DEMO = r'''
from StringIO import StringIO
import pyslet.odata2.edmx as edmx, pyslet.odata2.memds as memds
X = """<?xml version="1.0"?><edmx:Edmx Version="1.0" xmlns:edmx="http://schemas.microsoft.com/ado/2007/06/edmx">
<edmx:DataServices m:DataServiceVersion="2.0" xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata">
<Schema Namespace="M" xmlns="http://schemas.microsoft.com/ado/2006/04/edm"><EntityContainer Name="C" m:IsDefaultEntityContainer="true">
<EntitySet Name="A" EntityType="M.A"/><EntitySet Name="B" EntityType="M.B"/>
<AssociationSet Name="AB" Association="M.AB"><End Role="F" EntitySet="A"/><End Role="T" EntitySet="B"/></AssociationSet></EntityContainer>
<EntityType Name="A"><Key><PropertyRef Name="ID"/></Key><Property Name="ID" Type="Edm.Int32" Nullable="false"/>
<NavigationProperty Name="Bs" Relationship="M.AB" FromRole="F" ToRole="T"/></EntityType>
<EntityType Name="B"><Key><PropertyRef Name="ID"/></Key><Property Name="ID" Type="Edm.Int32" Nullable="false"/>
<NavigationProperty Name="As" Relationship="M.AB" FromRole="T" ToRole="F"/></EntityType>
<Association Name="AB"><End Role="F" Type="M.A" Multiplicity="*"/><End Role="T" Type="M.B" Multiplicity="*"/></Association>
</Schema></edmx:DataServices></edmx:Edmx>"""
doc = edmx.Document()
doc.Read(StringIO(X))
c = doc.root.DataServices['M.C']
store = memds.InMemoryEntityContainer(c)
with c['B'].OpenCollection() as bs:
    for i in (1, 2):
        b = bs.NewEntity()
        b.SetKey(i)
        bs.InsertEntity(b)
with c['A'].OpenCollection() as cs:
    a = cs.NewEntity()
    a.SetKey(5)
    a['Bs'].BindEntity(1)
    cs.InsertEntity(a)
    del cs[5]
    a = cs.NewEntity()
    a.SetKey(5)
    cs.InsertEntity(a)
    with cs[5]['Bs'].OpenCollection() as nc:
        n = len(nc)
print 'links of the new entity:', n
sys.exit(1 if n else 0)
'''
