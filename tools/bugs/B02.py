PROPERTY = 'D02'
NEEDS = 'a deletion of the entity by another thread between the moment an update has read the stored values and the moment it writes them back'
BREAKS = 'an update racing with a deletion brings the deleted entity back to life'
EDITS = [('pyslet/pyslet/odata2/memds.py', '''		with self.container.lock:
			value=list(self.data[key])		
			i=0
''', '''		value=list(self.data[key])
		with self.container.lock:
			i=0
'''), ('pyslet/pyslet/odata2/memds.py', '''		key=entity.Key()
		with self.entityStore.container.lock:
			self.entityStore.UpdateEntity(entity)
			# now process any bindings
			self.UpdateBindings(entity)
''', '''		key=entity.Key()
		self.entityStore.UpdateEntity(entity)
		with self.entityStore.container.lock:
			# now process any bindings
			self.UpdateBindings(entity)
''')]
DEMO = r'''
import threading
from StringIO import StringIO
import pyslet.odata2.edmx as edmx, pyslet.odata2.memds as memds
X = """<?xml version="1.0"?><edmx:Edmx Version="1.0" xmlns:edmx="http://schemas.microsoft.com/ado/2007/06/edmx">
<edmx:DataServices m:DataServiceVersion="2.0" xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata">
<Schema Namespace="M" xmlns="http://schemas.microsoft.com/ado/2006/04/edm"><EntityContainer Name="C" m:IsDefaultEntityContainer="true">
<EntitySet Name="A" EntityType="M.A"/></EntityContainer>
<EntityType Name="A"><Key><PropertyRef Name="ID"/></Key><Property Name="ID" Type="Edm.Int32" Nullable="false"/>
<Property Name="V" Type="Edm.Int32" Nullable="true"/></EntityType></Schema></edmx:DataServices></edmx:Edmx>"""
doc = edmx.Document()
doc.Read(StringIO(X))
c = doc.root.DataServices['M.C']
store = memds.InMemoryEntityContainer(c)


class Lock(object):
    """the container lock; the other thread runs right before the first acquisition"""
    def __init__(self, lock):
        self.lock, self.armed, self.me, self.depth = lock, False, threading.currentThread(), 0

    def __enter__(self):
        if self.armed and threading.currentThread() is self.me and self.depth == 0:
            self.armed = False
            t = threading.Thread(target=other)
            t.start()
            t.join()
        self.lock.acquire()
        if threading.currentThread() is self.me:
            self.depth += 1
        return self

    def __exit__(self, *a):
        if threading.currentThread() is self.me:
            self.depth -= 1
        self.lock.release()

    acquire = __enter__

    def release(self):
        self.__exit__()


def other():
    with c['A'].OpenCollection() as oc:
        del oc[5]


with c['A'].OpenCollection() as cs:
    e = cs.NewEntity()
    e.SetKey(5)
    e['V'].SetFromValue(1)
    cs.InsertEntity(e)
    e = cs[5]
    e['V'].SetFromValue(2)
    store.lock = Lock(store.lock)
    store.lock.armed = True
    try:
        cs.UpdateEntity(e)
    except KeyError:
        pass
    alive = 5 in cs
print 'deleted entity alive:', alive
sys.exit(1 if alive else 0)
'''
