From c30f299da25411908434ca264e3556f94223989a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:41 +0000
Subject: [PATCH 001/150] fix: memds: unselected properties must not shift the
 stored values of an inserted entity

---
 pyslet/pyslet/odata2/memds.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index 304bab0..7756a85 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -62,8 +62,7 @@ class InMemoryEntityStore(object):
 		key=e.Key()
 		value=[]
 		for pName in e.DataKeys():
-			if not e.Selected(pName):
-				continue
+			# unselected values are NULL but must still have a place in the tuple
 			p=e[pName]
 			if isinstance(p,edm.Complex):
 				value.append(self.GetTupleFromComplex(p))
-- 
2.43.0


From e9d936b53514395640095e04f92f791c028c45f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:41 +0000
Subject: [PATCH 002/150] fix: memds: refuse to store a media stream for an
 entity that does not exist

---
 pyslet/pyslet/odata2/memds.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index 7756a85..5d1f8ab 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -155,6 +155,8 @@ class InMemoryEntityStore(object):
 
 	def UpdateEntityStream(self,key,streamType,stream):
 		with self.container.lock:
+			if key not in self.data:
+				raise KeyError(repr(key))
 			self.streams[key]=(streamType,stream)
 
 	def GetTupleFromComplex(self,complexValue):
-- 
2.43.0


From 16ac536e06c78e22ebcd6c548d1814ff3faa0d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:45 +0000
Subject: [PATCH 003/150] fix: memds: select rules must not hide values from
 filter and orderby

---
 pyslet/pyslet/odata2/memds.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index 5d1f8ab..80457f4 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -423,13 +423,14 @@ class EntityCollection(odata.EntityCollection):
 			return result
 		
 	def itervalues(self):
-		return self.OrderEntities(
-			self.ExpandEntities(
+		# the select rules must not hide values from filter and orderby
+		return self.ExpandEntities(
+			self.OrderEntities(
 			self.FilterEntities(
-			self.entityStore.GenerateEntities(self.select))))
+			self.entityStore.GenerateEntities())))
 		
 	def __getitem__(self,key):
-		e=self.entityStore.ReadEntity(key,self.select)
+		e=self.entityStore.ReadEntity(key)
 		if e is not None and self.CheckFilter(e):
 			e.Expand(self.expand,self.select)
 			return e
@@ -536,8 +537,8 @@ class NavigationCollection(odata.NavigationCollection):
 			yield self.collection[k]
 		
 	def itervalues(self):
-		return self.OrderEntities(
-			self.ExpandEntities(
+		return self.ExpandEntities(
+			self.OrderEntities(
 			self.FilterEntities(
 			self.entityGenerator())))
 
-- 
2.43.0


From 072d45c7d3f3bfb20eae494db69f6437d4678afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:45 +0000
Subject: [PATCH 004/150] fix: memds: navigation collection lookup by key must
 honour the filter

---
 pyslet/pyslet/odata2/memds.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index 80457f4..d8e7517 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -546,10 +546,7 @@ class NavigationCollection(odata.NavigationCollection):
 		resultSet=self.lookupMethod(self.key)
 		if key in resultSet:
 			result=self.collection[key]
-			if self.filter is None:
-				if self.CheckFilter(result):
-					return result
-			else:
+			if self.CheckFilter(result):
 				return result
 		raise KeyError(key)
 		
-- 
2.43.0


From f432fde5f11cf7af2bcdcc84c7c53eb16f5861d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:04 +0000
Subject: [PATCH 005/150] fix: memds: check constraints and change links
 atomically, also in Replace

---
 pyslet/pyslet/odata2/memds.py | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index d8e7517..8e01473 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -551,6 +551,17 @@ class NavigationCollection(odata.NavigationCollection):
 		raise KeyError(key)
 		
 	def __setitem__(self,key,value):
+		with self.associationIndex.container.lock:
+			self._SetLink(key,value)
+
+	def _CheckSource(self):
+		# the source entity may have been deleted since we were opened
+		store=self.associationIndex.toEntityStore if self.reverse else self.associationIndex.fromEntityStore
+		if self.key not in store.data:
+			raise KeyError("%s no longer exists"%self.fromEntity.GetLocation())
+
+	def _SetLink(self,key,value):
+		self._CheckSource()
 		resultSet=self.lookupMethod(self.key)
 		if key in resultSet:
 			# no operation
@@ -577,20 +588,28 @@ class NavigationCollection(odata.NavigationCollection):
 		#	constraint violation
 		if self.fromMultiplicity==edm.Multiplicity.One or self.toMultiplicity==edm.Multiplicity.One:
 			raise edm.NavigationConstraintError("Can't remove a required link")
-		resultSet=self.lookupMethod(self.key)
-		if key not in resultSet:
-			raise KeyError
-		if self.reverse:
-			self.associationIndex.RemoveLink(key,self.key)
-		else:
-			self.associationIndex.RemoveLink(self.key,key)
+		with self.associationIndex.container.lock:
+			resultSet=self.lookupMethod(self.key)
+			if key not in resultSet:
+				raise KeyError(key)
+			if self.reverse:
+				self.associationIndex.RemoveLink(key,self.key)
+			else:
+				self.associationIndex.RemoveLink(self.key,key)
 
 	def Replace(self,entity):
 		key=entity.Key()
+		with self.associationIndex.container.lock:
+			self._Replace(key,entity)
+
+	def _Replace(self,key,entity):
+		self._CheckSource()
 		resultSet=list(self.lookupMethod(self.key))
 		if resultSet==[key]:
 			# nothing to do!
 			return
+		# forces a check of entity to ensure it is good
+		self.collection[key]=entity
 		if self.fromMultiplicity==edm.Multiplicity.One:
 			if resultSet:
 				# we can't delete these links because we are required
@@ -600,6 +619,8 @@ class NavigationCollection(odata.NavigationCollection):
 		else:
 			# add the new link first
 			if key not in resultSet:
+				if self.fromMultiplicity!=edm.Multiplicity.Many and self.rLookupMethod(key):
+					raise edm.NavigationConstraintError("Entity %s is already bound through this association"%entity.GetLocation())
 				if self.reverse:
 					self.associationIndex.AddLink(key,self.key)
 				else:
-- 
2.43.0


From d4ffc28d1d0ff21745b056d3030eded7e84cf229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:04 +0000
Subject: [PATCH 006/150] fix: memds: a rejected insertion must leave the
 container as it was

---
 pyslet/pyslet/odata2/memds.py | 51 ++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index 8e01473..cbab125 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -10,7 +10,7 @@ import pyslet.xmlnames20091208 as xmlns
 import pyslet.iso8601 as iso8601
 import pyslet.rfc2616 as http
 
-import string, hashlib, threading
+import string, hashlib, threading, contextlib
 
 			
 class InMemoryEntityStore(object):
@@ -397,20 +397,21 @@ class EntityCollection(odata.EntityCollection):
 		suppress a constraint check (on the assumption that it has
 		already been checked) by passing *fromEnd* directly to
 		:py:meth:`Entity.CheckNavigationConstraints`."""
-		try:
-			key=entity.Key()
-		except KeyError:
-			# if the entity doesn't have a key, autogenerate one
-			key=self.entityStore.NextKey()
-			entity.SetKey(key)
-		with self.entityStore.container.lock:
+		with self.entityStore.container.Insertion() as inserted:
 			# This is a bit clumsy, but we lock the whole container while we
-			# check all constraints and perform any nested deletes 
+			# check all constraints and perform any nested inserts 
+			try:
+				key=entity.Key()
+			except KeyError:
+				# if the entity doesn't have a key, autogenerate one
+				key=self.entityStore.NextKey()
+				entity.SetKey(key)
 			if key in self:
 				raise edm.ConstraintError("%s already exists"%odata.ODataURI.FormatEntityKey(entity))
 			# Check constraints
 			entity.CheckNavigationConstraints(fromEnd)
 			self.entityStore.AddEntity(entity)
+			inserted.append((self.entityStore,entity))
 			self.UpdateBindings(entity)
 		
 	def __len__(self):
@@ -517,8 +518,9 @@ class NavigationCollection(odata.NavigationCollection):
 		"""Inserts a new *entity* into the target entity set *and*
 		simultaneously creates a link to it from the source entity."""
 		with self.entitySet.OpenCollection() as baseCollection:
-			baseCollection.InsertEntity(entity,fromEnd=self.fromEnd.otherEnd)
-			self[entity.Key()]=entity
+			with self.associationIndex.container.Insertion():
+				baseCollection.InsertEntity(entity,fromEnd=self.fromEnd.otherEnd)
+				self[entity.Key()]=entity
 
 	def __len__(self):
 		if self.filter is None:
@@ -644,6 +646,8 @@ class InMemoryEntityContainer(object):
 		self.lock=threading.RLock()			#: a lock that must be acquired before modifying any entity or association in this container
 		self.entityStorage={}				#: a mapping from entity set names to :py:class:`InMemoryEntityStore` instances
 		self.associationStorage={}			#: a mapping from association set name to :py:class:`InMemoryAssociationIndex` instances
+		self.inserted=[]					#: the (entity store, entity) tuples added by the insertion in progress
+		self.insertDepth=0
 		# for each entity set in this container, bind some storage
 		for es in self.containerDef.EntitySet:
 			self.entityStorage[es.name]=InMemoryEntityStore(self,es)
@@ -664,4 +668,27 @@ class InMemoryEntityContainer(object):
 					if target is None:
 						raise edm.ModelIncomplete("Target of navigation property %s.%s is not bound to an entity set"%(es.name,np.name))
 					toStorage=self.entityStorage[target.name]
-					self.associationStorage[associationSet.name]=InMemoryAssociationIndex(self,associationSet,fromStorage,toStorage,np.name)
\ No newline at end of file
+					self.associationStorage[associationSet.name]=InMemoryAssociationIndex(self,associationSet,fromStorage,toStorage,np.name)
+
+	@contextlib.contextmanager
+	def Insertion(self):
+		"""A context manager used while inserting an entity.
+		
+		Acquires the container's lock.  A deep insert creates several
+		entities, if it fails those already created are removed
+		again."""
+		with self.lock:
+			mark=len(self.inserted)
+			self.insertDepth+=1
+			try:
+				yield self.inserted
+			except Exception:
+				while len(self.inserted)>mark:
+					entityStore,entity=self.inserted.pop()
+					entityStore.DeleteEntity(entity.Key())
+					entity.exists=False
+				raise
+			finally:
+				self.insertDepth-=1
+				if self.insertDepth==0:
+					self.inserted=[]
-- 
2.43.0


From 04439b4b888c39a8275ccbc7b6f7a836b6a94155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:04 +0000
Subject: [PATCH 007/150] fix: memds: deletion locks the container and checks
 the whole cascade before deleting anything

---
 pyslet/pyslet/odata2/memds.py | 95 +++++++++++++++++++++--------------
 1 file changed, 56 insertions(+), 39 deletions(-)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index cbab125..8aab774 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -247,6 +247,7 @@ class InMemoryAssociationIndex(object):
 		self.name=associationSet.name	#: the name of the association set this index represents
 		self.index={}					#: a dictionary mapping source keys on to sets of target keys
 		self.reverseIndex={}			#: the reverse index mapping target keys on to sets of source keys
+		self.fromEnd=None				#: the :py:class:`csdl.AssociationSetEnd` bound to *fromEntityStore*
 		self.fromEntityStore=fromEntityStore
 		fromEntityStore.AddAssociation(self,reverse=False)
 		self.toEntityStore=toEntityStore
@@ -261,6 +262,7 @@ class InMemoryAssociationIndex(object):
 		If the association is reversible *reverseName* can also be used
 		to bind that property in the entity set bound to
 		:py:attr:`toEntityStore`"""
+		self.fromEnd=self.fromEntityStore.entitySet.navigation[propertyName]
 		self.fromEntityStore.entitySet.BindNavigation(propertyName,NavigationCollection,associationIndex=self,reverse=False)
 		if reverseName is not None:
 			self.toEntityStore.entitySet.BindNavigation(reverseName,NavigationCollection,associationIndex=self,reverse=True)
@@ -450,45 +452,60 @@ class EntityCollection(odata.EntityCollection):
 		"""We do a cascade delete of everything that *must* be linked to
 		us. We don't need to bother about deleting links because the
 		delete hooks on entityStore do this automatically."""
-		if not self.entityStore.StartDeletingEntity(key):
-			# we're already being deleted so do nothing
-			return
-		try:
-			for linkEnd,navName in self.entitySet.linkEnds.iteritems():
-				if linkEnd.associationEnd.multiplicity==edm.Multiplicity.One:
-					# there must be one of us, delete the other end with
-					# the exception that if there is no navigation property
-					# bound to this property then we won't do a cascade delete
-					# We have to go straight to the storage layer to sort
-					# this out. We are allowed to raise
-					# edm.NavigationConstraintError here but then it would
-					# be impossible to delete 1-1 related entities which is
-					# a bit limited
-					associationSetName=linkEnd.parent.name
-					associationIndex=self.entityStore.associations.get(linkEnd.parent.name,None)
-					if associationIndex:
-						with associationIndex.toEntityStore.entitySet.OpenCollection() as toCollection:
-							for toKey in associationIndex.GetLinksFrom(key):
-								if navName is None and not associationIndex.toEntityStore.DeletingEntity(toKey):
-									# if we are not in the process of deleting toKey
-									# and there is no navigation property linking us
-									# to it then raise an error
-									raise edm.NavigationConstraintError("Can't cascade delete from an entity in %s as the association set %s is not bound to a navigation property"%(self.entitySet.name,associationSetName))
-								# delete this link first to prevent infinite
-								# recursion
-								associationIndex.RemoveLink(key,toKey)
-								del toCollection[toKey]
-					else:
-						associationIndex=self.entityStore.reverseAssociations.get(linkEnd.parent.name,None)
-						with associationIndex.fromEntityStore.entitySet.OpenCollection() as fromCollection:
-							for fromKey in associationIndex.GetLinksTo(key):
-								if navName is None and not associationIndex.fromEntityStore.DeletingEntity(fromKey):
-									raise edm.NavigationConstraintError("Can't cascade delete from an entity in %s as the association set %s is not bound to a navigation property"%(self.entitySet.name,associationSetName))
-								associationIndex.RemoveLink(fromKey,key)
-								del fromCollection[fromKey]
-			self.entityStore.DeleteEntity(key)
-		finally:
-			self.entityStore.StopDeletingEntity(key)
+		with self.entityStore.container.lock:
+			if not self.entityStore.StartDeletingEntity(key):
+				# we're already being deleted so do nothing
+				return
+			deleting=[(self.entityStore,key)]
+			try:
+				# first find everything that has to go, the list grows as
+				# we iterate through it.  Nothing is deleted until we know
+				# that everything can be.
+				for store,dKey in deleting:
+					self.CascadeDelete(store,dKey,deleting)
+				for store,dKey in deleting:
+					store.DeleteEntity(dKey)
+			finally:
+				for store,dKey in deleting:
+					store.StopDeletingEntity(dKey)
+
+	def CascadeDelete(self,store,key,deleting):
+		"""Adds the (store, key) tuples of the entities that *must* be
+		linked to the entity with *key* in *store* to *deleting*.
+
+		We are allowed to raise edm.NavigationConstraintError here but
+		then it would be impossible to delete 1-1 related entities which
+		is a bit limited.
+
+		You must have acquired the container lock."""
+		for linkEnd,navName in store.entitySet.linkEnds.iteritems():
+			if linkEnd.associationEnd.multiplicity!=edm.Multiplicity.One:
+				continue
+			# there must be one of us, delete the other end with
+			# the exception that if there is no navigation property
+			# bound to this property then we won't do a cascade delete
+			associationSetName=linkEnd.parent.name
+			associationIndex=store.container.associationStorage.get(associationSetName,None)
+			if associationIndex is None:
+				# no navigation properties at all so there are no links
+				continue
+			if associationIndex.fromEnd==linkEnd:
+				otherStore=associationIndex.toEntityStore
+				otherKeys=associationIndex.GetLinksFrom(key)
+			else:
+				otherStore=associationIndex.fromEntityStore
+				otherKeys=associationIndex.GetLinksTo(key)
+			for otherKey in otherKeys:
+				if otherStore.DeletingEntity(otherKey):
+					continue
+				if navName is None:
+					# if we are not in the process of deleting otherKey
+					# and there is no navigation property linking us
+					# to it then raise an error
+					raise edm.NavigationConstraintError("Can't cascade delete from an entity in %s as the association set %s is not bound to a navigation property"%(store.entitySet.name,associationSetName))
+				otherStore.StartDeletingEntity(otherKey)
+				deleting.append((otherStore,otherKey))
+
 	
 class NavigationCollection(odata.NavigationCollection):
 	
-- 
2.43.0


From 61f9f04de49a89ddc77651ff18a4cb5591a5f415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 008/150] fix: memds: inserting through a navigation property
 requires its source entity to exist

---
 pyslet/pyslet/odata2/memds.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index 8aab774..3500ce4 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -536,6 +536,7 @@ class NavigationCollection(odata.NavigationCollection):
 		simultaneously creates a link to it from the source entity."""
 		with self.entitySet.OpenCollection() as baseCollection:
 			with self.associationIndex.container.Insertion():
+				self._CheckSource()
 				baseCollection.InsertEntity(entity,fromEnd=self.fromEnd.otherEnd)
 				self[entity.Key()]=entity
 
-- 
2.43.0


From 118f8c9899d736aa2c321813b698a562526c3ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:35 +0000
Subject: [PATCH 009/150] fix: memds: an entity deleted while a navigation
 collection is iterated must not break the iteration

---
 pyslet/pyslet/odata2/memds.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index 3500ce4..3e7b22b 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -554,7 +554,12 @@ class NavigationCollection(odata.NavigationCollection):
 		# we create a collection from the appropriate entity set first
 		resultSet=self.lookupMethod(self.key)
 		for k in resultSet:
-			yield self.collection[k]
+			try:
+				e=self.collection[k]
+			except KeyError:
+				# deleted since we looked up the links
+				continue
+			yield e
 		
 	def itervalues(self):
 		return self.ExpandEntities(
-- 
2.43.0


From 567483c3121f84e70bb586081f0a8d6945f47a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 010/150] fix: odata2.core: closing brackets and commas in
 expressions are required, not optional

---
 pyslet/pyslet/odata2/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 0c487b0..32c9326 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1122,7 +1122,7 @@ class Parser(edm.Parser):
 			if rightOp is None:
 				if self.Parse("("):
 					rightOp=self.RequireProduction(self.ParseCommonExpression(),"commonExpression inside parenExpression")
-					self.RequireProduction(self.Parse(")"),"closing bracket in parenExpression")
+					self.Require(")","closing bracket in parenExpression")
 				elif self.Parse("-"):
 					rightOp=UnaryExpression(Operator.negate)
 				elif leftOp:
@@ -1192,7 +1192,7 @@ class Parser(edm.Parser):
 			
 	def ParseMethodCallExpression(self,methodCall):
 		method=CallExpression(methodCall)
-		self.RequireProduction(self.Parse("("),"opening bracket in methodCallExpression")
+		self.Require("(","opening bracket in methodCallExpression")
 		while True:
 			self.ParseWSP()
 			param=self.RequireProduction(self.ParseCommonExpression(),"methodCall argument")
@@ -1218,12 +1218,12 @@ class Parser(edm.Parser):
 				# first parameter omitted
 				stringParam=firstParam
 			else:
-				self.RequireProduction(self.Parse(","),"',' in %s"%name)
+				self.Require(",","',' in %s"%name)
 				self.ParseWSP()
 				stringParam=self.RequireProduction(self.ParseCommonExpression(),"%s argument"%name)
 				e.AddOperand(stringParam)
 				self.ParseWSP()
-				self.RequireProduction(self.Parse(")"),"')' after %s"%name)
+				self.Require(")","')' after %s"%name)
 			# Final check, the string parameter must be a string literal!
 			if not isinstance(stringParam,LiteralExpression) or stringParam.value.typeCode!=edm.SimpleType.String:
 				raise ValueError("%s requires string literal")
-- 
2.43.0


From d561ad4458d083631679c1b9960519bf4d6ab6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 011/150] fix: odata2.core: 'not' is not a binary operator

---
 pyslet/pyslet/odata2/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 32c9326..c303ad3 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1144,7 +1144,7 @@ class Parser(edm.Parser):
 					if name is not None:
 						try:
 							opCode=Operator.DecodeValue(name)
-							if opCode in Operator.IsSpecial:
+							if opCode in Operator.IsSpecial or opCode==Operator.boolNot:
 								raise ValueError
 							rightOp=BinaryExpression(opCode)
 						except ValueError:
-- 
2.43.0


From 1ffa9835f1400459b4b042423650ed76e44114a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 012/150] fix: odata2.core: parse bracketed and repeated unary
 operators in expressions

---
 pyslet/pyslet/odata2/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index c303ad3..f806da6 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1097,6 +1097,7 @@ class Parser(edm.Parser):
 		rightOp=None
 		opStack=[]
 		while True:
+			unaryOp=False
 			self.ParseWSP()
 			value=self.ParseURILiteral()
 			if value is not None:
@@ -1106,6 +1107,7 @@ class Parser(edm.Parser):
 				if name=="not":
 					self.RequireProduction(self.ParseWSP(),"WSP after not")
 					rightOp=UnaryExpression(Operator.boolNot)
+					unaryOp=True
 				elif name=="isof":
 					self.ParseWSP()
 					rightOp=self.RequireProduction(self.ParseCastLike(Operator.isof,"isof"),"isofExpression")
@@ -1125,6 +1127,7 @@ class Parser(edm.Parser):
 					self.Require(")","closing bracket in parenExpression")
 				elif self.Parse("-"):
 					rightOp=UnaryExpression(Operator.negate)
+					unaryOp=True
 				elif leftOp:
 					# an operator waiting for an operand is an error
 					raise ValueError("Expected expression after %s in ...%s"%(Operator.EncodeValue(leftOp.operator),self.Peek(10)))
@@ -1132,7 +1135,7 @@ class Parser(edm.Parser):
 					# no common expression found at all
 					return None
 			# if we already have a (unary) operator, skip the search for a binary operator
-			if not isinstance(rightOp,UnaryExpression):
+			if not unaryOp:
 				operand=rightOp
 				self.ParseWSP()
 				if self.Parse("/"):
@@ -1171,7 +1174,7 @@ class Parser(edm.Parser):
 			# rightOp (an operator expression, never None)
 			# next job, determine who binds more tightly, left or right?
 			while True:
-				if leftOp is None or leftOp<rightOp:
+				if leftOp is None or operand is None or leftOp<rightOp:
 					# bind the operand to the right, in cases of equal precedence we left associate 1+2-3 = (1+2)-3
 					if operand is not None:
 						rightOp.AddOperand(operand)
-- 
2.43.0


From f7983ec9777f192f97a4dded5bf2bb86f44143d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 013/150] fix: odata2.core: write the brackets that
 right-nested expressions need

---
 pyslet/pyslet/odata2/core.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index f806da6..f3d90c6 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -390,18 +390,22 @@ class BinaryExpression(CommonExpression):
 				op=","
 				opSuffix=")"
 			else:
-				raise ValueError("Can't format %s as a binary operator"&Operator.EncodeValue(self.operator))
+				raise ValueError("Can't format %s as a binary operator"%Operator.EncodeValue(self.operator))
 		else:
 			op=u" %s "%Operator.EncodeValue(self.operator)
 		lValue=self.operands[0]
+		if len(self.operands)==1:
+			# isof and cast with the optional first parameter omitted
+			return string.join((opPrefix,unicode(lValue),opSuffix),'')
 		rValue=self.operands[1]
 		if lValue.operator is not None and lValue<self:
 			# left expression is weaker than us, use brackets
 			lValue="(%s)"%unicode(lValue)
 		else:
 			lValue=unicode(lValue)
-		if rValue.operator is not None and rValue<self:
-			# right expression is weaker than us, use brackets
+		if rValue.operator is not None and rValue<=self:
+			# right expression does not bind more tightly than us, use
+			# brackets (we left associate)
 			rValue="(%s)"%unicode(rValue)
 		else:
 			rValue=unicode(rValue)
-- 
2.43.0


From d70bbe921450bcc3eb277e36321a9fddd49b1eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 014/150] fix: odata2.core: relations with a null operand are
 false for all types

---
 pyslet/pyslet/odata2/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index f3d90c6..421be55 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -596,7 +596,11 @@ class BinaryExpression(CommonExpression):
 			return result
 		elif typeCode in (edm.SimpleType.String, edm.SimpleType.DateTime, edm.SimpleType.Guid):
 			result=edm.EDMValue.NewSimpleValue(edm.SimpleType.Boolean)
-			result.SetFromValue(relation(lValue.value,rValue.value))
+			if lValue and rValue:
+				result.SetFromValue(relation(lValue.value,rValue.value))
+			else:
+				# one of the operands is null => False
+				result.SetFromValue(False)
 			return result
 		elif typeCode is None:	# e.g., null lt null
 			result=edm.EDMValue.NewSimpleValue(edm.SimpleType.Boolean)
-- 
2.43.0


From 50776a10c9e8ce2373b6a8fa69ab9ace7dfeff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 015/150] fix: odata2.core: bad operands and undefined
 properties are evaluation errors

---
 pyslet/pyslet/odata2/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 421be55..e9d08c8 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -332,6 +332,8 @@ class UnaryExpression(CommonExpression):
 		return self.EvalMethod[self.operator](self,rValue)
 
 	def EvaluateNegate(self,rValue):
+		if not isinstance(rValue,edm.SimpleValue):
+			raise EvaluationError("Illegal operand for negate")
 		typeCode=rValue.typeCode
 		if typeCode in (edm.SimpleType.Byte, edm.SimpleType.Int16):
 			rValue=rValue.SimpleCast(edm.SimpleType.Int32)
@@ -787,14 +789,17 @@ class PropertyExpression(CommonExpression):
 				if contextEntity.IsEntityCollection(self.name):
 					raise EvaluationError("%s navigation property must have cardinality of 1 or 0..1"%self.name)
 				else:
-					result=contextEntity[self.name]
+					try:
+						result=contextEntity[self.name]
+					except KeyError:
+						raise EvaluationError("Undefined property: %s"%self.name)
 					if isinstance(result,edm.DeferredValue):
 						result=result.GetEntity()
 					if result is None:
 						# The navigation property does not point to anything, return a generic null
 						result=edm.EDMValue.NewValue(None)
 					return result
-			elif self.name in contextEntity:
+			elif isinstance(contextEntity,edm.Complex) and self.name in contextEntity:
 				# contextEntity must be a complex value
 				return contextEntity[self.name]
 			else:
-- 
2.43.0


From 6633c2178660f4a2d6093e964682e2331c714b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 016/150] fix: odata2.core: mod of decimals

---
 pyslet/pyslet/odata2/core.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index e9d08c8..3b16a0e 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -518,7 +518,15 @@ class BinaryExpression(CommonExpression):
 	def EvaluateMod(self,lValue,rValue):
 		try:
 			typeCode=self.PromoteOperands(lValue,rValue)
-			if typeCode in (edm.SimpleType.Single, edm.SimpleType.Double, edm.SimpleType.Decimal):
+			if typeCode==edm.SimpleType.Decimal:
+				lValue=lValue.SimpleCast(typeCode)
+				rValue=rValue.SimpleCast(typeCode)
+				result=edm.EDMValue.NewSimpleValue(typeCode)
+				if lValue and rValue:
+					# decimal's remainder truncates towards zero, like fmod
+					result.SetFromValue(lValue.value%rValue.value)
+				return result
+			elif typeCode in (edm.SimpleType.Single, edm.SimpleType.Double):
 				lValue=lValue.SimpleCast(typeCode)
 				rValue=rValue.SimpleCast(typeCode)
 				result=edm.EDMValue.NewSimpleValue(typeCode)
@@ -538,7 +546,7 @@ class BinaryExpression(CommonExpression):
 				return edm.EDMValue.NewSimpleValue(edm.SimpleType.Int32)
 			else:
 				raise EvaluationError("Illegal operands for div")
-		except (ZeroDivisionError,ValueError) as e:
+		except (ZeroDivisionError,ValueError,decimal.InvalidOperation) as e:
 			raise EvaluationError(str(e))
 				
 	def EvaluateAdd(self,lValue,rValue):
-- 
2.43.0


From 6e0307afb9b186a834486801efea972257323fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:38 +0000
Subject: [PATCH 017/150] fix: odata2.csdl: no skip token after the last page

---
 pyslet/pyslet/odata2/csdl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 89397a7..f858365 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -2752,11 +2752,11 @@ class EntityCollection(DictionaryLike):
 		Data providers should override this implementation for a more
 		efficient implementation.  The default implementation simply
 		wraps :py:meth:`itervalues`."""
+		self.nextSkiptoken=None
 		if self.top==0:
 			# end of paging
 			return
 		i=0
-		self.nextSkiptoken=None
 		try:
 			eMin=int(self.skiptoken,16)
 		except (TypeError,ValueError):
@@ -2810,6 +2810,7 @@ class EntityCollection(DictionaryLike):
 		finally:
 			self.paging=False
 		# no more pages
+		self.nextSkiptoken=None
 		if setNextPage:
 			self.top=self.skip=0
 			self.skiptoken=None
-- 
2.43.0


From adfb0d298ee82cf850f2ccb92c6de58618aa1416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:38 +0000
Subject: [PATCH 018/150] fix: odata2.core: the next page link keeps the rest
 of $top

---
 pyslet/pyslet/odata2/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 3b16a0e..808185b 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -2419,6 +2419,9 @@ class EntityCollection(edm.EntityCollection):
 				sysQueryOptions[SystemQueryOption.select]=FormatSelect(self.select)
 			if self.orderby is not None:
 				sysQueryOptions[SystemQueryOption.orderby]=CommonExpression.OrderByToString(self.orderby)
+			if self.top is not None:
+				# there is only a token if topmax truncated the page
+				sysQueryOptions[SystemQueryOption.top]=unicode(self.top-self.topmax)
 			sysQueryOptions[SystemQueryOption.skiptoken]=unicode(token)
 			return uri.URIFactory.URI(str(baseURL)+"?"+ODataURI.FormatSysQueryOptions(sysQueryOptions))
 		else:
-- 
2.43.0


From ed875f67636b219c5735c43fab2ad3fb3969f7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:01 +0000
Subject: [PATCH 019/150] fix: xml parser: ]]> in content is an error, not an
 endless loop

---
 pyslet/pyslet/xml20081126/parser.py | 30 ++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 78a68d0..4624966 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -782,17 +782,26 @@ class XMLParser:
 		occurr until the first non-S character (so any implied start tag is
 		treated as being immediately prior to the first non-S)."""
 		data=[]
+		nBrackets=0
+		bEntity=None
 		while self.theChar is not None:
 			if self.theChar=='<' or self.theChar=='&':
 				break
 			if self.theChar==']':
-				if self.ParseLiteral(']]>'):
-					self.BuffText(']]>')
-					break
+				if self.entity is not bEntity:
+					bEntity=self.entity
+					nBrackets=0
+				nBrackets+=1
+			elif self.theChar=='>' and nBrackets>=2 and self.entity is bEntity:
+				data=data[:-2]
+				self.BuffText(']]')
+				break
+			else:
+				nBrackets=0
 			self.IsS()		# force Unicode compatible white space handling
 			data.append(self.theChar)
 			self.NextChar()
-			if len(data)>=XMLEntity.ChunkSize:
+			if len(data)>=XMLEntity.ChunkSize and not nBrackets:
 				data=string.join(data,'')
 				try:
 					self.HandleData(data)
@@ -1678,9 +1687,16 @@ class XMLParser:
 					return True
 			else:
 				pcdata=self.ParseCharData()
-				if pcdata and not self.UnhandledData(pcdata):
-					# indicates end of the containing element
-					return False
+				if pcdata:
+					if not self.UnhandledData(pcdata):
+						# indicates end of the containing element
+						return False
+				elif self.theChar==']':
+					# character data stops before the literal ]]>
+					if not self.dontCheckWellFormedness:
+						self.WellFormednessError("[14] CharData: ]]> in content")
+					self.ParseRequiredLiteral(']]>')
+					self.HandleData(u']]>')
 		return True
 
 	def HandleData(self,data,cdata=False):
-- 
2.43.0


From 75fb15bcde495e223f9d62858587a71ac97d4b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:01 +0000
Subject: [PATCH 020/150] fix: xml parser: a comment ends with --> only

---
 pyslet/pyslet/xml20081126/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 4624966..c2c6699 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -853,6 +853,8 @@ class XMLParser:
 				if nHyphens<2:
 					data.append('-'*nHyphens+self.theChar)
 					nHyphens=0
+				elif not self.dontCheckWellFormedness:
+					self.WellFormednessError("-- in Comment")
 				# space does not change the hyphen count
 				self.NextChar()
 			else:
@@ -863,6 +865,9 @@ class XMLParser:
 					nHyphens=0
 				data.append(self.theChar)
 				self.NextChar()
+		else:
+			if not self.dontCheckWellFormedness:
+				self.WellFormednessError(production+": Unexpected end of file")
 		return string.join(data,'')
 				
 	def ParsePI(self,gotLiteral=False):
-- 
2.43.0


From a0b6c2e53b89f7d45f07ab64f39b6752f967ad86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:01 +0000
Subject: [PATCH 021/150] fix: xml parser: a processing instruction has a
 target and ends at the first ?>

---
 pyslet/pyslet/xml20081126/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index c2c6699..014a341 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -895,8 +895,12 @@ class XMLParser:
 					else:
 						# just a single '?'
 						data.append('?')
+						continue
 				data.append(self.theChar)
 				self.NextChar()
+			else:
+				if not self.dontCheckWellFormedness:
+					self.WellFormednessError(production+": Unexpected end of file")
 		else:
 			self.CheckPEBetweenDeclarations(dEntity)
 			self.ParseRequiredLiteral('?>',production)
@@ -907,7 +911,7 @@ class XMLParser:
 
 	def ParsePITarget(self):
 		"""[17] PITarget: parses a processing instruction target name"""
-		name=self.ParseName()
+		name=self.ParseRequiredName("[17] PITarget")
 		if name.lower()=='xml':
 			self.BuffText(name)
 			self.WellFormednessError("[17] PITarget: Illegal target: %s"%name)
-- 
2.43.0


From 85f7288f05c56aa877b771987d1eba8d49a65be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:01 +0000
Subject: [PATCH 022/150] fix: xml parser: a document may start with
 <?xml-stylesheet

---
 pyslet/pyslet/xml20081126/parser.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 014a341..56ca56f 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -962,7 +962,12 @@ class XMLParser:
 	def ParseProlog(self):
 		"""[22] prolog: parses the document prolog, including the XML declaration and dtd."""
 		production="[22] prolog"
-		if self.ParseLiteral('<?xml'):
+		gotDecl=self.ParseLiteral('<?xml')
+		if gotDecl and IsNameChar(self.theChar):
+			# a processing instruction with a target that starts with xml
+			self.BuffText('<?xml')
+			gotDecl=False
+		if gotDecl:
 			self.ParseXMLDecl(True)
 		else:
 			self.declaration=None
@@ -1173,7 +1178,11 @@ class XMLParser:
 	
 	def ParseExtSubset(self):
 		"""[30] extSubset: parses an external subset"""
-		if self.ParseLiteral('<?xml'):
+		gotDecl=self.ParseLiteral('<?xml')
+		if gotDecl and IsNameChar(self.theChar):
+			self.BuffText('<?xml')
+			gotDecl=False
+		if gotDecl:
 			self.ParseTextDecl(True)
 		else:
 			self.CheckEncoding(self.entity,None)
-- 
2.43.0


From 0cf438111fe7bba95d6ed66cad69fe03d9a13c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:28 +0000
Subject: [PATCH 023/150] fix: xml parser: only characters matching Char are
 accepted

---
 pyslet/pyslet/xml20081126/parser.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 56ca56f..0283065 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -486,6 +486,13 @@ class XMLParser:
 
 	#	Production [2] is implemented with the function IsChar
 
+	def CheckChar(self):
+		"""Raises a well-formedness error if the current character does not match [2] Char.
+		
+		Surrogates are let through: in narrow python builds they represent legal characters."""
+		if not self.dontCheckWellFormedness and not IsChar(self.theChar) and not (0xD800<=ord(self.theChar)<=0xDFFF):
+			self.WellFormednessError("[2] Char: Illegal character %s"%repr(self.theChar))
+
 	def IsS(self):
 		"""By default just calls the module level :py:func:`~pyslet.xml20081126.structures.IsS`
 		
@@ -714,6 +721,7 @@ class XMLParser:
 				elif self.theChar=='<':
 					self.WellFormednessError("No < in Attribute Values")
 				else:
+					self.CheckChar()
 					value.append(self.theChar)
 					self.NextChar()
 			except XMLWellFormedError:
@@ -799,6 +807,7 @@ class XMLParser:
 			else:
 				nBrackets=0
 			self.IsS()		# force Unicode compatible white space handling
+			self.CheckChar()
 			data.append(self.theChar)
 			self.NextChar()
 			if len(data)>=XMLEntity.ChunkSize and not nBrackets:
@@ -863,6 +872,7 @@ class XMLParser:
 						self.WellFormednessError("-- in Comment")
 					data.append('-'*nHyphens)									
 					nHyphens=0
+				self.CheckChar()
 				data.append(self.theChar)
 				self.NextChar()
 		else:
@@ -896,6 +906,7 @@ class XMLParser:
 						# just a single '?'
 						data.append('?')
 						continue
+				self.CheckChar()
 				data.append(self.theChar)
 				self.NextChar()
 			else:
@@ -946,6 +957,7 @@ class XMLParser:
 			if self.ParseLiteral(cdEnd):
 				self.BuffText(cdEnd)
 				break
+			self.CheckChar()
 			data.append(self.theChar)
 			self.NextChar()
 			if len(data)>=XMLEntity.ChunkSize:
-- 
2.43.0


From cc42e02e587fed30a11477afd4307d994c31f5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:28 +0000
Subject: [PATCH 024/150] fix: xml parser: a character reference out of range
 is a well-formedness error

---
 pyslet/pyslet/xml20081126/parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 0283065..4db5979 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -2349,12 +2349,16 @@ class XMLParser:
 		if self.ParseLiteral('x'):
 			qualifier='x'
 			digits=self.ParseRequiredHexDigits(production)
-			data=unichr(int(digits,16))
+			code=int(digits,16)
 		else:
 			qualifier=''
 			digits=self.ParseRequiredDecimalDigits(production)
-			data=unichr(int(digits))
+			code=int(digits)
 		self.ParseRequiredLiteral(';',production)
+		try:
+			data=unichr(code)
+		except (ValueError,OverflowError):
+			raise XMLWellFormedError("Legal Character: &#%s%s; is out of range"%(qualifier,digits))
 		if self.refMode==XMLParser.RefModeInDTD:
 			raise XMLForbiddenEntityReference("&#%s%s; forbidden by context"%(qualifier,digits))
 		elif self.refMode==XMLParser.RefModeAsAttributeValue:
-- 
2.43.0


From 29c0b5ca18946a8439834a1c7bf96021dd64fa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:28 +0000
Subject: [PATCH 025/150] fix: xml parser: bad content specifications are
 reported as such

---
 pyslet/pyslet/xml20081126/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 4db5979..d81dc4d 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -1821,7 +1821,7 @@ class XMLParser:
 				eType.contentType=ElementType.ElementContent
 				eType.contentModel=self.ParseChildren(True,groupEntity)
 		else:
-			self.WellFormednessError(production,": expected 'EMPTY', 'ANY' or '('")
+			self.WellFormednessError(production+": expected 'EMPTY', 'ANY' or '('")
 			
 	def ParseChildren(self,gotLiteral=False,groupEntity=None):
 		"""[47] children: parses an element content model comprising children.
-- 
2.43.0


From da08544fbc7ee4693d2b8aa7ff0cf3824e9a31a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:48 +0000
Subject: [PATCH 026/150] fix: xml: the first declaration of an entity is
 binding

---
 pyslet/pyslet/xml20081126/structures.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 5cf8839..5f4dd77 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -796,11 +796,14 @@ class XMLDTD(object):
 		
 		The same method is used for both general and parameter entities.  The
 		value of *entity* can be either an :py:class:`XMLGeneralEntity` or an
-		:py:class:`XMLParameterEntity` instance."""
+		:py:class:`XMLParameterEntity` instance.
+		
+		If the same entity is declared more than once the first declaration
+		is binding."""
 		if isinstance(entity,XMLGeneralEntity):
-			self.generalEntities[entity.name]=entity
+			self.generalEntities.setdefault(entity.name,entity)
 		elif isinstance(entity,XMLParameterEntity):
-			self.parameterEntities[entity.name]=entity
+			self.parameterEntities.setdefault(entity.name,entity)
 		else:
 			raise ValueError
 
-- 
2.43.0


From afd5bc0078c92bee2c6ae7133b46fd4aee4a365b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:48 +0000
Subject: [PATCH 027/150] fix: xml: GetAttributeDefinition looks up the element
 it is given

---
 pyslet/pyslet/xml20081126/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 5f4dd77..6387f53 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -883,7 +883,7 @@ class XMLDTD(object):
 		
 		The method returns an instance of :py:class:`XMLAttributeDefinition` or
 		None if no attribute matching this description has been declared."""		
-		aList=self.attributeLists.get(name,None)
+		aList=self.attributeLists.get(elementName,None)
 		if aList:
 			return aList.get(attributeName,None)
 		else:
-- 
2.43.0


From fa5ba50a8e3e924478c9c3ad5cf39000794cab4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:48 +0000
Subject: [PATCH 028/150] fix: xml parser: an absent #FIXED attribute takes the
 fixed value

---
 pyslet/pyslet/xml20081126/parser.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index d81dc4d..f3b8a75 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -1404,7 +1404,7 @@ class XMLParser:
 				value=attrs.get(a,None)
 				if value is None:
 					# check for default
-					if aDef.presence==XMLAttributeDefinition.Default:
+					if aDef.presence in (XMLAttributeDefinition.Default,XMLAttributeDefinition.Fixed):
 						attrs[a]=aDef.defaultValue
 						if checkStandalone:
 							self.ValidityError("Standalone Document Declaration: specification for attribute %s required (externally defined default)"%a)
@@ -1418,9 +1418,8 @@ class XMLParser:
 						newValue=NormalizeSpace(value)
 						if checkStandalone and newValue!=value:
 							self.ValidityError("Standalone Document Declaration: specification for attribute %s altered by normalization (externally defined tokenized type)"%a)
-						attrs[a]=newValue
-				if aDef.presence==XMLAttributeDefinition.Fixed:
-					if value!=aDef.defaultValue:
+						attrs[a]=value=newValue
+					if aDef.presence==XMLAttributeDefinition.Fixed and value!=aDef.defaultValue:
 						self.ValidityError("Fixed Attribute Default: %s must match the #FIXED value %s"%(value,aDef.defaultValue))						
 		if self.checkValidity:
 			for a in attrs.keys():
-- 
2.43.0


From 7629e545f309c0cb36d8f918dd02adbb8076af4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:48 +0000
Subject: [PATCH 029/150] fix: xml parser: an undeclared entity may be skipped
 in an attribute value

---
 pyslet/pyslet/xml20081126/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index f3b8a75..7b6e652 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -2453,6 +2453,7 @@ class XMLParser:
 					self.WellFormednessError("Entity Declared: undeclared general entity %s in standalone document"%name)
 				else:
 					self.ValidityError("Entity Declared: undeclared general entity %s"%name)
+					return ''
 	
 	def LookupPredefinedEntity(self,name):
 		"""Utility function used to look up pre-defined entities, e.g., "lt"
-- 
2.43.0


From 71c79833ff435f1806f2bc4e7a579b056c0679c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:48 +0000
Subject: [PATCH 030/150] fix: xml parser: comments and PIs in undeclared
 elements when checking validity

---
 pyslet/pyslet/xml20081126/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 7b6e652..f0e915f 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -1667,7 +1667,7 @@ class XMLParser:
 					if self.theChar=='-':
 						self.ParseRequiredLiteral('--')
 						self.ParseComment(True)
-						if self.checkValidity and self.elementType.contentType==ElementType.Empty:
+						if self.checkValidity and self.elementType and self.elementType.contentType==ElementType.Empty:
 							self.ValidityError("Element Valid: comment not allowed in element declared EMPTY: %s"%self.elementType.name)
 					elif self.theChar=='[':
 						self.ParseRequiredLiteral('[CDATA[')
@@ -1684,7 +1684,7 @@ class XMLParser:
 					# PI
 					self.NextChar()
 					self.ParsePI(True)
-					if self.checkValidity and self.elementType.contentType==ElementType.Empty:
+					if self.checkValidity and self.elementType and self.elementType.contentType==ElementType.Empty:
 						self.ValidityError("Element Valid: processing instruction not allowed in element declared EMPTY: %s"%self.elementType.name)
 				elif self.theChar!='/':
 					# element
-- 
2.43.0


From 9fdd678739a82cf1a7dd061b0aba7c8e47e7bbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:58 +0000
Subject: [PATCH 031/150] fix: xml parser: markup in content must nest within
 entities

---
 pyslet/pyslet/xml20081126/parser.py | 45 +++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index f0e915f..78dd327 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -847,6 +847,7 @@ class XMLParser:
 					self.WellFormednessError("-- in Comment")
 			elif self.theChar=='>':
 				if nHyphens==2:
+					self.CheckMarkupNesting(cEntity)
 					self.CheckPEBetweenDeclarations(cEntity)
 					self.NextChar()
 					break
@@ -900,6 +901,7 @@ class XMLParser:
 				if self.theChar=='?':
 					self.NextChar()
 					if self.theChar=='>':
+						self.CheckMarkupNesting(dEntity)
 						self.NextChar()
 						break
 					else:
@@ -914,7 +916,9 @@ class XMLParser:
 					self.WellFormednessError(production+": Unexpected end of file")
 		else:
 			self.CheckPEBetweenDeclarations(dEntity)
-			self.ParseRequiredLiteral('?>',production)
+			self.ParseRequiredLiteral('?',production)
+			self.CheckMarkupNesting(dEntity)
+			self.ParseRequiredLiteral('>',production)
 		if self.element:
 			self.element.ProcessingInstruction(target,string.join(data,''))
 		elif self.doc:
@@ -953,10 +957,15 @@ class XMLParser:
 		
 		This method adds any parsed data to the current element."""
 		data=[]
+		cdEntity=self.entity
 		while self.theChar is not None:
-			if self.ParseLiteral(cdEnd):
-				self.BuffText(cdEnd)
-				break
+			if self.ParseLiteral(cdEnd[:-1]):
+				gotEnd=self.theChar==cdEnd[-1]
+				if gotEnd:
+					self.CheckMarkupNesting(cdEntity)
+				self.BuffText(cdEnd[:-1])
+				if gotEnd:
+					break
 			self.CheckChar()
 			data.append(self.theChar)
 			self.NextChar()
@@ -1225,6 +1234,14 @@ class XMLParser:
 			# a badly nested declaration in an entity opened within a DeclSep is a well-formedness error
 			self.WellFormednessError("[31] extSubsetDecl: failed for entity %s included in a DeclSep"%checkEntity.GetName())
 	
+	def CheckMarkupNesting(self,checkEntity):
+		"""[78] extParsedEnt: checks that markup in content does not straddle the boundaries of an entity.
+		
+		*checkEntity* is the entity we should still be in!"""
+		if (self.entity is not checkEntity and not self.dontCheckWellFormedness and
+			self.refMode not in (XMLParser.RefModeInDTD,XMLParser.RefModeInEntityValue)):
+			self.WellFormednessError("Replacement text is not well-formed: markup not properly nested in entity %s"%checkEntity.GetName())
+
 	def ParseSDDecl(self,gotLiteral=False):
 		"""[32] SDDecl: parses a standalone declaration
 		
@@ -1270,6 +1287,7 @@ class XMLParser:
 		saveElement=self.element
 		saveElementType=self.elementType
 		saveCursor=None
+		eEntity=self.entity
 		if self.sgmlOmittag and self.theChar!='<':
 			# Leading data means the start tag was omitted (perhaps at the start of the doc)
 			name=None
@@ -1347,6 +1365,7 @@ class XMLParser:
 						break
 			else:
 				while self.ParseContent():		# otherwise content detected end of element (so end tag was omitted)
+					self.CheckMarkupNesting(eEntity)
 					endName=self.ParseETag()
 					if endName==name:
 						break
@@ -1566,6 +1585,7 @@ class XMLParser:
 			tag."""
 		production="[40] STag"
 		empty=False
+		tEntity=self.entity
 		self.ParseRequiredLiteral('<')
 		name=self.ParseRequiredName()
 		attrs={}
@@ -1573,10 +1593,13 @@ class XMLParser:
 			try:
 				s=self.ParseS()
 				if self.theChar=='>':
+					self.CheckMarkupNesting(tEntity)
 					self.NextChar()
 					break
 				elif self.theChar=='/':
-					self.ParseRequiredLiteral('/>')
+					self.NextChar()
+					self.CheckMarkupNesting(tEntity)
+					self.ParseRequiredLiteral('>')
 					empty=True
 					break
 				if s:
@@ -1629,6 +1652,7 @@ class XMLParser:
 		production="[42] ETag"
 		if not gotLiteral:
 			self.ParseRequiredLiteral('</')
+		tEntity=self.entity
 		name=self.ParseRequiredName(production)
 		self.ParseS()
 		if self.dontCheckWellFormedness:
@@ -1639,6 +1663,7 @@ class XMLParser:
 					break
 				self.NextChar()
 		else:	
+			self.CheckMarkupNesting(tEntity)
 			self.ParseRequiredLiteral('>',production)
 		return name
 							
@@ -1660,17 +1685,21 @@ class XMLParser:
 		while True:
 			if self.theChar=='<':
 				# element, CDSect, PI or Comment
+				mEntity=self.entity
 				self.NextChar()
+				self.CheckMarkupNesting(mEntity)
 				if self.theChar=='!':
 					# CDSect or Comment
 					self.NextChar()
 					if self.theChar=='-':
 						self.ParseRequiredLiteral('--')
+						self.CheckMarkupNesting(mEntity)
 						self.ParseComment(True)
 						if self.checkValidity and self.elementType and self.elementType.contentType==ElementType.Empty:
 							self.ValidityError("Element Valid: comment not allowed in element declared EMPTY: %s"%self.elementType.name)
 					elif self.theChar=='[':
 						self.ParseRequiredLiteral('[CDATA[')
+						self.CheckMarkupNesting(mEntity)
 						# can CDATA sections imply missing markup?
 						if self.sgmlOmittag and not self.element.IsMixed():
 							# CDATA can only be put in elements that can contain data!
@@ -1683,6 +1712,7 @@ class XMLParser:
 				elif self.theChar=='?':
 					# PI
 					self.NextChar()
+					self.CheckMarkupNesting(mEntity)
 					self.ParsePI(True)
 					if self.checkValidity and self.elementType and self.elementType.contentType==ElementType.Empty:
 						self.ValidityError("Element Valid: processing instruction not allowed in element declared EMPTY: %s"%self.elementType.name)
@@ -2342,6 +2372,7 @@ class XMLParser:
 		The method returns a unicode string containing the character referred
 		to."""
 		production="[66] CharRef"
+		rEntity=self.entity
 		if not gotLiteral:
 			self.ParseRequiredLiteral('&',production)
 		self.ParseRequiredLiteral('#',production)
@@ -2353,6 +2384,7 @@ class XMLParser:
 			qualifier=''
 			digits=self.ParseRequiredDecimalDigits(production)
 			code=int(digits)
+		self.CheckMarkupNesting(rEntity)
 		self.ParseRequiredLiteral(';',production)
 		try:
 			data=unichr(code)
@@ -2373,7 +2405,9 @@ class XMLParser:
 		character reference this will be the character referred to.  For a
 		general entity the data returned will depend on the parsing context. For
 		more information see :py:meth:`ParseEntityRef`."""
+		rEntity=self.entity
 		self.ParseRequiredLiteral('&',"[67] Reference")
+		self.CheckMarkupNesting(rEntity)
 		if self.theChar=='#':
 			return self.ParseCharRef(True)
 		else:
@@ -2419,6 +2453,7 @@ class XMLParser:
 		if self.dontCheckWellFormedness:
 			self.ParseLiteral(';')
 		else:
+			self.CheckMarkupNesting(entity)
 			self.ParseRequiredLiteral(';',production)
 		if self.refMode==XMLParser.RefModeInEntityValue:
 			return "&%s;"%name
-- 
2.43.0


From 48e4d1261bb23cb61f75387e72c32966068d4f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:23 +0000
Subject: [PATCH 032/150] fix: xml: system identifiers are escaped before they
 are used as URIs

---
 pyslet/pyslet/xml20081126/structures.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 6387f53..8fbd66e 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -3043,10 +3043,18 @@ class XMLExternalID(object):
 		Returns a :py:class:`pyslet.rfc2396.URI` resolved against :py:attr:`base` if
 		applicable.  If there is no system identifier then None is returned."""
 		if self.system:
+			# 4.2.2: escape characters that are not allowed in URI references
+			system=[]
+			for c in self.system.encode('utf-8'):
+				if c<=' ' or c>='\x7F' or c in '<>"{}|\\^`[]':
+					system.append('%%%02X'%ord(c))
+				else:
+					system.append(c)
+			system=string.join(system,'')
 			if base:
-				location=URIFactory.Resolve(base,URIFactory.URI(self.system))
+				location=URIFactory.Resolve(base,URIFactory.URI(system))
 			else:
-				location=URIFactory.URI(self.system)
+				location=URIFactory.URI(system)
 			if not location.IsAbsolute():
 				cwd=URIFactory.URLFromPathname(os.path.join(os.getcwd(),os.curdir))
 				location=location.Resolve(cwd)
-- 
2.43.0


From 5fbf762c0f671e746e47f03934453e10542ecfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 033/150] fix: xml parser: an empty entity may be referenced
 more than once

---
 pyslet/pyslet/xml20081126/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 78dd327..a11bad1 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -186,6 +186,8 @@ class XMLParser:
 			# Harsh but fair, if we had reason to believe that this entity used UTF-16 but it
 			# was completely empty (not even a BOM) then that is an error.
 			self.CheckEncoding(entity,None)
+			# there is nothing to parse so it is no longer open
+			entity.Close()
 		if entity.buffText:
 			self.BuffText(entity.buffText)
 	
-- 
2.43.0


From 670d8b1eb0f30a91053715fade211b58a06de6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 034/150] fix: xml parser: an external entity may start with
 <?xml-stylesheet

---
 pyslet/pyslet/xml20081126/structures.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 8fbd66e..0e1d94f 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -2975,7 +2975,11 @@ class XMLDeclaredEntity(XMLEntity):
 			from pyslet.xml20081126.parser import XMLParser
 			p=XMLParser(self)
 			if p.ParseLiteral('<?xml'):
-				p.ParseTextDecl(True)
+				if IsNameChar(p.theChar):
+					# a processing instruction with a target that starts with xml
+					p.BuffText('<?xml')
+				else:
+					p.ParseTextDecl(True)
 			self.KeepEncoding()
 			# at this point we may have some left over text in p's buffer
 			# we can't push it back down the pipe so need to handle here
-- 
2.43.0


From a6e87dac4a8010c141dfc5940712c2dcd72dafbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:10 +0000
Subject: [PATCH 035/150] fix: xml: UTF-8 documents with a byte order mark

---
 pyslet/pyslet/xml20081126/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 0e1d94f..6d48d48 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -2859,7 +2859,7 @@ class XMLEntity(object):
 			if magic[2:]!='\x00\x00':
 				magic=magic[:2]
 		elif magic[:3]=='\xef\xbb\xbf':
-			magic=mage[:3]
+			magic=magic[:3]
 		self.encoding,seekPos,self.bom=self.MagicTable.get(magic,('utf-8',0,False))
 		srcFile.seek(seekPos)
 	
-- 
2.43.0


From 0574670b2cf1f75782e0e392e2a148efbb7b883e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 036/150] fix: xml: documents that end in the encoding
 declaration

---
 pyslet/pyslet/xml20081126/structures.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 6d48d48..7c07993 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -2904,7 +2904,10 @@ class XMLEntity(object):
 				self.charSource=codecs.getreader(self.encoding)(self.dataSource)
 				self.chars=self.charSource.read(len(self.chars))
 				# We assume that charPos will still point to the correct next character
-				self.theChar=self.chars[self.charPos]
+				if self.charPos<len(self.chars):
+					self.theChar=self.chars[self.charPos]
+				else:
+					self.theChar=None
 		self.KeepEncoding()
 	
 	def KeepEncoding(self):
-- 
2.43.0


From 479a9f59c72f3c8659d8a29c0a6dc28ad6901de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 037/150] fix: QTI equal: the tolerance attribute is a list of
 numbers

---
 pyslet/pyslet/qtiv2/expressions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/expressions.py b/pyslet/pyslet/qtiv2/expressions.py
index 173a72a..c8d62c8 100755
--- a/pyslet/pyslet/qtiv2/expressions.py
+++ b/pyslet/pyslet/qtiv2/expressions.py
@@ -6,7 +6,7 @@ import pyslet.xsdatatypes20041028 as xsi
 import pyslet.qtiv2.core as core
 import pyslet.qtiv2.variables as variables
 
-import string, random, itertools, math
+import string, random, itertools, math, types
 
 
 class Expression(core.QTIElement):
@@ -1056,7 +1056,7 @@ class Equal(NOperator):
 		</xsd:group>"""
 	XMLNAME=(core.IMSQTI_NAMESPACE,'equal')
 	XMLATTR_toleranceMode=('toleranceMode',ToleranceMode.DecodeLowerValue,ToleranceMode.EncodeValue)
-	XMLATTR_tolerance='tolerance'
+	XMLATTR_tolerance=('tolerance',None,None,types.ListType)
 	XMLATTR_includeLowerBound=('includeLowerBound',xsi.DecodeBoolean,xsi.EncodeBoolean)
 	XMLATTR_includeUpperBound=('includeUpperBound',xsi.DecodeBoolean,xsi.EncodeBoolean)
 	
-- 
2.43.0


From e82e767005fbd6b7af550186fa1739558f8624e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 038/150] fix: QTI: references to template variables

---
 pyslet/pyslet/qtiv2/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/core.py b/pyslet/pyslet/qtiv2/core.py
index ba319e2..3afafc8 100755
--- a/pyslet/pyslet/qtiv2/core.py
+++ b/pyslet/pyslet/qtiv2/core.py
@@ -367,6 +367,6 @@ def GetTemplateRef(value):
 	the value does not look like a template variable reference."""
 	if value.startswith('{') and value.endswith('}'):
 		idValue=value[1:-1]
-		if xsi.IsValidNCName(idValue):
+		if xmlns.IsValidNCName(idValue):
 			return idValue
 	return None
-- 
2.43.0


From bb3c1daf751a12dd5986830d0657ed1ffc4175e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 039/150] fix: QTI: copies of multiple values keep repeated
 values

---
 pyslet/pyslet/qtiv2/variables.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 37e2bfe..827e8de 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -842,6 +842,8 @@ class MultipleContainer(Container):
 		iterable. The list must contain valid representations of *baseType*,
 		items may be None indicating a NULL value in the list.  In accordance
 		with the specification's multiple operator NULL values are ignored.
+		It may also be set from a dictionary that maps values to the number of
+		times each occurs, the form in which the value is stored.
 				
 		If the input list of values is empty, or contains only NULL values then the
 		resulting container is empty.
@@ -862,7 +864,11 @@ class MultipleContainer(Container):
 					# wild-card lists only work if they're empty!
 					raise ValueError("Can't create non-empty multiple container without a base type")
 				vAdd=SingleValue.NewValue(self.baseType,v)
-				self.value[vAdd.value]=self.value.get(vAdd.value,0)+1
+				if type(value) is DictType:
+					freq=value[v]
+				else:
+					freq=1
+				self.value[vAdd.value]=self.value.get(vAdd.value,0)+freq
 			if not self.value:
 				self.value=None
 
-- 
2.43.0


From 350cb2a63647f5b6d9f0774b15340ad61ea5ad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 040/150] fix: QTI: references to undeclared variables are
 processing errors

---
 pyslet/pyslet/qtiv2/variables.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 827e8de..f05c163 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -1635,11 +1635,15 @@ class SessionState(object):
 			
 	def IsResponse(self,varName):
 		"""Return True if *varName* is the name of a response variable."""
+		if varName not in self:
+			return False
 		d=self.GetDeclaration(varName)
 		return isinstance(d,ResponseDeclaration)
 			
 	def IsOutcome(self,varName):
 		"""Return True if *varName* is the name of an outcome variable."""
+		if varName not in self:
+			return False
 		d=self.GetDeclaration(varName)
 		return isinstance(d,OutcomeDeclaration)
 	
@@ -1648,6 +1652,8 @@ class SessionState(object):
 
 	def IsTemplate(self,varName):
 		"""Return True if *varName* is the name of a template variable."""
+		if varName not in self:
+			return False
 		d=self.GetDeclaration(varName)
 		return isinstance(d,TemplateDeclaration)
 	
@@ -1898,6 +1904,8 @@ class ItemSessionState(SessionState):
 		"""Return True if *varName* is the name of a response variable.
 		
 		We add handling of the built-in response variables numAttempts and duration."""
+		if varName not in self:
+			return False
 		d=self.GetDeclaration(varName)
 		if d is None:
 			return varName in ('numAttempts','duration')
@@ -1908,6 +1916,8 @@ class ItemSessionState(SessionState):
 		"""Return True if *varName* is the name of an outcome variable.
 		
 		We add handling of the built-in outcome variable completionStatus."""
+		if varName not in self:
+			return False
 		d=self.GetDeclaration(varName)
 		if d is None:
 			return varName=='completionStatus'
@@ -2318,6 +2328,8 @@ class TestSessionState(SessionState):
 		"""Return True if *varName* is the name of a response variable.  The
 		test-level duration values are treated as built-in responses and return
 		True."""
+		if varName not in self:
+			return False
 		ns,name=self.GetNamespace(varName)
 		if isinstance(ns,ItemSessionState):
 			return ns.IsResponse(name)
-- 
2.43.0


From b611fb11db246f5ea36a4de04dadfe19b9cdea5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 041/150] fix: QTI sessions: values for anything but a response
 are refused with BadSessionParams

---
 pyslet/pyslet/qtiv2/variables.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index f05c163..50ac907 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -22,6 +22,10 @@ class SessionKeyExpired(core.QTIError):
 	"""Exception raised when a session is invoked with an expired key."""
 	pass
 
+class BadSessionParams(core.QTIError):
+	"""Raised when the values submitted with a form cannot be used."""
+	pass
+
 class SessionActionMissing(core.QTIError):
 	"""Exception raised when an unrecognised action is handled by a test session."""
 	
@@ -1817,7 +1821,10 @@ class ItemSessionState(SessionState):
 			if not rName:
 				continue
 			# rName must be the name of a response variable
-			rd=self.GetDeclaration(rName[0])
+			if rName[0] in self:
+				rd=self.GetDeclaration(rName[0])
+			else:
+				rd=None
 			if rd is None or not isinstance(rd,ResponseDeclaration):
 				# unexpected item in bagging area!
 				raise BadSessionParams("Unexpected item submitted wth form: %s"%p)
-- 
2.43.0


From 5d32b7254d3dcfc0fb68b1ff5040dce54aa31b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 042/150] fix: QTI sessions: forms with values for ordered
 responses

---
 pyslet/pyslet/qtiv2/variables.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 50ac907..7439b4c 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -1856,11 +1856,9 @@ class ItemSessionState(SessionState):
 				if len(rName)!=2:
 					continue
 				try:
-					if rd.baseType==BaseType.Identifier and core.ValidateIdentifier(rName[1]):
-						if type(sValue) in StringTypes:
-							v.SetValue(sValue)
-						else:
-							raise ValueError
+					if type(sValue) not in StringTypes:
+						raise ValueError
+					if rd.baseType==BaseType.identifier and xmlns.IsValidNCName(rName[1]):
 						rank=xsi.DecodeInteger(sValue)
 						sValue=rName[1]
 					else:
@@ -1878,7 +1876,7 @@ class ItemSessionState(SessionState):
 				raise NotImplementedError
 		if orderedParams:
 			# we've gathered ordered parameters in a dictionary of dictionaries
-			# keyed first on response identifier and then on rank.  For each
+			# keyed first on the name of the saved value and then on rank.  For each
 			# response we just sort them, so missing ranks are OK.
 			for response in orderedParams:
 				rParams=orderedParams[response]
@@ -1887,8 +1885,7 @@ class ItemSessionState(SessionState):
 				sValue=[]
 				for r in ranks:
 					sValue.append(rParams[r])
-				saveName=response+".SAVED"
-				v=self.map[saveName]
+				v=self.map[response]
 				v.SetValue(sValue)				
 				
 	def EndAttempt(self):
-- 
2.43.0


From c1a82ca6666257cbe4f2bd25a7f171c3c6a7ca69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 043/150] fix: xsd: the lexical form of a double between -1 and
 1

---
 pyslet/pyslet/xsdatatypes20041028.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/xsdatatypes20041028.py b/pyslet/pyslet/xsdatatypes20041028.py
index 030eb0c..8b36302 100644
--- a/pyslet/pyslet/xsdatatypes20041028.py
+++ b/pyslet/pyslet/xsdatatypes20041028.py
@@ -308,8 +308,9 @@ def EncodeDouble(value,digits=None,stripZeros=True):
 	except ValueError:
 		# not sure if this is possible, a number so small log10 fails
 		return "0.0E0"
-	m,e=math.modf(x)
-	e=int(e)
+	# round down, so that the mantissa of a number less than 1 is in [1,10) too
+	e=int(math.floor(x))
+	m=x-e
 	r,m=math.modf(math.pow(10,m+digits))
 	if r>=0.5:
 		m=m+1
-- 
2.43.0


From 772c4230c834da7d1568cd5f77375f6edd7e8f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 044/150] fix: QTI: attributes that refer to template variables
 with NULL values

---
 pyslet/pyslet/qtiv2/expressions.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pyslet/pyslet/qtiv2/expressions.py b/pyslet/pyslet/qtiv2/expressions.py
index c8d62c8..7ddd6c4 100755
--- a/pyslet/pyslet/qtiv2/expressions.py
+++ b/pyslet/pyslet/qtiv2/expressions.py
@@ -285,6 +285,9 @@ class RandomInteger(Expression):
 		min=self.IntegerOrTemplateRef(state,self.min)
 		max=self.IntegerOrTemplateRef(state,self.max)
 		step=self.IntegerOrTemplateRef(state,self.step)
+		if min is None or max is None or step is None:
+			# a reference to a template variable with a NULL value
+			return variables.IntegerValue()
 		return variables.IntegerValue(min+step*random.randint(0,(max-min)//step))
 		
 		
@@ -309,6 +312,9 @@ class RandomFloat(Expression):
 	def Evaluate(self,state):
 		min=self.FloatOrTemplateRef(state,self.min)
 		max=self.FloatOrTemplateRef(state,self.max)
+		if min is None or max is None:
+			# a reference to a template variable with a NULL value
+			return variables.FloatValue()
 		# strictly speaking, we can never return max, but due to possible rounding
 		# this point is academic
 		return variables.FloatValue(min+random.random()*(max-min))
@@ -868,6 +874,9 @@ class AnyN(NOperator):
 		values=list(self.EvaluateChildren(state))
 		variables.CheckCardinalities(*map(lambda x:x.Cardinality(),values)+[variables.Cardinality.single])
 		variables.CheckBaseTypes(*map(lambda x:x.baseType,values)+[variables.BaseType.boolean])
+		if min is None or max is None:
+			# a reference to a template variable with a NULL value
+			return variables.BooleanValue()
 		nTrue=nNull=0
 		for v in values:			
 			if v.value==True:
@@ -1088,6 +1097,9 @@ class Equal(NOperator):
 					t1=self.FloatOrTemplateRef(state,self.tolerance[1])
 				else:
 					t1=t0
+				if t0 is None or t1 is None:
+					# a reference to a template variable with a NULL value
+					return variables.BooleanValue()
 				if self.toleranceMode==ToleranceMode.absolute:
 					lowerBound=v1v-t0
 					upperBound=v1v+t1
@@ -1172,6 +1184,9 @@ class EqualRounded(NOperator):
 			v1v=float(v1.value)
 			v2v=float(v2.value)
 			figures=self.IntegerOrTemplateRef(state,self.figures)
+			if figures is None:
+				# a reference to a template variable with a NULL value
+				return variables.BooleanValue()
 			if self.roundingMode==RoundingMode.decimalPlaces:
 				return variables.BooleanValue(xsi.EncodeDecimal(v1v,figures,False)==
 					xsi.EncodeDecimal(v2v,figures,False))
-- 
2.43.0


From 6336c61b174bc600c928c79761c3651cca27da4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 045/150] fix: QTI equalRounded: numbers that round to -0 and
 to 0 are equal

---
 pyslet/pyslet/qtiv2/expressions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/expressions.py b/pyslet/pyslet/qtiv2/expressions.py
index 7ddd6c4..1bccc1e 100755
--- a/pyslet/pyslet/qtiv2/expressions.py
+++ b/pyslet/pyslet/qtiv2/expressions.py
@@ -1188,8 +1188,9 @@ class EqualRounded(NOperator):
 				# a reference to a template variable with a NULL value
 				return variables.BooleanValue()
 			if self.roundingMode==RoundingMode.decimalPlaces:
-				return variables.BooleanValue(xsi.EncodeDecimal(v1v,figures,False)==
-					xsi.EncodeDecimal(v2v,figures,False))
+				# compared as numbers because -0 is the same number as 0
+				return variables.BooleanValue(xsi.DecodeDecimal(xsi.EncodeDecimal(v1v,figures,False))==
+					xsi.DecodeDecimal(xsi.EncodeDecimal(v2v,figures,False)))
 			else:
 				# for sig fig, we need to use the double form
 				return variables.BooleanValue(xsi.EncodeDouble(v1v,figures-1)==
-- 
2.43.0


From f5f88328c742224e2c3d696d8f43f33ff6483500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 046/150] fix: QTI test forms: sections that are shuffled among
 their siblings

---
 pyslet/pyslet/qtiv2/tests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/tests.py b/pyslet/pyslet/qtiv2/tests.py
index 3d17299..23ef265 100755
--- a/pyslet/pyslet/qtiv2/tests.py
+++ b/pyslet/pyslet/qtiv2/tests.py
@@ -600,7 +600,7 @@ class TestForm(object):
 					newBucket.append(childID)
 					child=self.test.GetPart(childID)
 					if isinstance(child,AssessmentSection):
-						newBucket.extend(self.Select(childID,True))
+						newBucket.extend(self.Select(child,True))
 						newBucket.append(u"-"+childID)	
 				i=selection.index(None)
 				selection[i:i+1]=newBucket
-- 
2.43.0


From 095b670db058fdcfc7accc76b62ac9b4207d3a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 047/150] fix: QTI test forms: sections inside a mixed section
 are expanded once

---
 pyslet/pyslet/qtiv2/tests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/tests.py b/pyslet/pyslet/qtiv2/tests.py
index 23ef265..f782c41 100755
--- a/pyslet/pyslet/qtiv2/tests.py
+++ b/pyslet/pyslet/qtiv2/tests.py
@@ -599,7 +599,7 @@ class TestForm(object):
 				for childID in b:
 					newBucket.append(childID)
 					child=self.test.GetPart(childID)
-					if isinstance(child,AssessmentSection):
+					if isinstance(child,AssessmentSection) and expandChildren:
 						newBucket.extend(self.Select(child,True))
 						newBucket.append(u"-"+childID)	
 				i=selection.index(None)
-- 
2.43.0


From c9d7a1a03ca732a42a0735f851ea36248815ac59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 048/150] fix: QTI test forms: shuffled sections without any
 items

---
 pyslet/pyslet/qtiv2/tests.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/tests.py b/pyslet/pyslet/qtiv2/tests.py
index f782c41..da9ac80 100755
--- a/pyslet/pyslet/qtiv2/tests.py
+++ b/pyslet/pyslet/qtiv2/tests.py
@@ -572,7 +572,7 @@ class TestForm(object):
 					newSelection=newSelection+self.Select(child,True)
 					newSelection.append(u"-"+child.identifier)
 		selection=newSelection
-		if shuffleList:
+		if None in selection:
 			# Step 5: shuffle!
 			random.shuffle(shuffleList)
 			# Expanded invisible sections may mean we have more shuffled items than free slots
@@ -586,7 +586,8 @@ class TestForm(object):
 			buckets=[]
 			for child in selection:
 				if child is None:
-					buckets.append([shuffleList[i]])
+					# empty sections may mean we have fewer shuffled items than free slots
+					buckets.append(shuffleList[i:i+1])
 					i+=1
 			while i<len(shuffleList):
 				# choose a random bucket
-- 
2.43.0


From d7919f609dc64f6548d69d50f011edf5f0871016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 049/150] fix: QTI test sessions: every event gives a new
 session key

---
 pyslet/pyslet/qtiv2/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 7439b4c..6afa63c 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -2028,7 +2028,7 @@ class TestSessionState(SessionState):
 			self.t=time.time()
 			dt=0.0
 		hash=hashlib.sha224()
-		hash.update(self.salt+"%.6f"%self.t)
+		hash.update(self.salt+"%.6f"%self.t+str(self.prevKey))
 		self.key=unicode(hash.hexdigest())
 		return dt
 		
-- 
2.43.0


From bd39acdeed08fd56f62a87326d0f7efe4e09e135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 050/150] fix: QTI test sessions: sections and parts whose
 preconditions fail are skipped

---
 pyslet/pyslet/qtiv2/variables.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 6afa63c..74141ec 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -2133,9 +2133,15 @@ class TestSessionState(SessionState):
 							itemState.BeginSession()
 						self.cQuestion=iQ
 						break
-				else:
+				elif isinstance(part,tests.AssessmentItemRef):
 					# skip this item
 					iQ=iQ+1
+				else:
+					# skip everything in this section or test part
+					endId=u"-"+id
+					while self.form[iQ]!=endId:
+						iQ=iQ+1
+					iQ=iQ+1
 
 			
 	def BeginSession(self,key,htmlParent=None):
-- 
2.43.0


From ca5208f6aeb160ed4fc31df90e98698006fca05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 051/150] fix: QTI test sessions: EXIT_SECTION leaves the
 section of the rule, not one inside it

---
 pyslet/pyslet/qtiv2/variables.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 74141ec..42a3edb 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -2059,6 +2059,7 @@ class TestSessionState(SessionState):
 			return len(self.form)
 		else:
 			qPos=qPos+1
+			depth=0
 			while True:
 				if qPos>=len(self.form):
 					return qPos
@@ -2068,8 +2069,13 @@ class TestSessionState(SessionState):
 				qPos=qPos+1
 				# handle the other special identifiers which move to the point just
 				# after the end of the part being exited
-				if id[0]==u"-":
-					if target==u"EXIT_SECTION":
+				if id[0]!=u"-":
+					if isinstance(self.test.GetPart(id),tests.AssessmentSection):
+						# sections that start after the rule are not the one to exit
+						depth=depth+1
+				else:
+					depth=depth-1
+					if target==u"EXIT_SECTION" and depth<0:
 						return qPos
 					elif target==u"EXIT_TESTPART" and isinstance(self.test.GetPart(id[1:]),tests.TestPart):
 						return qPos
-- 
2.43.0


From ab9f1dc321633eb8bf4c999d2ad8589864629a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 052/150] fix: QTI test sessions: no debugging output when
 variables are looked up

---
 pyslet/pyslet/qtiv2/variables.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 42a3edb..7ae8c26 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -2321,9 +2321,6 @@ class TestSessionState(SessionState):
 				# we can only refer to the first instance when looking up variables
 				ns=self.namespace[nsIndexList[0]]
 				return ns,string.join(splitName[1:],'.')
-		print "Looking for: "+varName
-		print self.namespace
-		print self.form.components
 		raise KeyError(varName)
 			
 	def GetDeclaration(self,varName):
@@ -2382,9 +2379,6 @@ class TestSessionState(SessionState):
 		ns,name=self.GetNamespace(varName)
 		if ns:
 			return ns[name]
-		print "Looking for: "+varName
-		print self.namespace
-		print self.form.components
 		raise KeyError(varName)
 
 	def __iter__(self):
-- 
2.43.0


From ae673067dbbf06ee70dab7ba2a4a0a224894d11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 053/150] fix: URI: relative references to prefixes, empty
 segments and segments with colons resolve back to their target

---
 pyslet/pyslet/rfc2396.py | 46 ++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/pyslet/pyslet/rfc2396.py b/pyslet/pyslet/rfc2396.py
index 07c79ff..cf68b76 100755
--- a/pyslet/pyslet/rfc2396.py
+++ b/pyslet/pyslet/rfc2396.py
@@ -303,22 +303,22 @@ def NormalizeSegments(pathSegments):
 		pathSegments.append('')
 		
 def RelativizeSegments(pathSegments,baseSegments):
-	result=[]
+	# only the leading segments, the directories, can be shared
+	limit=min(len(pathSegments),len(baseSegments))-1
 	pos=0
-	while pos<len(baseSegments):
-		if result:
-			result=['..']+result
-		else:
-			if pos>=len(pathSegments) or baseSegments[pos]!=pathSegments[pos]:
-				result=result+pathSegments[pos:]
+	while pos<limit and baseSegments[pos]==pathSegments[pos]:
 		pos=pos+1
-	if not result and len(pathSegments)>len(baseSegments):
-		# full match but pathSegments is longer
-		return pathSegments[len(baseSegments)-1:]
-	elif result==['']:
-		return ['.']+result
+	return ProtectSegments(['..']*(len(baseSegments)-1-pos)+pathSegments[pos:])
+
+def ProtectSegments(pathSegments):
+	"""Adds a leading '.' if the first segment could not start a relative path
+	
+	An empty segment would make the path absolute (or empty) and a colon
+	would turn the segment into a scheme."""
+	if pathSegments[0]=='' or ':' in pathSegments[0]:
+		return ['.']+pathSegments
 	else:
-		return result
+		return pathSegments
 	
 def MakeRelPathAbs(absPath,basePath):
 	"""Return absPath relative to basePath"""
@@ -349,13 +349,8 @@ def MakeRelPathRel(relPath,baseRelPath):
 		else:
 			break
 	if j>i:
-		i=j
-	if i:
-		# we have leading '..' components, add a common path prefix and re-normalize
-		pathSegments=['x']*i+pathSegments
-		NormalizeSegments(pathSegments)
-		baseSegments=['x']*i+baseSegments
-		NormalizeSegments(baseSegments)
+		# the name of the directory containing pathSegments is unknown
+		raise URIRelativeError(baseRelPath)
 	result=RelativizeSegments(pathSegments,baseSegments)
 	return string.join(result,'/')
 
@@ -781,6 +776,7 @@ class URI(object):
 		elif base.scheme is None or self.scheme.lower()!=base.scheme.lower():
 			return URIFactory.URI(str(self))
 		# continuing with equal schemes; scheme will not be shown in result
+		query=self.query
 		if self.authority is None:
 			if base.authority is not None:
 				raise URIRelativeError(str(base))
@@ -791,7 +787,11 @@ class URI(object):
 		else:
 			# equal or empty authorities
 			authority=None
-			if self.absPath is None:
+			if self.absPath==base.absPath and self.relPath==base.relPath and self.query==base.query:
+				# same document, just show the fragment
+				absPath=relPath=None
+				query=None
+			elif self.absPath is None:
 				if base.absPath is not None:
 					raise URIRelativeError(str(base))
 				absPath=None
@@ -819,9 +819,9 @@ class URI(object):
 			result.append(absPath)
 		elif relPath is not None:
 			result.append(relPath)
-		if self.query is not None:
+		if query is not None:
 			result.append('?')
-			result.append(self.query)
+			result.append(query)
 		if self.fragment is not None:
 			result.append('#')
 			result.append(self.fragment)
-- 
2.43.0


From 18e8bebd93fa53c8dc1317133d0740036b0b8cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 054/150] fix: URI: a base without a path has the path "/",
 relative results are not mistaken for schemes or absolute paths

---
 pyslet/pyslet/rfc2396.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/rfc2396.py b/pyslet/pyslet/rfc2396.py
index cf68b76..b234aca 100755
--- a/pyslet/pyslet/rfc2396.py
+++ b/pyslet/pyslet/rfc2396.py
@@ -682,7 +682,7 @@ class URI(object):
 		if self.authority is None:
 			authority=base.authority
 			if self.absPath is None:
-				if base.absPath is not None:
+				if base.absPath is not None or base.authority is not None:
 					segments=SplitAbsPath(base.absPath)[:-1]
 					segments=segments+SplitRelPath(self.relPath)
 					NormalizeSegments(segments)
@@ -693,10 +693,8 @@ class URI(object):
 					segments=segments+SplitRelPath(self.relPath)
 					NormalizeSegments(segments)
 					absPath=None
-					relPath=string.join(segments,'/')
-					if relPath=='':
-						# degenerate case, as we are relative we won't prefix with /
-						relPath='./'
+					# we are relative so we won't prefix with /
+					relPath=string.join(ProtectSegments(segments),'/')
 			else:
 				absPath=self.absPath
 				relPath=None
-- 
2.43.0


From 4cbcbe71312cf2de45e0b8ab92ccc46c371dc6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 055/150] fix: URI: the canonical form of an escape is in upper
 case

---
 pyslet/pyslet/rfc2396.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2396.py b/pyslet/pyslet/rfc2396.py
index b234aca..987d68b 100755
--- a/pyslet/pyslet/rfc2396.py
+++ b/pyslet/pyslet/rfc2396.py
@@ -119,7 +119,7 @@ def CanonicalizeData(source):
 				result.append(c)
 			else:
 				result.append("%")
-				result.append(escape)
+				result.append(escape.upper())
 			pos+=3
 		elif not (IsUnreserved(c) or IsReserved(c)):
 			result.append("%%%02X"%ord(c))
-- 
2.43.0


From eeb981d31b91fae891c6bdea9e7af85604a4a732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 056/150] fix: HTTP URLs: an empty path is equivalent to "/"

---
 pyslet/pyslet/rfc2616_params.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/rfc2616_params.py b/pyslet/pyslet/rfc2616_params.py
index 7f8078d..0413043 100755
--- a/pyslet/pyslet/rfc2616_params.py
+++ b/pyslet/pyslet/rfc2616_params.py
@@ -83,11 +83,11 @@ class HTTPURL(uri.ServerBasedURL):
 				if port!=self.DEFAULT_PORT:
 					newURI.append(':')
 					newURI.append("%i"%int(self.port))
-		if self.absPath is not None:
-			if not self.absPath:
-				newURI.append("/")
-			else:
-				newURI.append(uri.CanonicalizeData(self.absPath))
+		if self.absPath:
+			newURI.append(uri.CanonicalizeData(self.absPath))
+		elif self.authority is not None:
+			# an empty path is equivalent to /
+			newURI.append("/")
 		elif self.relPath is not None:
 			newURI.append(uri.CanonicalizeData(self.relPath))
 		if self.query is not None:
-- 
2.43.0


From 41125916dda394fb4158e66e1b44880196fe793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 057/150] fix: dates: day, week and ordinal numbers of zero are
 out of range, not absent

---
 pyslet/pyslet/iso8601.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index 6310356..99ba8c3 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -181,11 +181,11 @@ class Date(object):
 	def __init__(self,src=None,base=None,century=None,decade=None,year=None,month=None,day=None,week=None,weekday=None,ordinalDay=None,absoluteDay=None):
 		if src is None:
 			# explicit form
-			if absoluteDay:
+			if absoluteDay is not None:
 				self._SetFromAbsoluteDay(absoluteDay)
-			elif decade or week or weekday:
+			elif decade is not None or week is not None or weekday is not None:
 				self._SetFromWeekDay(century,decade,year,week,weekday,base)
-			elif ordinalDay:
+			elif ordinalDay is not None:
 				self._SetFromOrdinalDay(century,year,ordinalDay,base)
 			elif century is None and base is None:
 				# use the origin, but everything else must be None too
@@ -377,7 +377,7 @@ class Date(object):
 		else:
 			if weekday<=0 or weekday>7:
 				raise DateTimeError("weekday %i out of range"%weekday)
-		if week is not None and (week<0 or week>53):
+		if week is not None and (week<1 or week>53):
 			raise DateTimeError("week %i out of range"%week)
 		if year is not None and (year<0 or year>9):
 			raise DateTimeError("year %i within decade is out of range")
@@ -831,7 +831,7 @@ class Date(object):
 		if self.year==0 and self.century==0:
 			raise DateTimeError("illegal year 0000")
 		year=self.century*100+self.year
-		if self.week:
+		if self.week is not None:
 			# week form of date:
 			if self.week<1 or self.week>WeekCount(year):
 				raise DateTimeError("illegal week %i in year %i"%(self.week,year))
-- 
2.43.0


From b86760db0b76ec53baa281ddaefb81114ebb43bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 058/150] fix: dates: a week date truncated to the year of the
 decade can roll over to the next century

---
 pyslet/pyslet/iso8601.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index 99ba8c3..c173659 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -417,6 +417,9 @@ class Date(object):
 					if self.year<baseYear or (self.year==baseYear and (
 						self.week<baseWeek or (self.week==baseWeek and self.day<baseWeekday))):
 						self.year+=(baseDecade+1)*10
+						if self.year>99:
+							self.year-=100
+							self._AddCentury()
 					else:
 						self.year+=baseDecade*10
 			else:
-- 
2.43.0


From a494644ab79c64cc206e6a72979c4971f84ce345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 059/150] fix: dates: offsets may go back over the start of a
 year and combine days with months

---
 pyslet/pyslet/iso8601.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index c173659..e637e28 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -552,13 +552,13 @@ class Date(object):
 			baseDay+=days+7*weeks
 			d=type(self)(absoluteDay=baseDay)
 		if months or years or centuries:
-			day=self.day
+			day=d.day
 			month=d.month+months
-			if month>12:
+			if month<1 or month>12:
 				years+=(month-1)//12
 				month=(month-1)%12+1
 			year=d.year+years
-			if year>99:
+			if year<0 or year>99:
 				centuries+=year//100
 				year=year%100
 			century=d.century+centuries
-- 
2.43.0


From 676c8e272fc7be650d4954d695dba50c19576159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 060/150] fix: dates: a truncated date cut short is a syntax
 error

---
 pyslet/pyslet/iso8601.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index e637e28..8c74f2e 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -2846,6 +2846,8 @@ class ISO8601Parser(RFC2234CoreParser):
 						return Date(year=v1,week=v2,weekday=v3,base=base),"-YWwwD"
 					else:
 						return Date(year=v1,week=v2,base=base),"-YWww"
+				else:
+					self.SyntaxError("expected digit, hyphen or W in truncated ISO date")
 			elif self.theChar=="-":
 				self.NextChar()
 				if IsDIGIT(self.theChar):
@@ -3061,6 +3063,8 @@ class ISO8601Parser(RFC2234CoreParser):
 					else:
 						date.SetWeekDay(None,None,v1,v2,None,base)
 						return "-YWww"
+				else:
+					self.SyntaxError("expected digit, hyphen or W in truncated ISO date")
 			elif self.theChar=="-":
 				self.NextChar()
 				if IsDIGIT(self.theChar):
-- 
2.43.0


From 1bf6ed586d4de78694bc132d8b1ed6d8ccf795d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 061/150] fix: times: a fractional minute of 59 is in range,
 zone minutes of 60 and more are not

---
 pyslet/pyslet/iso8601.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index 8c74f2e..15bb91f 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -1132,6 +1132,8 @@ class Time(object):
 			raise DateTimeError("non-zero UTC offset requires at least hour zone precision")
 		elif zMinute is None:
 			self.zOffset=zHour*60
+		elif zMinute<0 or zMinute>59:
+			raise DateTimeError("zone minute out of range %i"%zMinute)
 		else:
 			self.zOffset=zHour*60+zMinute
 
@@ -1705,7 +1707,7 @@ class Time(object):
 			return
 		if not type(self.hour) is IntType:
 			raise DateTimeError("bad fractional hour %s"%str(self.hour))
-		if self.minute<0 or self.minute>59:
+		if self.minute<0 or self.minute>=60:
 			raise DateTimeError("minute out of range %s"%str(self.minute))
 		if self.second is None:
 			return
-- 
2.43.0


From 532001dd3afdb4bf728263a8e62d9118d322b9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 062/150] fix: times: fractional offsets may be negative or
 carry over

---
 pyslet/pyslet/iso8601.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index 15bb91f..8657d22 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -1277,8 +1277,8 @@ class Time(object):
 				raise DateTimeError("second precision required")
 			second=second+seconds
 			if type(second)==FloatType:
-				fs,s=modf(second)
-				s=int(s)
+				s=int(floor(second))
+				fs=second-s
 				minutes+=s//60
 				second=float(s%60)+fs
 			else:
@@ -1292,10 +1292,10 @@ class Time(object):
 			if type(minute)==FloatType:
 				if second is not None:
 					raise DateTimeError("minute precision required")
-				fm,m=modf(minute)
-				m=int(m)
-				hours+=minute//60
-				minute=float(minute%60)+fm
+				m=int(floor(minute))
+				fm=minute-m
+				hours+=m//60
+				minute=float(m%60)+fm
 			else:
 				hours+=minute//60
 				minute=minute%60
@@ -1305,10 +1305,10 @@ class Time(object):
 			if type(hour)==FloatType:
 				if minute is not None:
 					raise DateTimeError("hour precision required")
-				fh,h=modf(hour)
-				h=int(h)
-				days+=float(h//24)
-				hour=float(hour%24)+fh
+				h=int(floor(hour))
+				fh=hour-h
+				days+=h//24
+				hour=float(h%24)+fh
 			else:
 				days+=hour//24
 				hour=hour%24
-- 
2.43.0


From 220abbe6e6f69f393d46ddc0eb50f7d62d02ca51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 063/150] fix: times: WithZoneString and zones that start with
 neither Z nor a sign

---
 pyslet/pyslet/iso8601.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index 8657d22..580a146 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -1412,7 +1412,7 @@ class Time(object):
 		if type(zoneStr) in StringTypes:
 			p=ISO8601Parser(zoneStr)
 			zDirection,zHour,zMinute,format=p.ParseTimeZoneFormat()
-			return self.WithZone(zDirection=zDireciton,zHour=zHour,zMinute=zMinute)
+			return self.WithZone(zDirection=zDirection,zHour=zHour,zMinute=zMinute)
 		else:
 			raise TypeError
 		
@@ -3283,6 +3283,8 @@ class ISO8601Parser(RFC2234CoreParser):
 			else:
 				zDirection,zHour,zMinute=v1,v2,None
 				format="+hh"
+		else:
+			self.SyntaxError("expected Z, + or - in time zone")
 		return zDirection,zHour,zMinute,format
 	
 	def ParseTime(self,t,tBase=None,tDesignator="T"):
-- 
2.43.0


From 77d77fa3c5985372e3a8dfa03742c3507bbe586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 064/150] fix: times: a complete time has no string truncated
 to anything but hour or minute

---
 pyslet/pyslet/iso8601.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index 580a146..5129581 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -1535,6 +1535,8 @@ class Time(object):
 					stem="-%02i:%02i"%(self.minute,second)
 			elif truncation==Truncation.Minute:
 				stem="--%02i"%second
+			else:
+				raise ValueError
 		if ndp:
 			# to prevent truncation being caught out by sloppy machine rounding
 			# we add a small time to the fraction (at most 1ns and typically less)
-- 
2.43.0


From 2a71ecb2475c1e423389a9610354eb4d583f2599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 065/150] fix: times and time points: a text that ends early,
 or is truncated without a base, is an error in the syntax

---
 pyslet/pyslet/iso8601.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index 5129581..f45a632 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -1219,7 +1219,7 @@ class Time(object):
 			t,overflow=base.Extend(hour=19,minute=7)
 			# t is 19:07:40Z, overflow is 1"""
 		if not self.Complete():
-			raise DateTimeError("Can't construct truncated time from incomplete base: %s"%str(base))
+			raise DateTimeError("Can't construct truncated time from incomplete base: %s"%str(self))
 		addMinute=addHour=0
 		if hour is None:
 			# Truncation of hour or more
@@ -2678,7 +2678,7 @@ class ISO8601Parser(RFC2234CoreParser):
 		d,df=self.ParseDateFormat(base)
 		if not d.Complete():
 			raise DateTimeError("incomplete date in time point %s"%str(d))
-		if self.theChar not in tDesignators:
+		if self.theChar is None or self.theChar not in tDesignators:
 			raise DateTimeError("time-point requires time %s..."%str(d))
 		tDesignator=self.theChar
 		t,overflow,tf=self.ParseTimeFormat(None,tDesignators)
@@ -2696,7 +2696,7 @@ class ISO8601Parser(RFC2234CoreParser):
 		timePoint.date=date
 		if not timePoint.date.Complete():
 			raise DateTimeError("incomplete date in time point %s"%str(timePoint.date))
-		if self.theChar not in tDesignators:
+		if self.theChar is None or self.theChar not in tDesignators:
 			raise DateTimeError("time-point requires time %s..."%str(timePoint.date))
 		tDesignator=self.theChar
 		t,overflow,timeFormat=self.ParseTimeFormat(None,tDesignators)
@@ -3126,7 +3126,7 @@ class ISO8601Parser(RFC2234CoreParser):
 			self.SyntaxError("expected digit or hyphen in ISO date")
 	
 	def ParseTimeFormat(self,base=None,tDesignators="T"):
-		if self.theChar in tDesignators:
+		if self.theChar is not None and self.theChar in tDesignators:
 			self.NextChar()
 			tDesignator=1
 		else:
@@ -3241,6 +3241,8 @@ class ISO8601Parser(RFC2234CoreParser):
 			else:
 				self.SyntaxError("expected digit or hyphen in truncated Time")
 			# truncated forms cannot take timezones, return early
+			if base is None:
+				raise DateTimeError("truncated time with no base")
 			t,overflow=base.Extend(hour=hour,minute=minute,second=second)
 			return t,overflow,tFormat
 		else:
@@ -3291,7 +3293,7 @@ class ISO8601Parser(RFC2234CoreParser):
 	
 	def ParseTime(self,t,tBase=None,tDesignator="T"):
 		warnings.warn("ISO8601Parser.ParseTime is deprecated, use ParseTimeFormat instead", DeprecationWarning, stacklevel=2)		
-		if self.theChar in tDesignators:
+		if self.theChar is not None and self.theChar in tDesignators:
 			self.NextChar()
 			tDesignator=1
 		else:
-- 
2.43.0


From 74ba41234037b0a72fb66537d3cfb92b7c21b6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 066/150] fix: time points: WithPrecision takes the precision

---
 pyslet/pyslet/iso8601.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index f45a632..bc592ff 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -2274,7 +2274,7 @@ class TimePoint(object):
 		representing the precision of this TimePoint."""
 		return self.time.GetPrecision()
 	
-	def WithPrecision(self):
+	def WithPrecision(self,precision,truncate=False):
 		"""Constructs a :py:class:`TimePoint` instance from an existing
 		TimePoint but with the precision specified by *precision*.  For
 		more details see :py:meth:`Time.WithPrecision`"""
-- 
2.43.0


From 211c0168746053ee6e6d9ddafb134823c9a61e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 067/150] fix: durations: week durations have a string, equal
 durations are not unequal, only the lowest component may have a fraction

---
 pyslet/pyslet/iso8601.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index bc592ff..c6688fc 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -2495,7 +2495,13 @@ class Duration:
 			else:
 				return 'P'+datePart
 		else:
-			pass					
+			value=self.weeks
+			if type(value) is FloatType:
+				fraction,value=modf(value)
+				if ndp:
+					fraction=int(floor((fraction+2e-13)*float(10L**abs(ndp))))
+					return "P%i%s%0*iW"%(value,"," if ndp>0 else ".",abs(ndp),fraction)
+			return "P%iW"%value
 				
 	def SetFromDuration(self,src):
 		self.years=src.years
@@ -2519,6 +2525,9 @@ class Duration:
 			return 1
 		else:
 			return 0
+
+	def __ne__(self,other):
+		return not self==other
 		
 					
 # For compatibility
@@ -3455,7 +3464,7 @@ class ISO8601Parser(RFC2234CoreParser):
 		value=self.ParseDIGITRepeat()
 		if value is None:
 			return None,None
-		if self.theChar in ".,":
+		if self.theChar is not None and self.theChar in ".,":
 			if not allowFraction:
 				raise DateTimeError("fractional component in duration must have lowest order")										
 			format="n"+self.theChar+"n"			
@@ -3541,6 +3550,8 @@ class ISO8601Parser(RFC2234CoreParser):
 		elif format[-1]=="T":
 			# "P...T" not allowed either
 			raise DateTimeError("expected time component in duration")
+		if FloatType in map(type,[v for v in values if v is not None][:-1]):
+			raise DateTimeError("fractional component in duration must have lowest order")
 		# Now deal with partial precision, higher order components default to 0
 		defValue=None
 		for i in xrange(5,-1,-1):
-- 
2.43.0


From ee9f2f2eea836919dd4d849b6034e49c099584f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:02 +0000
Subject: [PATCH 068/150] fix: times: seconds need minutes

---
 pyslet/pyslet/iso8601.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index c6688fc..f8b5b21 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -1706,6 +1706,8 @@ class Time(object):
 		if self.hour==24 and ((self.minute is not None and self.minute>0) or (self.second is not None and self.second>0)):
 			raise DateTimeError("time overflow")
 		if self.minute is None:
+			if self.second is not None:
+				raise DateTimeError("second without minute")
 			return
 		if not type(self.hour) is IntType:
 			raise DateTimeError("bad fractional hour %s"%str(self.hour))
-- 
2.43.0


From b3fcb76d84868b04da9347d5e12bbccbf9bdfff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:02 +0000
Subject: [PATCH 069/150] fix: times: a change of zone may carry over more than
 one day

---
 pyslet/pyslet/iso8601.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index f8b5b21..fb20bd6 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -1358,14 +1358,8 @@ class Time(object):
 				hour-=1
 				minute+=60
 		hour=hour+zShift//60
-		if hour>23:
-			hour-=24
-			overflow=1
-		elif hour<0:
-			hour+=24
-			overflow=-1
-		else:
-			overflow=0
+		overflow=int(hour//24)
+		hour-=24*overflow
 		return type(self)(hour=hour,minute=minute,second=second,zDirection=zDirection,zHour=zHour,zMinute=zMinute),overflow
 
 	@classmethod
-- 
2.43.0


From 9864593bbb7b01bf1f6cf1b829411fcaabc88a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:58 +0000
Subject: [PATCH 070/150] fix: times: a change of zone keeps a fractional
 minute of 59 in its hour

---
 pyslet/pyslet/iso8601.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index fb20bd6..030af22 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -1351,7 +1351,7 @@ class Time(object):
 		hour=self.hour
 		if minute is not None:
 			minute=minute+zShift%60
-			if minute>59:
+			if minute>=60:
 				hour+=1
 				minute-=60
 			elif minute<0:
-- 
2.43.0


From 69b2c06155a39669c19d441a2115ad73ac33ddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:58 +0000
Subject: [PATCH 071/150] fix: time points: hour precision in a zone of half an
 hour has a hash

---
 pyslet/pyslet/iso8601.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index 030af22..adf5c2c 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -2284,6 +2284,8 @@ class TimePoint(object):
 	
 	def __hash__(self):
 		if self.time.GetZoneOffset():
+			if self.GetPrecision()==Precision.Hour and self.time.GetZoneOffset()%60:
+				return hash(self.WithPrecision(Precision.Minute).ShiftZone(zDirection=0))
 			return hash(self.ShiftZone(zDirection=0))
 		else:
 			# no zone, or Zulu time
-- 
2.43.0


From 98182db7b6b52416ffdf1a4bf891ebcccec2acc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:39 +0000
Subject: [PATCH 072/150] fix: times: a long hour or minute is not a fraction

---
 pyslet/pyslet/iso8601.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index adf5c2c..3226050 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -1703,13 +1703,13 @@ class Time(object):
 			if self.second is not None:
 				raise DateTimeError("second without minute")
 			return
-		if not type(self.hour) is IntType:
+		if not type(self.hour) in (IntType,LongType):
 			raise DateTimeError("bad fractional hour %s"%str(self.hour))
 		if self.minute<0 or self.minute>=60:
 			raise DateTimeError("minute out of range %s"%str(self.minute))
 		if self.second is None:
 			return
-		if not type(self.minute) is IntType:
+		if not type(self.minute) in (IntType,LongType):
 			raise DateTimeError("bad fractional minute %s"%str(self.minute))
 		if self.second<0 or self.second>=61:
 			raise DateTimeError("second out of range %s"%str(self.second))
-- 
2.43.0


From 1e04908725faecaa0e9d59df5ce13258cfbf4326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:39 +0000
Subject: [PATCH 073/150] fix: OData URIs: the values of key predicates are
 percent-decoded and may contain separators

---
 pyslet/pyslet/odata2/core.py | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 808185b..e4f7539 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1858,7 +1858,7 @@ class ODataURI:
 		if self.resourcePath=='/':
 			self.navPath=[]
 		else:
-			segments=self.resourcePath.split('/')
+			segments=self.SplitUnquoted(self.resourcePath,'/')
 			self.navPath=[]
 			for segment in segments[1:]:
 				if self.pathOption==PathOption.links:
@@ -1965,31 +1965,48 @@ class ODataURI:
 		if segment.startswith('$'):
 			# some type of control word
 			return segment,None
-		elif '(' in segment and segment[-1]==')':
-			name=uri.UnescapeData(segment[:segment.index('(')]).decode('utf-8')
+		elif '(' in uri.UnescapeData(segment) and uri.UnescapeData(segment)[-1]==')':
+			segment=uri.UnescapeData(segment)
+			name=segment[:segment.index('(')].decode('utf-8')
 			keys=segment[segment.index('(')+1:-1]
 			if keys=='':
 				keys=[]
 			else:
-				keys=keys.split(',')
+				keys=self.SplitUnquoted(keys,',')
 			if len(keys)==0:
 				return name,{}
-			elif len(keys)==1 and '=' not in keys[0]:
+			elif len(keys)==1 and len(self.SplitUnquoted(keys[0],'='))==1:
 				return name,{u'':ParseURILiteral(keys[0])}
 			else:
 				keyPredicate={}
 				for k in keys:
-					nv=k.split('=')
+					nv=self.SplitUnquoted(k,'=')
 					if len(nv)!=2:
 						raise ValueError("unrecognized key predicate: %s"%repr(keys))
 					kname,value=nv
-					kname=uri.UnescapeData(kname).decode('utf-8')
-					kvalue=ParseURILiteral(value)
-					keyPredicate[kname]=kvalue
+					kname=kname.decode('utf-8')
+					if kname in keyPredicate:
+						raise ValueError("repeated name in key predicate: %s"%repr(keys))
+					keyPredicate[kname]=ParseURILiteral(value)
 				return name,keyPredicate
 		else:
 			return uri.UnescapeData(segment).decode('utf-8'),None
 	
+	@staticmethod
+	def SplitUnquoted(source,separator):
+		"""Splits *source* at each *separator* that is not in a quoted
+		string literal (the quotes themselves may be percent-encoded)."""
+		result=[]
+		quoted=False
+		for item in source.split(separator):
+			if quoted:
+				result[-1]=result[-1]+separator+item
+			else:
+				result.append(item)
+			if (item.count("'")+item.count("%27"))%2:
+				quoted=not quoted
+		return result
+
 	def GetParamValue(self,paramName):
 		if paramName in self.paramTable:
 			paramDef=self.queryOptions[self.paramTable[paramName]]
-- 
2.43.0


From ad1d02ca50c8f0b0e949407135bad5d3af71fc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:39 +0000
Subject: [PATCH 074/150] fix: OData server: PATH_INFO has been percent-decoded

---
 pyslet/pyslet/odata2/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index b49e765..03fe86f 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -188,7 +188,8 @@ class Server(app.Server):
 			if version is None:
 				return self.ODataError(ODataURI('error'),environ,start_response,"DataServiceVersionMismatch","Maximum supported protocol version: 2.0")
 			appPath=environ.get('SCRIPT_NAME',"")
-			path=appPath+environ['PATH_INFO']
+			# WSGI gives us decoded paths, re-encode all but the delimiters
+			path=urllib.quote(appPath+environ['PATH_INFO'],"/$'(),=;:@&+!*~")
 			query=environ.get('QUERY_STRING',None)
 			if query is not None:
 				path=path+'?'+query
-- 
2.43.0


From eb2b64221e2c388c2c6e0d553417a404ed1fbf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:39 +0000
Subject: [PATCH 075/150] fix: OData server: relative URIs in requests are
 resolved

---
 pyslet/pyslet/odata2/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 03fe86f..3aa7589 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -270,7 +270,7 @@ class Server(app.Server):
 		identify an enity set, entity, complex or simple value."""
 		if not href.IsAbsolute():
 			# resolve relative to the service root
-			href=URIFactory.Resolve(self.serviceRoot,href)
+			href=uri.URIFactory.Resolve(self.serviceRoot,href)
 		# check the canonical roots
 		if not self.serviceRoot.GetCanonicalRoot().Match(href.GetCanonicalRoot()):
 			# This isn't even for us
-- 
2.43.0


From 3de3121bdabd9364f7d84c0c699b12443c296010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:39 +0000
Subject: [PATCH 076/150] fix: OData server: bodies of the wrong kind are
 reported as such

---
 pyslet/pyslet/odata2/server.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 3aa7589..6a46951 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -229,6 +229,10 @@ class Server(app.Server):
 			return self.ODataError(ODataURI('error'),environ,start_response,"InvalidSystemQueryOption","Invalid System Query Option: %s"%str(e))
 		except InvalidPathOption,e:
 			return self.ODataError(ODataURI('error'),environ,start_response,"Bad Request","Path option is invalid or incompatible with this form of URI: %s"%str(e),400)			
+		except InvalidData,e:
+			return self.ODataError(ODataURI('error'),environ,start_response,"Bad Request","Invalid data: %s"%str(e),400)
+		except EvaluationError,e:
+			return self.ODataError(ODataURI('error'),environ,start_response,"Bad Request","Expression cannot be evaluated: %s"%str(e),400)
 		except InvalidMethod,e:
 			return self.ODataError(ODataURI('error'),environ,start_response,"Bad Request","Method not allowed: %s"%str(e),400)			
 		except ValueError,e:
@@ -643,7 +647,7 @@ class Server(app.Server):
 			if isinstance(input.root,URI):
 				return self.GetResourceFromURI(uri.URIFactory.URI(input.root.GetValue()))
 			else:
-				raise InvalidData("Unable to parse link from request body (found <%s>)"%doc.root.xmlname)
+				raise InvalidData("Unable to parse link from request body (found <%s>)"%input.root.xmlname)
 		else:
 			# must be a json object
 			try:
@@ -750,7 +754,7 @@ class Server(app.Server):
 				# we have an entry, which is a relief!
 				input.root.GetValue(entity,self.GetResourceFromURI,True)
 			else:
-				raise InvalidData("Unable to parse atom Entry from request body (found <%s>)"%doc.root.xmlname)
+				raise InvalidData("Unable to parse atom Entry from request body (found <%s>)"%input.root.xmlname)
 		else:
 			# must be a json object
 			entity.SetFromJSONObject(input,self.GetResourceFromURI,True)
@@ -794,7 +798,7 @@ class Server(app.Server):
 			if isinstance(input.root,Property):
 				input.root.GetValue(value)
 			else:
-				raise InvalidData("Unable to parse property from request body (found <%s>)"%doc.root.xmlname)
+				raise InvalidData("Unable to parse property from request body (found <%s>)"%input.root.xmlname)
 		else:
 			if isinstance(value,edm.SimpleValue):
 				ReadEntityPropertyInJSON1(value,input)
-- 
2.43.0


From 6acf88c173d0ebcb4cb051933b25d07e0d996ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:39 +0000
Subject: [PATCH 077/150] fix: OData server: raw values can be written whatever
 their declared media type

---
 pyslet/pyslet/odata2/server.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 6a46951..844d6ab 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -837,13 +837,14 @@ class Server(app.Server):
 				
 	def ReadDereferencedValue(self,value,environ):
 		encoding=None
+		requestType=None
 		if "CONTENT_TYPE" in environ:
 			requestType=http.MediaType.FromString(environ["CONTENT_TYPE"])
 		if value.mType is None:
 			acceptType=False
 			if isinstance(value,edm.BinaryValue):
 				if requestType:
-					for r in DeferenceBinaryRanges:
+					for r in self.DereferenceBinaryRanges:
 						if r.MatchMediaType(requestType):
 							acceptType=True
 				else:
@@ -864,7 +865,7 @@ class Server(app.Server):
 		if not acceptType:
 			raise InvalidData("Unable to parse property value from request body (found <%s>)"%str(requestType))
 		data=app.InputWrapper(environ).read()
-		if requestType.type=="text":
+		if requestType is not None and requestType.type.lower()=="text":
 			encoding=requestType.parameters.get('charset',(None,None))[1]
 			if encoding is None:
 				encoding="iso-8859-1"
-- 
2.43.0


From 0deb8a2bb5ad24d10f67832f44da03b36be911fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:39 +0000
Subject: [PATCH 078/150] fix: OData server: links are given as URIs

---
 pyslet/pyslet/odata2/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 844d6ab..17193b5 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -634,7 +634,7 @@ class Server(app.Server):
 			doc=Document(root=Links)
 			for e in entities.itervalues():
 				child=doc.root.ChildElement(URI)
-				child.SetValue(str(self.serviceRoot)+"%s(%s)"%(e.entitySet.name,repr(e.Key())))
+				child.SetValue(str(e.GetLocation()))
 			data=str(doc)
 		responseHeaders.append(("Content-Type",str(responseType)))
 		responseHeaders.append(("Content-Length",str(len(data))))
-- 
2.43.0


From acb6eaadf5bb7ba56a5ce46b01fe94ed0640f898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:39 +0000
Subject: [PATCH 079/150] fix: OData server: collections of values in JSON,
 lengths of streams

---
 pyslet/pyslet/odata2/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 17193b5..9fc069b 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -787,7 +787,7 @@ class Server(app.Server):
 		if responseType is None:
 			return self.ODataError(request,environ,start_response,"Not Acceptable",'media stream type refused, try application/octet-stream',406)
 		responseHeaders.append(("Content-Type",str(responseType)))
-		responseHeaders.append(("Content-Length",entity.GetStreamSize()))
+		responseHeaders.append(("Content-Length",str(entity.GetStreamSize())))
 		self.SetETag(entity,responseHeaders)
 		start_response("%i %s"%(200,"Success"),responseHeaders)
 		return entity.GetStreamGenerator()
@@ -903,7 +903,7 @@ class Server(app.Server):
 		if responseType is None:
 			return self.ODataError(request,environ,start_response,"Not Acceptable",'xml, json or plain text formats supported',406)
 		if responseType=="application/json":
-			data='{"d":%s}'%string.join(collection.GenerateCollectionInJSON(request.version))
+			data='{"d":%s}'%string.join(collection.GenerateCollectionInJSON(request.version),'')
 		else:
 			e=Collection(None)
 			e.SetXMLName((ODATA_METADATA_NAMESPACE,collection.name))
-- 
2.43.0


From 19e18e4f1f0710f1c8cfaa200e70148fe01a17b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:22 +0000
Subject: [PATCH 080/150] fix: OData server: the key of an existing entity
 cannot be changed

---
 pyslet/pyslet/odata2/core.py   | 9 ++++++++-
 pyslet/pyslet/odata2/server.py | 2 ++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index e4f7539..e24be47 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -2080,7 +2080,10 @@ class Entity(edm.Entity):
 		"""Sets the value of this entity from a dictionary parsed from a
 		JSON representation."""
 		for k,v in self.DataItems():
-			if k in obj:
+			if forUpdate and self.exists and k in self.entitySet.keys:
+				# the key of an existing entity can't be updated
+				continue
+			elif k in obj:
 				if isinstance(v,edm.SimpleValue):
 					ReadEntityPropertyValueInJSON(v,obj[k])
 				else:
@@ -3003,6 +3006,10 @@ class Entry(atom.Entry):
 		selected=set()
 		unselected=set()
 		for k,v in entity.DataItems():
+			if forUpdate and entity.exists and k in entity.entitySet.keys:
+				# the key of an existing entity can't be updated
+				selected.add(k)
+				continue
 			# catch property-level feed customisation here
 			propertyDef=entity.typeDef[k]
 			targetPath=propertyDef.GetTargetPath()
diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 9fc069b..59db8b8 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -542,6 +542,8 @@ class Server(app.Server):
 					else:
 						return self.ReturnValue(parentEntity,resource,request,environ,start_response,responseHeaders)
 				elif method=="PUT":
+					if parentEntity is not None and [k for k in parentEntity.entitySet.keys if parentEntity[k] is resource]:
+						raise InvalidMethod("PUT failed, %s is a key property"%resource.pDef.name)
 					if request.pathOption==PathOption.value:
 						if resource:
 							self.ReadDereferencedValue(resource,environ)
-- 
2.43.0


From 7ea40b5ddaf621f6c2b911a81055ce4a2dd6a82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:22 +0000
Subject: [PATCH 081/150] fix: OData server: the names of key predicates are
 checked

---
 pyslet/pyslet/odata2/server.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 59db8b8..b013e34 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -282,6 +282,13 @@ class Server(app.Server):
 		request=ODataURI(href,self.pathPrefix)
 		return self.GetResource(request)[0]
 	
+	def GetKey(self,entitySet,keyPredicate):
+		"""Returns the key given by *keyPredicate*, raises KeyError if
+		it does not name the key properties of *entitySet*"""
+		if keyPredicate.keys()!=[''] and set(keyPredicate)!=set(entitySet.keys):
+			raise KeyError(str(keyPredicate))
+		return entitySet.GetKey(keyPredicate)
+		
 	def GetResource(self,odataURI):
 		resource=self.model
 		noNavPath=(resource is None)
@@ -313,7 +320,7 @@ class Server(app.Server):
 						# the keyPredicate can be passed directly as the key
 						try:
 							collection=resource
-							resource=collection[collection.entitySet.GetKey(keyPredicate)]
+							resource=collection[self.GetKey(collection.entitySet,keyPredicate)]
 							collection.close()
 						except KeyError,e:
 							raise MissingURISegment("%s%s"%(name,ODataURI.FormatKeyDict(keyPredicate)))					
@@ -333,7 +340,7 @@ class Server(app.Server):
 						if keyPredicate:
 							try:
 								with resource.OpenCollection() as collection:
-									resource=collection[collection.entitySet.GetKey(keyPredicate)]
+									resource=collection[self.GetKey(collection.entitySet,keyPredicate)]
 							except KeyError,e:
 								raise MissingURISegment(name)
 						else:
-- 
2.43.0


From ebf607aedac26fa0e277375f4cf61719db674335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:22 +0000
Subject: [PATCH 082/150] fix: OData server: malformed and mistyped request
 bodies are client errors

---
 pyslet/pyslet/odata2/server.py | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index b013e34..73dc0a9 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -2,7 +2,7 @@
 """This module implements the Open Data Protocol specification defined by Microsoft."""
 
 from types import *
-import sys, cgi, urllib, string, itertools, traceback, StringIO, json, base64, decimal, uuid, math, warnings, logging
+import sys, cgi, urllib, string, itertools, traceback, StringIO, codecs, json, base64, decimal, uuid, math, warnings, logging
 
 import pyslet.info as info
 import pyslet.iso8601 as iso
@@ -702,6 +702,15 @@ class Server(app.Server):
 				
 	def ReadXMLOrJSON(self,environ):
 		"""Reads either an XML document or a JSON object from environ."""
+		try:
+			result=self._ReadXMLOrJSON(environ)
+		except (xml.XMLError,LookupError,UnicodeError),e:
+			raise InvalidData("Unable to parse request body: %s"%repr(e))
+		if not isinstance(result,(Document,DictType)):
+			raise InvalidData("Expected JSON object in request body")
+		return result
+		
+	def _ReadXMLOrJSON(self,environ):
 		atomFlag=None
 		encoding=None
 		if "CONTENT_TYPE" in environ:
@@ -766,7 +775,10 @@ class Server(app.Server):
 				raise InvalidData("Unable to parse atom Entry from request body (found <%s>)"%input.root.xmlname)
 		else:
 			# must be a json object
-			entity.SetFromJSONObject(input,self.GetResourceFromURI,True)
+			try:
+				entity.SetFromJSONObject(input,self.GetResourceFromURI,True)
+			except (TypeError,AttributeError,LookupError),e:
+				raise InvalidData("Unable to interpret JSON object: %s"%repr(e))
 		
 	def ReturnEntity(self,entity,request,environ,start_response,responseHeaders,status=200,statusMsg="Success"):
 		"""Returns a single Entity."""
@@ -809,10 +821,15 @@ class Server(app.Server):
 			else:
 				raise InvalidData("Unable to parse property from request body (found <%s>)"%input.root.xmlname)
 		else:
-			if isinstance(value,edm.SimpleValue):
-				ReadEntityPropertyInJSON1(value,input)
-			else:
-				ReadEntityCTInJSON(value,input)
+			if value.pDef.name not in input:
+				raise InvalidData("Unable to find property %s in request body"%value.pDef.name)
+			try:
+				if isinstance(value,edm.SimpleValue):
+					ReadEntityPropertyInJSON1(value,input)
+				else:
+					ReadEntityCTInJSON(value,input)
+			except (TypeError,AttributeError,LookupError),e:
+				raise InvalidData("Unable to interpret JSON object: %s"%repr(e))
 		
 	def ReturnValue(self,entity,value,request,environ,start_response,responseHeaders):
 		"""Returns a single property value."""
@@ -878,7 +895,10 @@ class Server(app.Server):
 			encoding=requestType.parameters.get('charset',(None,None))[1]
 			if encoding is None:
 				encoding="iso-8859-1"
-			data=data.decode(encoding)
+			try:
+				data=data.decode(encoding)
+			except LookupError:
+				raise InvalidData("Unknown character set: %s"%encoding)
 		if isinstance(value,edm.BinaryValue):
 			value.value=data
 		else:
-- 
2.43.0


From 9022afcf5495e4b9643c96ec57dea7b10067b39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:22 +0000
Subject: [PATCH 083/150] fix: OData server: $value does not apply to
 collections

---
 pyslet/pyslet/odata2/server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 73dc0a9..6f3bc8f 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -499,6 +499,8 @@ class Server(app.Server):
 				else:
 					raise InvalidMethod("%s not supported here"%method)
 			elif isinstance(resource,edm.EntityCollection):
+				if request.pathOption==PathOption.value:
+					raise BadURISegment("$value cannot be used with a collection")
 				if method=="GET":
 					self.ExpandResource(resource,request.sysQueryOptions)
 					resource.Filter(request.sysQueryOptions.get(SystemQueryOption.filter,None))
-- 
2.43.0


From d9d35fc66f9a2fcf4bad5ee3c65883a7013c2d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:22 +0000
Subject: [PATCH 084/150] fix: OData server: nothing is created when the answer
 is not acceptable

---
 pyslet/pyslet/odata2/server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 6f3bc8f..9a683b6 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -511,6 +511,8 @@ class Server(app.Server):
 					inlineCount=request.sysQueryOptions.get(SystemQueryOption.inlinecount,None)
 					resource.SetInlineCount(inlineCount==InlineCount.allpages)
 					return self.ReturnEntityCollection(resource,request,environ,start_response,responseHeaders)
+				elif method=="POST" and self.ContentNegotiation(request,environ,self.EntryTypes) is None:
+					return self.ODataError(request,environ,start_response,"Not Acceptable",'xml, json or plain text formats supported',406)
 				elif method=="POST" and resource.IsMediaLinkEntryCollection():
 					# POST of a media resource
 					entity=resource.NewEntity()
-- 
2.43.0


From 6a52c29c5e0a241f063b98d9cf652316fccd6003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:22 +0000
Subject: [PATCH 085/150] fix: OData server: $count applies $filter

---
 pyslet/pyslet/odata2/server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 9a683b6..447472a 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -406,6 +406,7 @@ class Server(app.Server):
 				if isinstance(resource,edm.Entity):
 					return self.ReturnCount(1,request,environ,start_response,responseHeaders)
 				elif isinstance(resource,edm.EntityCollection):
+					resource.Filter(request.sysQueryOptions.get(SystemQueryOption.filter,None))
 					return self.ReturnCount(len(resource),request,environ,start_response,responseHeaders)
 				else:
 					raise BadURISegment("$count must be applied to an EntitySet or single EntityType instance")
-- 
2.43.0


From 3c81a2c2ab5956b0e16e8dac83169c74ee695447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:22 +0000
Subject: [PATCH 086/150] fix: OData server: $expand and $select are validated
 for single entities

---
 pyslet/pyslet/odata2/server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 447472a..48c7e8b 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -616,6 +616,7 @@ class Server(app.Server):
 				return
 			if not isinstance(resource,(EntityCollection,Entity)):
 				raise InvalidSystemQueryOption("$select/$expand not allowed")
+			resource.entitySet.entityType.ValidateExpansion(expand,select)
 			resource.Expand(expand,select)		
 		except ValueError as e:
 			raise InvalidSystemQueryOption("$select/$expand error: %s"%str(e))					
-- 
2.43.0


From 793afd1d242f08232d55c7a18149ae7f453b24ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:22 +0000
Subject: [PATCH 087/150] fix: OData server: values that are not nullable are
 required

---
 pyslet/pyslet/odata2/server.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 48c7e8b..da8fcf8 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -771,7 +771,21 @@ class Server(app.Server):
 					unicodeInput=codecs.getreader(encoding)(input)
 			return json.load(unicodeInput)
 			
+	def CheckNull(self,items,keys=()):
+		"""Raises InvalidData if any of the values is null but must not be.
+		
+		The values of properties in *keys* are not checked."""
+		for k,v in items:
+			if isinstance(v,edm.Complex):
+				self.CheckNull(v.iteritems())
+			elif not v and k not in keys and v.pDef is not None and not v.pDef.nullable:
+				raise InvalidData("A value is required for property %s"%k)
+			
 	def ReadEntity(self,entity,environ):
+		self._ReadEntity(entity,environ)
+		self.CheckNull(entity.DataItems(),entity.entitySet.keys)
+		
+	def _ReadEntity(self,entity,environ):
 		input=self.ReadXMLOrJSON(environ)
 		if isinstance(input,Document):
 			if isinstance(input.root,Entry):
-- 
2.43.0


From 70a37256a73464d1cbbf185884a1843b2d724135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:49 +0000
Subject: [PATCH 088/150] fix: OData server: values that are not nullable are
 required in deep inserts

---
 pyslet/pyslet/odata2/server.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index da8fcf8..abdede6 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -783,7 +783,16 @@ class Server(app.Server):
 			
 	def ReadEntity(self,entity,environ):
 		self._ReadEntity(entity,environ)
+		self.CheckRequired(entity)
+		
+	def CheckRequired(self,entity):
+		"""Checks *entity* and any new entities bound to it for missing
+		values"""
 		self.CheckNull(entity.DataItems(),entity.entitySet.keys)
+		for k,dv in entity.NavigationItems():
+			for binding in dv.bindings:
+				if isinstance(binding,edm.Entity) and not binding.exists:
+					self.CheckRequired(binding)
 		
 	def _ReadEntity(self,entity,environ):
 		input=self.ReadXMLOrJSON(environ)
-- 
2.43.0


From 165a1cb7f63c4c26ce376e88412a88a5f2fa5ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:49 +0000
Subject: [PATCH 089/150] fix: OData server: a new entity is returned with all
 its properties

---
 pyslet/pyslet/odata2/server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index abdede6..582f135 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -540,6 +540,8 @@ class Server(app.Server):
 					# read the entity from the request
 					self.ReadEntity(entity,environ)
 					resource.InsertEntity(entity)
+					# the properties left out of the request are not unselected
+					entity.Expand(None)
 					responseHeaders.append(('Location',str(entity.GetLocation())))
 					return self.ReturnEntity(entity,request,environ,start_response,responseHeaders,201,"Created")
 				else:
-- 
2.43.0


From 626600de6d397e5012488f0597f9ab1f3ec5e5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:49 +0000
Subject: [PATCH 090/150] fix: OData server: the ETag of an entity updated in
 part

---
 pyslet/pyslet/odata2/server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 582f135..d744848 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -489,6 +489,10 @@ class Server(app.Server):
 						# update the entity from the request
 						self.ReadEntity(resource,environ)
 						resource.Update()
+						if resource.selected is not None:
+							# values left out of the request may have been kept
+							with resource.entitySet.OpenCollection() as collection:
+								resource=collection[resource.Key()]
 						# now we've updated the entity it is safe to calculate the ETag
 						self.SetETag(resource,responseHeaders)
 						return self.ReturnEmpty(start_response,responseHeaders)
-- 
2.43.0


From e95653139359c4bfd933b3450e8ad41197930f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:12 +0000
Subject: [PATCH 091/150] fix: OData: white space in the values of properties
 is preserved in Atom

---
 pyslet/pyslet/odata2/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index e24be47..ba028f9 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -2624,6 +2624,10 @@ class Property(ODataElement):
 		ODataElement.__init__(self,parent)
 		self.edmValue=None		# an :py:class:`pyslet.mc_csdl.EDMValue` instance
 
+	def GetCanonicalChildren(self):
+		"""White space is significant in the values of properties"""
+		return iter(list(self.GetChildren()))
+		
 	def GetSimpleType(self):
 		type=self.GetNSAttribute((ODATA_METADATA_NAMESPACE,'type'))
 		if type:			
-- 
2.43.0


From 0ca750274a3003bfe11cc0c72e5783fd1b852823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:12 +0000
Subject: [PATCH 092/150] fix: OData: media link entries have a content element

---
 pyslet/pyslet/odata2/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index ba028f9..e48683c 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -3260,6 +3260,14 @@ class Entry(atom.Entry):
 						link.Expand(feed[0])
 		# Now set the new property values in the properties element
 		if mediaLinkResource:
+			if entity.exists and not forUpdate:
+				# the media resource is the content of the entry
+				content=self.ChildElement(Content)
+				try:
+					content.type=str(entity.GetStreamType())
+				except NotImplementedError:
+					content.type=None
+				content.src=uri.URIFactory.URI(location+"/$value")
 			self.ChildElement(Properties)
 		else:
 			self.ChildElement(Content).ChildElement(Properties)
-- 
2.43.0


From e3ffa7ada717c600a847932413e6fa5dbea4672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:46 +0000
Subject: [PATCH 093/150] fix: OData server: the body of a link request must
 identify an entity of the target set

---
 pyslet/pyslet/odata2/server.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index d744848..0a89bfa 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -439,7 +439,7 @@ class Server(app.Server):
 						resource=parentEntity[request.linksProperty].OpenCollection()
 					if isinstance(resource,edm.EntityCollection):
 						with resource as collection:
-							targetEntity=self.ReadEntityFromLink(environ)
+							targetEntity=self.ReadEntityFromLink(environ,collection.entitySet)
 							collection[targetEntity.Key()]=targetEntity
 						return self.ReturnEmpty(start_response,responseHeaders)
 					else:
@@ -449,7 +449,7 @@ class Server(app.Server):
 					if parentEntity[request.linksProperty].isCollection:
 						raise BadURISegment("%s: can't update a link with multiplicity *"%request.linksProperty)
 					with parentEntity[request.linksProperty].OpenCollection() as collection:
-						targetEntity=self.ReadEntityFromLink(environ)
+						targetEntity=self.ReadEntityFromLink(environ,collection.entitySet)
 						collection.Replace(targetEntity)
 					return self.ReturnEmpty(start_response,responseHeaders)
 				elif method=="DELETE":
@@ -662,19 +662,25 @@ class Server(app.Server):
 		start_response("%i %s"%(200,"Success"),responseHeaders)
 		return [data]
 		
-	def ReadEntityFromLink(self,environ):
+	def ReadEntityFromLink(self,environ,targetSet):
+		"""Returns the entity, from *targetSet*, that is identified by the
+		link in the request body."""
 		input=self.ReadXMLOrJSON(environ)
 		if isinstance(input,Document):
 			if isinstance(input.root,URI):
-				return self.GetResourceFromURI(uri.URIFactory.URI(input.root.GetValue()))
+				href=input.root.GetValue()
 			else:
 				raise InvalidData("Unable to parse link from request body (found <%s>)"%input.root.xmlname)
 		else:
 			# must be a json object
 			try:
-				return self.GetResourceFromURI(uri.URIFactory.URI(input['uri']))
-			except KeyError:
-				raise InvalidData("Unable to parse link from JSON request body (found %s )"%str(input)[:256])
+				href=input['uri']
+			except (KeyError,TypeError):
+				raise InvalidData("Unable to parse link from JSON request body (found %s )"%repr(input)[:256])
+		entity=self.GetResourceFromURI(uri.URIFactory.URI(href))
+		if not isinstance(entity,Entity) or entity.entitySet is not targetSet:
+			raise InvalidData("Resource is not a valid target for this link: %s"%href)
+		return entity
 		
 	def ReturnLink(self,entity,request,environ,start_response,responseHeaders):
 		responseType=self.ContentNegotiation(request,environ,self.ValueTypes)
-- 
2.43.0


From 9d4db2e9ecfd67c1453144783c333258f596f811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:46 +0000
Subject: [PATCH 094/150] fix: OData server: paging of links in XML

---
 pyslet/pyslet/odata2/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 0a89bfa..ee0f812 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -653,7 +653,7 @@ class Server(app.Server):
 			data=str('{"d":%s}'%string.join(entities.GenerateLinkCollJSON(request.version),''))
 		else:
 			doc=Document(root=Links)
-			for e in entities.itervalues():
+			for e in entities.iterpage():
 				child=doc.root.ChildElement(URI)
 				child.SetValue(str(e.GetLocation()))
 			data=str(doc)
-- 
2.43.0


From c665931a4186a8c7572a7bab405c88b628eed050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:46 +0000
Subject: [PATCH 095/150] fix: OData: complex properties may be left out of a
 request body

---
 pyslet/pyslet/odata2/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index e48683c..a35633c 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -2090,7 +2090,7 @@ class Entity(edm.Entity):
 					# assume a complex value then
 					ReadEntityCTValue(v,obj[k])
 			else:
-				v.SetFromValue(None)
+				v.SetNull()
 		if self.exists==False:
 			# we need to look for any link bindings
 			for navProperty in self.NavigationKeys():
@@ -2315,7 +2315,7 @@ def ReadEntityCTValue(complexValue,obj):
 			else:
 				ReadEntityCTValue(v,obj[k])
 		else:
-			v.SetFromValue(None)
+			v.SetNull()
 	
 
 TICKS_PER_DAY=86400000
@@ -3048,7 +3048,7 @@ class Entry(atom.Entry):
 					selected.add(k)
 				else:
 					# Property is not selected!
-					v.SetFromValue(None)
+					v.SetNull()
 					unselected.add(k)
 		# Now set this entity's select property...
 		if not unselected:
-- 
2.43.0


From 62a26e22b56aa6b62865fa2497ea71afe4bc8d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:05 +0000
Subject: [PATCH 096/150] fix: csdl: values are copied from the new value, not
 from themselves

---
 pyslet/pyslet/odata2/csdl.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index f858365..8a2079f 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -1694,13 +1694,13 @@ class Complex(EDMValue,TypeInstance):
 				continue
 			if isinstance(v,Complex):
 				if isinstance(nv,Complex):
-					self[k].SetFromComplex(v)
+					self[k].SetFromComplex(nv)
 				else:
 					raise ValueError("Can't set Complex property from %s"%repr(nv))
 			elif isinstance(nv,Complex):
 				continue
 			else:
-				self[k].SetFromSimpleValue(v)
+				self[k].SetFromSimpleValue(nv)
 
 			
 class DeferredValue(object):
@@ -1982,18 +1982,18 @@ class Entity(TypeInstance):
 		for k,v in self.DataItems():
 			if k in self.entitySet.keys:
 				continue
-			newValue=newValue.get(k,None)
-			if newValue is None:
+			nv=newValue.get(k,None)
+			if nv is None:
 				continue
 			if isinstance(v,Complex):
-				if isinstance(newValue,Complex):
-					self[k].SetFromComplex(v)
+				if isinstance(nv,Complex):
+					self[k].SetFromComplex(nv)
 				else:
 					continue
-			elif isinstance(newValue,Complex):
+			elif isinstance(nv,Complex):
 				continue
 			else:
-				self[k].SetFromSimpleValue(v)
+				self[k].SetFromSimpleValue(nv)
 				
 	def NavigationKeys(self):
 		"""Iterates through the names of this entity's navigation properties only.
-- 
2.43.0


From 381d0612a76088bb6c30377e441a905cc4471148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:05 +0000
Subject: [PATCH 097/150] fix: memds: an update that fails changes nothing

---
 pyslet/pyslet/odata2/memds.py | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index 3e7b22b..a29cc32 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -199,6 +199,24 @@ class InMemoryEntityStore(object):
 		if key in self._deleting:
 			self._deleting.remove(key)
 					
+	def GetLinks(self,key):
+		"""Returns the links of the entity with *key* as a list of tuples
+		of association index, reverse flag and list of linked keys."""
+		return ([(a,False,list(a.GetLinksFrom(key))) for a in self.associations.values()]+
+			[(a,True,list(a.GetLinksTo(key))) for a in self.reverseAssociations.values()])
+	
+	def SetLinks(self,key,links):
+		"""Restores *links* previously returned by :py:meth:`GetLinks`."""
+		for a,reverse,keys in links:
+			if reverse:
+				a.ReverseDeleteHook(key)
+				for k in keys:
+					a.AddLink(k,key)
+			else:
+				a.DeleteHook(key)
+				for k in keys:
+					a.AddLink(key,k)
+	
 	def DeleteEntity(self,key):
 		with self.container.lock:		
 			for associationIndex in self.associations.values():
@@ -443,10 +461,17 @@ class EntityCollection(odata.EntityCollection):
 	def UpdateEntity(self,entity):
 		# force an error if we don't have a key
 		key=entity.Key()
-		with self.entityStore.container.lock:
-			self.entityStore.UpdateEntity(entity)
-			# now process any bindings
-			self.UpdateBindings(entity)
+		with self.entityStore.container.Insertion():
+			value=self.entityStore.data[key]
+			links=self.entityStore.GetLinks(key)
+			try:
+				self.entityStore.UpdateEntity(entity)
+				# now process any bindings
+				self.UpdateBindings(entity)
+			except Exception:
+				self.entityStore.data[key]=value
+				self.entityStore.SetLinks(key,links)
+				raise
 		
 	def __delitem__(self,key):
 		"""We do a cascade delete of everything that *must* be linked to
-- 
2.43.0


From ff851fa0956a839f3e18a9b3907f0c41de4fd8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:38 +0000
Subject: [PATCH 098/150] fix: XML: an element with an empty string has no
 white space

---
 pyslet/pyslet/xml20081126/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 7c07993..6132580 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -1426,7 +1426,7 @@ class Element(Node):
 			iChild=children.next()
 		except StopIteration:
 			# There was only one child
-			if type(firstChild) in StringTypes:
+			if type(firstChild) in StringTypes and firstChild:
 				firstChild=CollapseSpace(firstChild)
 # 				if len(firstChild)>1 and firstChild[-1]==u' ':
 # 					# strip the trailing space from the only child - why do we do this?
-- 
2.43.0


From 5083d34075b2322a1351a5b9c80793e83c99f653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:17 +0000
Subject: [PATCH 099/150] fix: OData server: complex values have no $value

---
 pyslet/pyslet/odata2/server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index ee0f812..ffaa67e 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -551,6 +551,8 @@ class Server(app.Server):
 				else:
 					raise InvalidMethod("%s not supported here"%method)					
 			elif isinstance(resource,edm.EDMValue):
+				if request.pathOption==PathOption.value and isinstance(resource,edm.Complex):
+					raise BadURISegment("$value cannot be used with a complex property")
 				if method=="GET":
 					if request.pathOption==PathOption.value:
 						if resource:
-- 
2.43.0


From 0ad16be2bb2d5dce45da3c6bfe3d86f6e7b6f794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:39 +0000
Subject: [PATCH 100/150] fix: QTI v1: enumerations have their default values

---
 pyslet/pyslet/qtiv1/core.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/qtiv1/core.py b/pyslet/pyslet/qtiv1/core.py
index 7793c9c..e00c203 100755
--- a/pyslet/pyslet/qtiv1/core.py
+++ b/pyslet/pyslet/qtiv1/core.py
@@ -81,7 +81,7 @@ class Action(xsi.Enumeration):
 		'Multiply':4,
 		'Divide':5
 		}
-xsi.MakeEnumeration(Action)
+xsi.MakeEnumeration(Action,'Set')
 
 
 class Area(xsi.Enumeration):
@@ -207,7 +207,7 @@ class FeedbackStyle(xsi.Enumeration):
 		'Multilevel':3,
 		'Proprietary':4
 		}
-xsi.MakeEnumeration(FeedbackStyle)
+xsi.MakeEnumeration(FeedbackStyle,'Complete')
 
 
 class FeedbackType(xsi.Enumeration):
@@ -229,7 +229,7 @@ class FeedbackType(xsi.Enumeration):
 		'Solution':2,
 		'Hint':3
 		}
-xsi.MakeEnumeration(FeedbackType)
+xsi.MakeEnumeration(FeedbackType,'Response')
 
 
 class FIBType(xsi.Enumeration):
@@ -371,7 +371,7 @@ class RCardinality(xsi.Enumeration):
 		'Ordered':3
 		}
 			
-xsi.MakeEnumeration(RCardinality)
+xsi.MakeEnumeration(RCardinality,'Single')
 
 def MigrateV2Cardinality(rCardinality):
 	"""Maps a v1 cardinality onto the corresponding v2 constant.
@@ -413,7 +413,7 @@ class VarType(xsi.Enumeration):
 		'Enumerated':5,
 		'Set':6
 		}
-xsi.MakeEnumeration(VarType)
+xsi.MakeEnumeration(VarType,'Integer')
 
 def MigrateV2VarType(vartype,log):
 	"""Returns the v2 BaseType representing the v1 *vartype*.
-- 
2.43.0


From 32f65184aa77eb2cde9745f823af0e22f5d34aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:39 +0000
Subject: [PATCH 101/150] fix: QTI v1: Boolean and Enumerated variables are
 different

---
 pyslet/pyslet/qtiv1/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/qtiv1/core.py b/pyslet/pyslet/qtiv1/core.py
index e00c203..b777178 100755
--- a/pyslet/pyslet/qtiv1/core.py
+++ b/pyslet/pyslet/qtiv1/core.py
@@ -410,8 +410,8 @@ class VarType(xsi.Enumeration):
 		'Decimal':3,
 		'Scientific':4,
 		'Boolean':5,
-		'Enumerated':5,
-		'Set':6
+		'Enumerated':6,
+		'Set':7
 		}
 xsi.MakeEnumeration(VarType,'Integer')
 
-- 
2.43.0


From 453ccbc7bfb140d17174cd686867f4e11f5da5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:39 +0000
Subject: [PATCH 102/150] fix: QTI v1: unsupported features raise
 QTIUnimplementedError

---
 pyslet/pyslet/qtiv1/common.py | 38 +++++++++++++++++------------------
 pyslet/pyslet/qtiv1/core.py   |  2 +-
 pyslet/pyslet/qtiv1/item.py   | 26 ++++++++++++------------
 3 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/pyslet/pyslet/qtiv1/common.py b/pyslet/pyslet/qtiv1/common.py
index 57063c3..e257414 100755
--- a/pyslet/pyslet/qtiv1/common.py
+++ b/pyslet/pyslet/qtiv1/common.py
@@ -343,7 +343,7 @@ class MatText(core.QTIElement,PositionMixin,MatThingMixin):
 					self.matChildren=list(div.GetChildren())
 		elif self.texttype=='text/rtf':
 			# parse the RTF content
-			raise QTIUnimplementedError
+			raise core.QTIUnimplementedError
 
 	def IsInline(self):
 		if self.texttype=='text/plain':
@@ -357,7 +357,7 @@ class MatText(core.QTIElement,PositionMixin,MatThingMixin):
 					return False
 			return True
 		else:
-			raise QTIUnimplementedError(self.texttype)
+			raise core.QTIUnimplementedError(self.texttype)
 			
 	def ExtractText(self):
 		if self.matChildren:
@@ -451,7 +451,7 @@ class MatText(core.QTIElement,PositionMixin,MatThingMixin):
 						newChild=child.Copy(addNode)
 						qtiv2.content.FixHTMLNamespace(newChild)
 		else:
-			raise QTIUnimplementedError
+			raise core.QTIUnimplementedError
 
 
 class MatEmText(MatText):
@@ -548,7 +548,7 @@ class MatImage(core.QTIElement,PositionMixin,MatThingMixin):
 
 	def MigrateV2Content(self,parent,childType,log):
 		if self.uri is None:
-			raise QTIUnimplementedError("inclusion of inline images")
+			raise core.QTIUnimplementedError("inclusion of inline images")
 		if childType is html.BlockMixin:
 			# We must wrap this img in a <p>
 			p=parent.ChildElement(html.P,(qtiv2.core.IMSQTI_NAMESPACE,'p'))
@@ -599,7 +599,7 @@ class MatAudio(core.QTIElement,MatThingMixin):
 
 	def MigrateV2Content(self,parent,childType,log):
 		if self.uri is None:
-			raise QTIUnimplementedError("inclusion of inline audio")
+			raise core.QTIUnimplementedError("inclusion of inline audio")
 		if childType is html.BlockMixin:
 			# We must wrap this object in a <p>
 			p=parent.ChildElement(html.P,(qtiv2.core.IMSQTI_NAMESPACE,'p'))
@@ -651,7 +651,7 @@ class MatVideo(core.QTIElement,PositionMixin,MatThingMixin):
 
 	def MigrateV2Content(self,parent,childType,log):
 		if self.uri is None:
-			raise QTIUnimplementedError("inclusion of inline video")
+			raise core.QTIUnimplementedError("inclusion of inline video")
 		if childType is html.BlockMixin:
 			# We must wrap this object in a <p>
 			p=parent.ChildElement(html.P,(qtiv2.core.IMSQTI_NAMESPACE,'p'))
@@ -701,7 +701,7 @@ class MatApplet(core.QTIElement,PositionMixin,MatThingMixin):
 		return "[applet]"
 
 	def MigrateV2Content(self,parent,childType,log):
-		raise QTIUnimplementedError("matapplet")
+		raise core.QTIUnimplementedError("matapplet")
 
 
 class MatApplication(core.QTIElement,MatThingMixin):
@@ -741,7 +741,7 @@ class MatApplication(core.QTIElement,MatThingMixin):
 		return "[application]"
 
 	def MigrateV2Content(self,parent,childType,log):
-		raise QTIUnimplementedError("matapplication")
+		raise core.QTIUnimplementedError("matapplication")
 
 
 class MatRef(MatThingMixin,core.QTIElement):
@@ -1177,12 +1177,12 @@ class SetVar(core.QTIElement):
 		identifier=qtiv2.core.ValidateIdentifier(self.varName)
 		outcome=v2Item.declarations.get(identifier,None)
 		if outcome is None:
-			raise QTIUnimplementedError("Auto-declared outcomes")
+			raise core.QTIUnimplementedError("Auto-declared outcomes")
 		setValue=parent.ChildElement(qtiv2.processing.SetOutcomeValue)
 		setValue.identifier=identifier
 		if outcome.cardinality!=qtiv2.variables.Cardinality.single:
-			raise QTIUnimplementedError("setvar for '%s' with cardinality %s"%(identifier,
-				qtiv2.variables.Cardinality.encode[outcome.cardinality]))
+			raise core.QTIUnimplementedError("setvar for '%s' with cardinality %s"%(identifier,
+				qtiv2.variables.Cardinality.EncodeValue(outcome.cardinality)))
 		value=None
 		variable=None
 		if not self.action or self.action==core.Action.Set:
@@ -1276,7 +1276,7 @@ class ExtendableExpressionMixin:
 	"""Abstract mixin class to indicate an expression, including var_extension"""
 
 	def MigrateV2Expression(self,parent,log):
-		raise QTIUnimplementedError("Expression element: %s"%self.__class__.__name__)
+		raise core.QTIUnimplementedError("Expression element: %s"%self.__class__.__name__)
 
 	
 class ExpressionMixin(ExtendableExpressionMixin):
@@ -1366,7 +1366,7 @@ class VarEqual(VarThing):
 				log.append("Warning: equality operator with float values is deprecated")
 				expression=parent.ChildElement(qtiv2.expressions.Equal)
 			else:
-				raise QTIUnimplementedOperator("varequal(%s)"%qtiv2.variables.BaseType.Encode(d.baseType))
+				raise core.QTIUnimplementedError("varequal(%s)"%qtiv2.variables.BaseType.EncodeValue(d.baseType))
 			self.MigrateV2Variable(d,expression,log)
 			self.MigrateV2Value(d,expression,log)
 		else:
@@ -1380,7 +1380,7 @@ class VarEqual(VarThing):
 			elif d.baseType==qtiv2.variables.BaseType.float:
 				log.append("Warning: member operation is deprecated when baseType is float")
 			else:
-				raise QTIUnimplementedOperator("varequal(%s)"%qtiv2.variables.BaseType.Encode(d.baseType))
+				raise core.QTIUnimplementedError("varequal(%s)"%qtiv2.variables.BaseType.EncodeValue(d.baseType))
 			expression=parent.ChildElement(qtiv2.expressions.Member)
 			self.MigrateV2Value(d,expression,log)
 			self.MigrateV2Variable(d,expression,log)
@@ -1391,7 +1391,7 @@ class VarInequality(VarThing):
 
 	def MigrateV2Inequality(self):
 		"""Returns the class to use in qtiv2"""
-		raise QTIUnimplementedOperator(self.xmlname)
+		raise core.QTIUnimplementedError(self.xmlname)
 		
 	def MigrateV2Expression(self,parent,log):
 		v2Item=parent.FindParent(qtiv2.items.AssessmentItem)
@@ -1404,11 +1404,11 @@ class VarInequality(VarThing):
 			if d.baseType==qtiv2.variables.BaseType.integer or d.baseType==qtiv2.variables.BaseType.float:
 				expression=parent.ChildElement(self.MigrateV2Inequality())
 			else:
-				raise QTIUnimplementedOperator("%s(%s)"%(self.xmlname,qtiv2.variables.BaseType.Encode(d.baseType)))
+				raise core.QTIUnimplementedError("%s(%s)"%(self.xmlname,qtiv2.variables.BaseType.EncodeValue(d.baseType)))
 			self.MigrateV2Variable(d,expression,log)
 			self.MigrateV2Value(d,expression,log)
 		else:
-			raise QTIUnimplementedOperator("%s(%s:%s)"%(self.xmlname,qtiv2.variables.Cardinality.Encode(d.cardinality),qtiv2.variables.BaseType.Encode(d.baseType)))
+			raise core.QTIUnimplementedError("%s(%s:%s)"%(self.xmlname,qtiv2.variables.Cardinality.EncodeValue(d.cardinality),qtiv2.variables.BaseType.EncodeValue(d.baseType)))
 
 	
 class VarLT(VarInequality):
@@ -1533,9 +1533,9 @@ class VarInside(VarThing):
 				expression.shape,expression.coords=core.MigrateV2AreaCoords(self.areaType,self.GetValue(),log)
 				self.MigrateV2Variable(d,expression,log)			
 			else:
-				raise QTIUnimplementedError("varinside(%s)"%qtiv2.variables.BaseType.EncodeValue(d.baseType))
+				raise core.QTIUnimplementedError("varinside(%s)"%qtiv2.variables.BaseType.EncodeValue(d.baseType))
 		else:
-			raise QTIUnimplementedError("varinside with multiple/orderd variable")
+			raise core.QTIUnimplementedError("varinside with multiple/orderd variable")
 
 
 class DurEqual(core.QTIElement,ExpressionMixin):
diff --git a/pyslet/pyslet/qtiv1/core.py b/pyslet/pyslet/qtiv1/core.py
index b777178..8587eb1 100755
--- a/pyslet/pyslet/qtiv1/core.py
+++ b/pyslet/pyslet/qtiv1/core.py
@@ -164,7 +164,7 @@ def MigrateV2AreaCoords(area,value,log):
 		coords=[coords[0],coords[1],coords[0]+coords[3]-1,coords[1]+coords[2]-1]
 	elif area==Area.Ellipse:
 		if len(coords)<4:
-			if len(corrds)<2:
+			if len(coords)<2:
 				log.append("Error: not enough coordinates to locate ellipse, padding with zero")
 				while len(coords)<2:
 					coords.append(0)
diff --git a/pyslet/pyslet/qtiv1/item.py b/pyslet/pyslet/qtiv1/item.py
index 62c0b3c..f8d3506 100755
--- a/pyslet/pyslet/qtiv1/item.py
+++ b/pyslet/pyslet/qtiv1/item.py
@@ -925,14 +925,14 @@ class ResponseThing(Response):
 
 	def GetBaseType(self,interaction):
 		"""Returns the base type to use for the given interaction."""
-		raise QTIUnimplementedError("BaseType selection for %s"%self.__class__.__name__)
+		raise core.QTIUnimplementedError("BaseType selection for %s"%self.__class__.__name__)
 
 	def MigrateV2Content(self,parent,childType,log):
 		if self.inlinePrompt:
 			interactionPrompt=self.prompt
 		else:
 			if childType is html.InlineMixin:
-				raise QTIError("Unexpected attempt to inline interaction")
+				raise core.QTIError("Unexpected attempt to inline interaction")
 			interactionPrompt=None
 			if isinstance(self.render,RenderHotspot):
 				div=parent.ChildElement(html.Div,(qtiv2.core.IMSQTI_NAMESPACE,'div'))
@@ -1148,7 +1148,7 @@ class RenderThing(Render):
 		return True
 
 	def MigrateV2Interaction(self,parent,childType,prompt,log):
-		raise QTIUnimplementedError("%s x %s"%(self.parent.__class__.__name__,self.__class__.__name__))
+		raise core.QTIUnimplementedError("%s x %s"%(self.parent.__class__.__name__,self.__class__.__name__))
 		
 	def MigrateV2InteractionDefault(self,parent,interaction):
 		# Most interactions do not need default values.
@@ -1187,13 +1187,13 @@ class RenderChoice(RenderThing):
 		interaction=None
 		if isinstance(self.parent,ResponseLId):
 			if childType is html.InlineMixin:
-				raise QTIError("Unexpected attempt to put block interaction in inline context")
+				raise core.QTIError("Unexpected attempt to put block interaction in inline context")
 			if self.parent.rCardinality==core.RCardinality.Ordered:
-				raise QTIUnimplementedError("OrderInteraction")
+				raise core.QTIUnimplementedError("OrderInteraction")
 			else:
 				interaction=parent.ChildElement(qtiv2.interactions.ChoiceInteraction)
 		else:		
-			raise QTIUnimplementedError("%s x render_choice"%self.parent.__class__.__name__)
+			raise core.QTIUnimplementedError("%s x render_choice"%self.parent.__class__.__name__)
 		if prompt:
 			interactionPrompt=interaction.ChildElement(qtiv2.interactions.Prompt)
 			for child in prompt:
@@ -1241,16 +1241,16 @@ class RenderHotspot(RenderThing):
 		interaction=None
 		if isinstance(self.parent,ResponseLId):
 			if self.parent.rCardinality==core.RCardinality.Ordered:
-				raise QTIUnimplementedError("GraphicOrderInteraction")
+				raise core.QTIUnimplementedError("GraphicOrderInteraction")
 			else:
 				interaction=parent.ChildElement(qtiv2.interactions.HotspotInteraction)
 		elif isinstance(self.parent,ResponseXY):
 			if self.parent.rCardinality==core.RCardinality.Ordered:
-				raise QTIUnimplementedError('response_xy x render_hotspot')
+				raise core.QTIUnimplementedError('response_xy x render_hotspot')
 			else:
 				interaction=parent.ChildElement(qtiv2.interactions.SelectPointInteraction)
 		else:
-			raise QTIUnimplementedError("%s x render_hotspot"%self.parent.__class__.__name__)
+			raise core.QTIUnimplementedError("%s x render_hotspot"%self.parent.__class__.__name__)
 		if self.showDraw:
 			log.append('Warning: ignoring showdraw="Yes", what did you really want to happen?')
 		if self.minNumber is not None:
@@ -1525,7 +1525,7 @@ class RenderSlider(RenderThing):
 				interaction.maxChoices=1
 			elif self.parent.rCardinality==core.RCardinality.Ordered:
 				log.append("Error: ordered-slider replaced with orderInteraction.slider")
-				raise QTIUnimplementedError("OrderInteraction")
+				raise core.QTIUnimplementedError("OrderInteraction")
 			else:
 				log.append("Error: multiple-slider replaced with choiceInteraction.slider")
 				interaction=parent.ChildElement(qtiv2.interactions.ChoiceInteraction)
@@ -1549,9 +1549,9 @@ class RenderSlider(RenderThing):
 					interaction.orientation=core.MigrateV2Orientation(self.orientation)
 				# startValues are handled below after the variable is declared
 			else:
-				raise QTIUnimplementedError("Multiple/Ordered SliderInteraction")
+				raise core.QTIUnimplementedError("Multiple/Ordered SliderInteraction")
 		else:	
-			raise QTIUnimplementedError("%s x render_slider"%self.parent.__class__.__name__)
+			raise core.QTIUnimplementedError("%s x render_slider"%self.parent.__class__.__name__)
 		if prompt:
 			interactionPrompt=interaction.ChildElement(qtiv2.interactions.Prompt)
 			for child in prompt:
@@ -1568,7 +1568,7 @@ class RenderSlider(RenderThing):
 				value.SetValue(xsi.EncodeFloat(self.startVal))
 			else:
 				# slider bound to something else?
-				raise QTIError("Unexpected slider type for default: %s"%qtiv2.variables.BaseType.EncodeValue(declaration.baseType))
+				raise core.QTIError("Unexpected slider type for default: %s"%qtiv2.variables.BaseType.EncodeValue(declaration.baseType))
 
 
 class RenderExtension(Render):
-- 
2.43.0


From 619cb44f96dcac9f4b82e0c47472bd44310c63e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:39 +0000
Subject: [PATCH 103/150] fix: QTI v1: displayed feedback is identified as the
 migrated feedback is

---
 pyslet/pyslet/qtiv1/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv1/common.py b/pyslet/pyslet/qtiv1/common.py
index e257414..2d341f3 100755
--- a/pyslet/pyslet/qtiv1/common.py
+++ b/pyslet/pyslet/qtiv1/common.py
@@ -1239,7 +1239,7 @@ class DisplayFeedback(core.QTIElement):
 		variable.identifier='FEEDBACK'
 		value=multiple.ChildElement(qtiv2.expressions.BaseValue)
 		value.baseType=qtiv2.variables.BaseType.identifier
-		value.SetValue(self.linkRefID)
+		value.SetValue(identifier)
 
 
 class ConditionVar(core.QTIElement):
-- 
2.43.0


From ae8eac3ce5c295960a977d042885887affdcd9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:39 +0000
Subject: [PATCH 104/150] fix: QTI v1: the children of response processing
 elements can be listed

---
 pyslet/pyslet/qtiv1/item.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/qtiv1/item.py b/pyslet/pyslet/qtiv1/item.py
index f8d3506..79180f2 100755
--- a/pyslet/pyslet/qtiv1/item.py
+++ b/pyslet/pyslet/qtiv1/item.py
@@ -1798,7 +1798,7 @@ class ResProcessing(common.QTICommentContainer):
 		self.ConditionMixin=[]
 		
 	def GetChildren(self):
-		for child in QTICommentContainer.GetChildren(self): yield child
+		for child in common.QTICommentContainer.GetChildren(self): yield child
 		yield self.Outcomes
 		for child in self.ConditionMixin: yield child
 
@@ -1844,7 +1844,7 @@ class Outcomes(common.QTICommentContainer):
 	
 	def GetChildren(self):
 		return itertools.chain(
-			QTICommentContainer.GetChildren(self),
+			common.QTICommentContainer.GetChildren(self),
 			self.DecVar,
 			self.InterpretVar)
 
@@ -1887,7 +1887,7 @@ class RespCondition(common.QTICommentContainer,ConditionMixin):
 		self.RespCondExtension=None
 	
 	def GetChildren(self):
-		for child in QTICommentContainer.GetChildren(self): yield child
+		for child in common.QTICommentContainer.GetChildren(self): yield child
 		yield self.ConditionVar
 		for child in itertools.chain(
 			self.SetVar,
@@ -2029,7 +2029,7 @@ class ItemFeedback(core.QTIElement,common.ContentMixin):
 
 	def GetChildren(self):
 		return itertools.chain(
-			QTIElement.GetChildren(self),
+			core.QTIElement.GetChildren(self),
 			self.contentChildren)
 
 	def MigrateV2(self,v2Item,log):
@@ -2116,7 +2116,7 @@ class Hint(common.ContentMixin,common.QTICommentContainer):
 	def __init__(self,parent):
 		common.QTICommentContainer.__init__(self,parent)
 		common.ContentMixin.__init__(self)
-		self.feedbackStyle=FeedbackStyle.DEFAULT
+		self.feedbackStyle=core.FeedbackStyle.DEFAULT
 	
 	def ContentMixin(self,childClass):
 		if childClass is HintMaterial:
-- 
2.43.0


From 100c87a0a88f45646f956b520ea3d0f134f2cd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:06 +0000
Subject: [PATCH 105/150] fix: QTI v1: the blanks of an ordered response are
 gathered in order

---
 pyslet/pyslet/qtiv1/item.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv1/item.py b/pyslet/pyslet/qtiv1/item.py
index 79180f2..c68c2c3 100755
--- a/pyslet/pyslet/qtiv1/item.py
+++ b/pyslet/pyslet/qtiv1/item.py
@@ -1808,7 +1808,10 @@ class ResProcessing(common.QTICommentContainer):
 		for outcomeFixup in sorted(self._interactionFixup.keys()):
 			setValue=rp.ChildElement(qtiv2.processing.SetOutcomeValue)
 			setValue.identifier=outcomeFixup
-			multi=setValue.ChildElement(qtiv2.expressions.Multiple)
+			if v2Item.declarations[outcomeFixup].cardinality==qtiv2.variables.Cardinality.ordered:
+				multi=setValue.ChildElement(qtiv2.expressions.Ordered)
+			else:
+				multi=setValue.ChildElement(qtiv2.expressions.Multiple)
 			for rID in self._interactionFixup[outcomeFixup]:
 				var=multi.ChildElement(qtiv2.expressions.Variable)
 				var.identifier=rID
-- 
2.43.0


From 0ebf81e7ee24a83f25302c110add375cde945512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:06 +0000
Subject: [PATCH 106/150] fix: QTI v1: an indexed response of an ordered
 variable is a single value

---
 pyslet/pyslet/qtiv1/common.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/qtiv1/common.py b/pyslet/pyslet/qtiv1/common.py
index 2d341f3..3ed73cd 100755
--- a/pyslet/pyslet/qtiv1/common.py
+++ b/pyslet/pyslet/qtiv1/common.py
@@ -1316,6 +1316,11 @@ class VarThing(core.QTIElement,ExpressionMixin):
 		varExpression=parent.ChildElement(qtiv2.expressions.Variable)
 		varExpression.identifier=d.identifier
 	
+	def SingleTest(self,d):
+		"""True if this tests a single value: a single variable or, with *index*, one value of an ordered one."""
+		return d.cardinality==qtiv2.variables.Cardinality.single or (
+			bool(self.index) and d.cardinality==qtiv2.variables.Cardinality.ordered)
+		
 	def MigrateV2Value(self,d,parent,log):
 		value=self.GetValue().strip()
 		if d.baseType in (qtiv2.variables.BaseType.pair,qtiv2.variables.BaseType.directedPair,qtiv2.variables.BaseType.point):
@@ -1351,7 +1356,7 @@ class VarEqual(VarThing):
 		d=v2Item.declarations.get(identifier,None)
 		if d is None:
 			self.MigrateV2Missing(identifier,parent,log)
-		elif d.cardinality==qtiv2.variables.Cardinality.single:
+		elif self.SingleTest(d):
 			# simple test of equality
 			if d.baseType==qtiv2.variables.BaseType.identifier or d.baseType==qtiv2.variables.BaseType.pair:
 				if not self.case:
@@ -1399,7 +1404,7 @@ class VarInequality(VarThing):
 		d=v2Item.declarations.get(identifier,None)
 		if d is None:
 			self.MigrateV2Missing(identifier,parent,log)
-		elif d.cardinality==qtiv2.variables.Cardinality.single:
+		elif self.SingleTest(d):
 			# simple inequality
 			if d.baseType==qtiv2.variables.BaseType.integer or d.baseType==qtiv2.variables.BaseType.float:
 				expression=parent.ChildElement(self.MigrateV2Inequality())
-- 
2.43.0


From bfb3baa59e3f593a033cbb9f90699eb8ee7c5cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 107/150] fix: QTI v1: a multiple response without maxnumber is
 not limited to one choice

---
 pyslet/pyslet/qtiv1/item.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/pyslet/qtiv1/item.py b/pyslet/pyslet/qtiv1/item.py
index c68c2c3..6211d10 100755
--- a/pyslet/pyslet/qtiv1/item.py
+++ b/pyslet/pyslet/qtiv1/item.py
@@ -1202,6 +1202,9 @@ class RenderChoice(RenderThing):
 			interaction.minChoices=self.minNumber
 		if self.maxNumber is not None:
 			interaction.maxChoices=self.maxNumber
+		elif self.parent.rCardinality==core.RCardinality.Multiple:
+			# in version 2 zero means that there is no limit, the default is one
+			interaction.maxChoices=0
 		interaction.shuffle=self.shuffle
 		for child in self.GetLabelContent():
 			if isinstance(child,ResponseLabel):
-- 
2.43.0


From 9868940c1c47d19ee96d71b941d6821c0c15024c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:00 +0000
Subject: [PATCH 108/150] fix: QTI v1: the material before a fill-in-blank
 rendering is migrated

---
 pyslet/pyslet/qtiv1/item.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/qtiv1/item.py b/pyslet/pyslet/qtiv1/item.py
index 6211d10..a3437ad 100755
--- a/pyslet/pyslet/qtiv1/item.py
+++ b/pyslet/pyslet/qtiv1/item.py
@@ -882,7 +882,7 @@ class ResponseThing(Response):
 		for child in self.outro: yield child
 
 	def ContentChanged(self):
-		if isinstance(self.render,RenderFIB) and self.render.MixedModel():
+		if isinstance(self.render,RenderFIB):
 			# use simplified prompt logic.
 			self.prompt=self.intro
 			self.inlintPrompt=True
@@ -1448,8 +1448,8 @@ class RenderFIB(RenderThing):
 			interactionType=qtiv2.interactions.ExtendedTextInteraction
 		interactionList=list(parent.FindChildrenDepthFirst(interactionType,False))
 		iCount=len(interactionList)
-		# now migrate this object
-		RenderThing.MigrateV2Content(self,parent,childType,log)
+		# now migrate this object, with the prompt before its own content
+		RenderThing.MigrateV2Content(self,parent,childType,log,list(prompt or [])+self.contentChildren)
 		interactionList=list(parent.FindChildrenDepthFirst(interactionType,False))
 		# ignore any pre-existing interactions of this type
 		interactionList=interactionList[iCount:]
-- 
2.43.0


From f120d093f3814d5dc156bd67c671c4e5c002f4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:46 +0000
Subject: [PATCH 109/150] fix: QTI v1: the material after a rendering without
 labels is migrated

---
 pyslet/pyslet/qtiv1/item.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv1/item.py b/pyslet/pyslet/qtiv1/item.py
index a3437ad..6fac5ca 100755
--- a/pyslet/pyslet/qtiv1/item.py
+++ b/pyslet/pyslet/qtiv1/item.py
@@ -909,7 +909,9 @@ class ResponseThing(Response):
 			self.footer=[]
 			self.inlineFooter=True
 			foundLabel=False
-			for child in renderChildren+self.outro:
+			for i,child in enumerate(renderChildren+self.outro):
+				if i>=len(renderChildren):
+					foundLabel=True
 				if isinstance(child,ResponseLabel):
 					self.footer=[]
 					self.inlineFooter=True
-- 
2.43.0


From 59abae7cb10e1453d914c0ba29a5cbb780884a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:58 +0000
Subject: [PATCH 110/150] fix: HTTP: the reason phrase is any text

---
 pyslet/pyslet/rfc2616.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index bc2e377..76a6b24 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1854,15 +1854,16 @@ class HTTPResponse(HTTPMessage):
 	def RecvLine(self,line):
 		if self.mode==self.RESP_STATUS:
 			# Read the status line
-			statusLine=ParameterParser(line[:-2],ignoreSpace=False)
+			# the reason phrase is TEXT, it need not make sense as words
+			parts=line[:-2].split(None,2)
+			statusLine=ParameterParser(string.join(parts[:2],SP),ignoreSpace=False)
 			self.protocolVersion=statusLine.ParseHTTPVersion()
 			statusLine.ParseSP()
 			if statusLine.IsInteger():
 				self.status=statusLine.ParseInteger()
 			else:
 				self.status=0
-			statusLine.ParseSP()
-			self.reason=statusLine.ParseRemainder()
+			self.reason=parts[2] if len(parts)>2 else ''
 			self.mode=self.RESP_HEADER
 		elif self.mode==self.RESP_HEADER:
 			self.ReadHeader(line)
-- 
2.43.0


From 0ee15c7bcd85d998a949372429968cfa8266864a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:58 +0000
Subject: [PATCH 111/150] fix: HTTP: control characters, unclosed strings and
 comments are syntax errors

---
 pyslet/pyslet/rfc2616_core.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/pyslet/pyslet/rfc2616_core.py b/pyslet/pyslet/rfc2616_core.py
index fe38fc0..150a6c6 100755
--- a/pyslet/pyslet/rfc2616_core.py
+++ b/pyslet/pyslet/rfc2616_core.py
@@ -70,7 +70,7 @@ def IsHEX(c):
 	return IsDIGIT(c) or (ord('A')<=ord(c) and ord(c)<=ord('F')) or (ord('a')<=ord(c) and ord(c)<=ord('f'))
 
 
-def IsHEXDIGITS(c):
+def IsHEXDIGITS(src):
 	"""Given a string, returns True if all characters match the production for HEX.
 	
 	Empty strings return False"""
@@ -286,6 +286,8 @@ class HTTPParser(BasicParser):
 					qs.append(qdtext)
 				else:
 					raise ValueError("Expected closing <\">: %s%s..."%(string.join(qs,''),self.Peek(5)))
+		else:
+			raise ValueError("Expected closing <\">: %s"%string.join(qs,''))
 		return string.join(qs,'')
 
 	def ParseQDText(self,unfold=False):
@@ -324,7 +326,7 @@ class HTTPParser(BasicParser):
 		found."""
 		savePos=self.pos
 		if self.Parse("\\"):
-			if IsCHAR(self.theChar):
+			if self.theChar is not None and IsCHAR(self.theChar):
 				qdPair="\\"+self.theChar
 				self.NextChar()
 				return qdPair				
@@ -377,16 +379,21 @@ class WordParser(object):
 					sp=True
 			if sp:
 				self.words.append(SP)
-			if IsSEPARATOR(p.theChar):
-				if p.theChar=="(":
-					self.words.append(p.ParseComment(True))
-				elif p.theChar==DQUOTE:
-					self.words.append(p.ParseQuotedString(True))
+			if p.theChar is None:
+				break
+			try:
+				if IsSEPARATOR(p.theChar):
+					if p.theChar=="(":
+						self.words.append(p.ParseComment(True))
+					elif p.theChar==DQUOTE:
+						self.words.append(p.ParseQuotedString(True))
+					else:
+						self.words.append(p.theChar)
+						p.NextChar()
 				else:
-					self.words.append(p.theChar)
-					p.NextChar()
-			else:
-				self.words.append(p.ParseToken())
+					self.words.append(p.RequireProduction(p.ParseToken(),"token"))
+			except ValueError,e:
+				raise SyntaxError(str(e))
 		self.pos=0
 		if self.words:
 			self.cWord=self.words[0]
-- 
2.43.0


From ddbc9375eb5e422dfec26d80797d0ec4c68b70bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:58 +0000
Subject: [PATCH 112/150] fix: HTTP: empty and non-ASCII parameter values are
 quoted

---
 pyslet/pyslet/rfc2616_core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616_core.py b/pyslet/pyslet/rfc2616_core.py
index 150a6c6..ff60bfa 100755
--- a/pyslet/pyslet/rfc2616_core.py
+++ b/pyslet/pyslet/rfc2616_core.py
@@ -700,11 +700,14 @@ def QuoteString(s,force=True):
 	
 	If *force* is False then valid tokens are *not* quoted."""
 	qstring=['"']
+	if not s:
+		# a token has at least one character
+		force=True
 	for c in s:
 		if c in '\\"' or (IsCTL(c) and c not in SP+HT):
 			qstring.append('\\'+c)
 			force=True
-		elif IsCTL(c) or IsSEPARATOR(c):
+		elif IsCTL(c) or IsSEPARATOR(c) or not IsCHAR(c):
 			force=True
 			qstring.append(c)
 		else:
-- 
2.43.0


From 622d6f95da77920519827fc7b8ea65ce6ba4e1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:58 +0000
Subject: [PATCH 113/150] fix: HTTP: transfer encodings and media types have
 hash values

---
 pyslet/pyslet/rfc2616_params.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pyslet/pyslet/rfc2616_params.py b/pyslet/pyslet/rfc2616_params.py
index 0413043..e3f9f31 100755
--- a/pyslet/pyslet/rfc2616_params.py
+++ b/pyslet/pyslet/rfc2616_params.py
@@ -165,8 +165,7 @@ class TransferEncoding(object):
 		else:
 			self.token=token
 			self.parameters=parameters
-		self._hp=map(lambda x:(x[0],x[1][1]),self.parameters.items())
-		self._hp.sort()
+		self._hp=tuple(sorted(map(lambda x:(x[0],x[1][1]),self.parameters.items())))
 	
 	@classmethod
 	def FromString(cls,source):
@@ -181,13 +180,10 @@ class TransferEncoding(object):
 	def __str__(self):
 		return self.token+FormatParameters(self.parameters)
 
-	def __eq__(self,other):
-		return hash(self)==hash(other)
-	
 	def __cmp__(self,other):
 		if type(other) in StringTypes:
 			other=TransferEncoding.FromString(other)
-		if not isinstance(TransferEncoding):
+		if not isinstance(other,TransferEncoding):
 			raise TypeError
 		return cmp((self.token,self._hp),(other.token,other._hp))
 		
@@ -209,8 +205,7 @@ class MediaType(object):
 		self.type=type
 		self.subtype=subtype
 		self.parameters=parameters
-		self._hp=map(lambda x:(x[0],x[1][1]),self.parameters.items())
-		self._hp.sort()
+		self._hp=tuple(sorted(map(lambda x:(x[0],x[1][1]),self.parameters.items())))
 	
 	@classmethod
 	def FromString(cls,source):
-- 
2.43.0


From 5c54f618e1a0ea4c00f1b21a45b9abc8c42258a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:58 +0000
Subject: [PATCH 114/150] fix: HTTP: the items of Accept headers have hash
 values

---
 pyslet/pyslet/rfc2616_headers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/rfc2616_headers.py b/pyslet/pyslet/rfc2616_headers.py
index 6657966..d603023 100755
--- a/pyslet/pyslet/rfc2616_headers.py
+++ b/pyslet/pyslet/rfc2616_headers.py
@@ -172,7 +172,7 @@ class AcceptItem(MediaRange):
 		return result
 
 	def __hash__(self):
-		return hash(self.range,self.q)
+		return hash((self.range,self.q))
 					
 
 class AcceptList(object):
@@ -293,7 +293,7 @@ class AcceptToken(object):
 		return result
 
 	def __hash__(self):
-		return hash(self._token,self.q)
+		return hash((self._token,self.q))
 
 
 class AcceptTokenList(object):
-- 
2.43.0


From 8982d54359250e24f0c4f7eb3956ade6925da065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:58 +0000
Subject: [PATCH 115/150] fix: HTTP: an invalid protocol version is a syntax
 error

---
 pyslet/pyslet/rfc2616_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616_params.py b/pyslet/pyslet/rfc2616_params.py
index e3f9f31..0382277 100755
--- a/pyslet/pyslet/rfc2616_params.py
+++ b/pyslet/pyslet/rfc2616_params.py
@@ -585,7 +585,7 @@ class ParameterParser(WordParser):
 				raise SyntaxError("Expected version, found %s"%repr(token))
 			return HTTPVersion(major=int(version[0]),minor=int(version[1]))
 		except SyntaxError:
-			self.SetPos(savePost)
+			self.SetPos(savePos)
 			return None
 
 	wkday=["Mon","Tue","Wed","Thu","Fri","Sat","Sun"]
-- 
2.43.0


From 1b7cb6a1c4946f7e3ea6d3a2463f44164d7d92e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:58 +0000
Subject: [PATCH 116/150] fix: HTTP: entity tags can be represented

---
 pyslet/pyslet/rfc2616_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616_params.py b/pyslet/pyslet/rfc2616_params.py
index 0382277..a48fc5e 100755
--- a/pyslet/pyslet/rfc2616_params.py
+++ b/pyslet/pyslet/rfc2616_params.py
@@ -547,7 +547,7 @@ class EntityTag:
 		return unicode(self.__str__())
 	
 	def __repr__(self):
-		return "EntityTag(%s,%s)"%(repr(self.tag),"True" if self.week else "False")
+		return "EntityTag(%s,%s)"%(repr(self.tag),"True" if self.weak else "False")
 			
 	def __cmp__(self,other):
 		"""Entity-tags are compared case sensitive."""
-- 
2.43.0


From 3109ca9e6b5c89670d86a116f671ce4588cfaa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:58 +0000
Subject: [PATCH 117/150] fix: HTTP: quality values may end in the decimal
 point

---
 pyslet/pyslet/rfc2616_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616_params.py b/pyslet/pyslet/rfc2616_params.py
index a48fc5e..719c06a 100755
--- a/pyslet/pyslet/rfc2616_params.py
+++ b/pyslet/pyslet/rfc2616_params.py
@@ -737,7 +737,7 @@ class ParameterParser(WordParser):
 				if IsDIGITS(qSplit[0]):
 					q=float(qSplit[0])
 			elif len(qSplit)==2:
-				if IsDIGITS(qSplit[0]) and IsDIGITS(qSplit[1]):
+				if IsDIGITS(qSplit[0]) and (IsDIGITS(qSplit[1]) or not qSplit[1]):
 					q=float("%.3f"%float(self.cWord))
 			if q is None:
 				return None
-- 
2.43.0


From 524a9007f70f6b00df73c9249aab166496873ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:58 +0000
Subject: [PATCH 118/150] fix: HTTP: full dates are in GMT, bad ones syntax
 errors

---
 pyslet/pyslet/rfc2616_params.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/rfc2616_params.py b/pyslet/pyslet/rfc2616_params.py
index 719c06a..a70e9da 100755
--- a/pyslet/pyslet/rfc2616_params.py
+++ b/pyslet/pyslet/rfc2616_params.py
@@ -134,8 +134,12 @@ class FullDate(iso.TimePoint):
 		
 		Note that this overrides the default behaviour which would be to use one
 		of the iso8601 output formats."""
+		zDirection,zOffset=self.GetZone()
+		if zDirection:
+			return str(FullDate(self.ShiftZone(0)))
 		century,year,month,day,hour,minute,second=self.GetCalendarTimePoint()
-		century,decade,dyear,week,dayOfWeek=self.date.GetWeekDay()
+		# weeks may belong to another year, even to another century
+		dayOfWeek=self.date.GetWeekDay()[4]
 		return "%s, %02i %s %04i %02i:%02i:%02i GMT"%(
 			ParameterParser.wkday[dayOfWeek-1],
 			day,
@@ -143,7 +147,7 @@ class FullDate(iso.TimePoint):
 			century*100+year,
 			hour,minute,second)
 
-	def __unicode(self):
+	def __unicode__(self):
 		"""See __str__"""
 		return unicode(str(self))
 
@@ -678,7 +682,10 @@ class ParameterParser(WordParser):
 				century=20
 			else:
 				century=19
-		tp=FullDate(date=iso.Date(century=century,year=year,month=month+1,day=day),time=iso.Time(hour=hour,minute=minute,second=second,zDirection=0))
+		try:
+			tp=FullDate(date=iso.Date(century=century,year=year,month=month+1,day=day),time=iso.Time(hour=hour,minute=minute,second=second,zDirection=0))
+		except iso.DateTimeError,e:
+			raise SyntaxError("Bad full date: %s"%str(e))
 		d1,d2,d3,d4,dow=tp.date.GetWeekDay()
 		if dow!=dayOfWeek+1:
 			raise SyntaxError("Day-of-week mismatch, expected %s but found %s"%(self.wkday[dow-1],self.wkday[dayOfWeek]))
-- 
2.43.0


From 2f17d0351d9d2b7fdfc9c190202e2f3391ab0c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:58 +0000
Subject: [PATCH 119/150] fix: HTTP: null elements of lists are skipped

---
 pyslet/pyslet/rfc2616_headers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslet/pyslet/rfc2616_headers.py b/pyslet/pyslet/rfc2616_headers.py
index d603023..93fcf14 100755
--- a/pyslet/pyslet/rfc2616_headers.py
+++ b/pyslet/pyslet/rfc2616_headers.py
@@ -781,6 +781,9 @@ class HeaderParser(ParameterParser):
 		items=[]
 		self.ParseSP()
 		while self.cWord:
+			if self.ParseSeparator(','):
+				# null elements are allowed
+				continue
 			a=self.ParseProduction(self.RequireAcceptItem)
 			if a is None:
 				break
@@ -830,6 +833,9 @@ class HeaderParser(ParameterParser):
 		items=[]
 		self.ParseSP()
 		while self.cWord:
+			if self.ParseSeparator(','):
+				# null elements are allowed
+				continue
 			a=self.ParseProduction(self.RequireAcceptToken,cls.ItemClass)
 			if a is None:
 				break
-- 
2.43.0


From b7164e5dd1b83930200bb388170e1545c0c56dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:58 +0000
Subject: [PATCH 120/150] fix: HTTP: parameters of a media range with wild
 cards count

---
 pyslet/pyslet/rfc2616_headers.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyslet/pyslet/rfc2616_headers.py b/pyslet/pyslet/rfc2616_headers.py
index 93fcf14..958a5f2 100755
--- a/pyslet/pyslet/rfc2616_headers.py
+++ b/pyslet/pyslet/rfc2616_headers.py
@@ -98,13 +98,9 @@ class MediaRange(MediaType):
 
 		*	application/myapp;charset=utf-8;option=on *does* match the
 			range application/myapp;option=on"""
-		if self.type=='*':
-			return True
-		elif self.type.lower()!=mType.type.lower():
+		if self.type!='*' and self.type.lower()!=mType.type.lower():
 			return False
-		if self.subtype=='*':
-			return True
-		elif self.subtype.lower()!=mType.subtype.lower():
+		if self.subtype!='*' and self.subtype.lower()!=mType.subtype.lower():
 			return False
 		# all the parameters in the range must be matched
 		for p,v in self._hp:
-- 
2.43.0


From c2f55ccec7484e5da5b1d9a3fe8e1fea6147016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:58 +0000
Subject: [PATCH 121/150] fix: HTTP: media ranges are compared as media types
 are

---
 pyslet/pyslet/rfc2616_headers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616_headers.py b/pyslet/pyslet/rfc2616_headers.py
index 958a5f2..84441fc 100755
--- a/pyslet/pyslet/rfc2616_headers.py
+++ b/pyslet/pyslet/rfc2616_headers.py
@@ -53,6 +53,10 @@ class MediaRange(MediaType):
 		return "MediaType(%s,%s,%s)"%(repr(self.type),repr(self.subtype),repr(self.parameters))
 			
 	def __cmp__(self,other):
+		if type(other) in StringTypes:
+			other=MediaRange.FromString(other)
+		elif not isinstance(other,MediaRange):
+			raise TypeError
 		result=self.CompareTypes(self.type,other.type)
 		if result:
 			return result
@@ -63,7 +67,7 @@ class MediaRange(MediaType):
 		result=-cmp(len(self.parameters),len(other.parameters))
 		if result:
 			return result
-		return cmp(self.parameters,other.parameters)
+		return cmp(self._hp,other._hp)
 			
 	def CompareTypes(self,aType,bType):
 		if aType=='*':
-- 
2.43.0


From b5997b47c92250f64236b82ab1ea4e9b03ad6ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:58 +0000
Subject: [PATCH 122/150] fix: HTTP: equal language ranges are sorted by
 quality

---
 pyslet/pyslet/rfc2616_headers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/rfc2616_headers.py b/pyslet/pyslet/rfc2616_headers.py
index 84441fc..c8f3dac 100755
--- a/pyslet/pyslet/rfc2616_headers.py
+++ b/pyslet/pyslet/rfc2616_headers.py
@@ -441,6 +441,8 @@ class AcceptLanguageItem(AcceptToken):
 		if result==0:
 			# and then secondary sort on alphabetical
 			result=cmp(self._range,other._range)
+		if result==0:
+			result=cmp(other.q,self.q)
 		return result
 
 
-- 
2.43.0


From cd2de258718bac195556f4bc7cbd261f1897fe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:58 +0000
Subject: [PATCH 123/150] fix: HTTP: no acceptable language is None

---
 pyslet/pyslet/rfc2616_headers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616_headers.py b/pyslet/pyslet/rfc2616_headers.py
index c8f3dac..23d5144 100755
--- a/pyslet/pyslet/rfc2616_headers.py
+++ b/pyslet/pyslet/rfc2616_headers.py
@@ -455,7 +455,8 @@ class AcceptLanguageList(AcceptTokenList):
 
 	def SelectToken(self,tokenList):
 		"""Remapped to :py:meth:`SelectLanguage`"""
-		return str(self.SelectLanguage(map(LanguageTag.FromString,tokenList)))
+		bestMatch=self.SelectLanguage(map(LanguageTag.FromString,tokenList))
+		return None if bestMatch is None else str(bestMatch)
 	
 	def SelectLanguage(self,langList):
 		bestMatch=None
-- 
2.43.0


From c7e5e4dee3b0fbac2fa4f870f63382733a257006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:58 +0000
Subject: [PATCH 124/150] fix: HTTP: Cache-Control can be parsed

---
 pyslet/pyslet/rfc2616_headers.py | 39 +++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616_headers.py b/pyslet/pyslet/rfc2616_headers.py
index 23d5144..3feb6bf 100755
--- a/pyslet/pyslet/rfc2616_headers.py
+++ b/pyslet/pyslet/rfc2616_headers.py
@@ -618,7 +618,7 @@ class CacheControl(object):
 	def FromString(cls,source):
 		"""Create a Cache-Control value from a *source* string."""
 		p=HeaderParser(source)
-		cc=p.ParseCacheControl()
+		cc=p.RequireCacheControl()
 		p.RequireEnd("Cache-Control header")
 		return cc
 	
@@ -848,6 +848,43 @@ class HeaderParser(ParameterParser):
 				break
 		return cls(*items)
 
+	def RequireCacheControl(self):
+		"""Parses the directives of a Cache-Control header, returning a
+		:py:class:`CacheControl` instance.  Raises SyntaxError if no
+		directive was found.
+		
+		The quoted values of no-cache and private are tuples of field
+		names, decimal values of max-age, max-stale, min-fresh and
+		s-maxage are integers, all other values are strings."""
+		items=[]
+		self.ParseSP()
+		while self.cWord:
+			if self.ParseSeparator(','):
+				# null elements are allowed
+				continue
+			directive=self.RequireToken("cache-directive").lower()
+			self.ParseSP()
+			if self.ParseSeparator('='):
+				self.ParseSP()
+				if directive in ("max-age","max-stale","min-fresh","s-maxage") and self.IsInteger():
+					value=self.ParseInteger()
+				elif self.IsToken():
+					value=self.ParseToken()
+				else:
+					value=self.RequireProduction(self.ParseQuotedString(),"directive value")
+					if directive in ("no-cache","private"):
+						value=tuple(HeaderParser(value).ParseTokenList())
+				items.append((directive,value))
+			else:
+				items.append(directive)
+			self.ParseSP()
+			if self.cWord and not self.IsSeparator(','):
+				self.Error("cache-directive")
+		if items:
+			return CacheControl(*items)
+		else:
+			raise SyntaxError("Expected cache-directive")
+
 	def RequireContentRangeSpec(self):
 		"""Parses a content-range-spec, returning an
 		:py:class:`ContentRange` instance."""
-- 
2.43.0


From 8a778d43a4644112c2bcc1d2aa33ce924b344b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:48 +0000
Subject: [PATCH 125/150] fix: HTTP: the first of several acceptable encodings
 is the one selected

---
 pyslet/pyslet/rfc2616_headers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616_headers.py b/pyslet/pyslet/rfc2616_headers.py
index 3feb6bf..06c00cb 100755
--- a/pyslet/pyslet/rfc2616_headers.py
+++ b/pyslet/pyslet/rfc2616_headers.py
@@ -417,7 +417,7 @@ class AcceptEncodingList(AcceptTokenList):
 				# here suggests that we should use the lowest possible q
 				# value in this case.  We do this by re-using 0 to mean
 				# minimally acceptable.
-				if bestQ==0:
+				if bestMatch is None:
 					bestMatch=token
 		return bestMatch
 
-- 
2.43.0


From 7be7fe5efb12eed458472d71ff0e7363fa43f366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:20 +0000
Subject: [PATCH 126/150] fix: XML namespaces: attributes whose names begin
 with xmlns are kept

---
 pyslet/pyslet/xmlnames20091208.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyslet/pyslet/xmlnames20091208.py b/pyslet/pyslet/xmlnames20091208.py
index 437d1b9..df8df46 100644
--- a/pyslet/pyslet/xmlnames20091208.py
+++ b/pyslet/pyslet/xmlnames20091208.py
@@ -463,13 +463,13 @@ class XMLNSParser(XMLParser):
 		:py:class:`XMLParser`. """
 		ns={}
 		for aname in attrs.keys():
-			if aname.startswith('xmlns'):
-				if len(aname)==5:
-					# default ns declaration
-					ns['']=attrs[aname]
-				elif aname[5]==':':
-					# ns prefix declaration
-					ns[aname[6:]]=attrs[aname]
+			if aname=='xmlns':
+				# default ns declaration
+				ns['']=attrs[aname]
+				del attrs[aname]
+			elif aname.startswith('xmlns:'):
+				# ns prefix declaration
+				ns[aname[6:]]=attrs[aname]
 				del attrs[aname]
 		for aname in attrs.keys():
 			expandedName=self.ExpandQName(aname,ns,False)
-- 
2.43.0


From 900bc1d5d2326b2f7a7621f50e61d076afba6091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:20 +0000
Subject: [PATCH 127/150] fix: XML namespaces: an element can be called xmlns

---
 pyslet/pyslet/xmlnames20091208.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyslet/pyslet/xmlnames20091208.py b/pyslet/pyslet/xmlnames20091208.py
index df8df46..a14748c 100644
--- a/pyslet/pyslet/xmlnames20091208.py
+++ b/pyslet/pyslet/xmlnames20091208.py
@@ -418,9 +418,7 @@ class XMLNSParser(XMLParser):
 		context=self.GetContext()
 		xname=qname.split(':')
 		if len(xname)==1:
-			if qname=='xmlns':
-				return (XMLNS_NAMESPACE,'')
-			elif useDefault:
+			if useDefault:
 				nsURI=nsDefs.get('',None)
 				if nsURI is None and context:
 					nsURI=context.GetNS('')
-- 
2.43.0


From 743c0d878f8c40e6d31ff416a625ee4c73ad4924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:20 +0000
Subject: [PATCH 128/150] fix: XML namespaces: xmlns="" undeclares the default
 namespace

---
 pyslet/pyslet/xmlnames20091208.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xmlnames20091208.py b/pyslet/pyslet/xmlnames20091208.py
index a14748c..51ecedb 100644
--- a/pyslet/pyslet/xmlnames20091208.py
+++ b/pyslet/pyslet/xmlnames20091208.py
@@ -93,6 +93,9 @@ class XMLNSElementContainerMixin:
 			ns=ei.prefixToNS.get(prefix,None)
 			if ns:
 				break
+			elif ns is not None:
+				# undeclared with an empty string
+				return None
 			if prefix=='':
 				ns=getattr(ei,'DefaultNS',None)
 				if ns:
@@ -422,7 +425,7 @@ class XMLNSParser(XMLParser):
 				nsURI=nsDefs.get('',None)
 				if nsURI is None and context:
 					nsURI=context.GetNS('')
-				return (nsURI,qname)
+				return (nsURI or None,qname)
 			else:
 				return (NO_NAMESPACE,qname)
 		elif len(xname)==2:
-- 
2.43.0


From 00b7cbf751b19968e4174147a1e2d0c2a37ddcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:20 +0000
Subject: [PATCH 129/150] fix: XML namespaces: undeclared element prefixes, bad
 declarations and clashing attributes are errors

---
 pyslet/pyslet/xmlnames20091208.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/xmlnames20091208.py b/pyslet/pyslet/xmlnames20091208.py
index 51ecedb..5d876df 100644
--- a/pyslet/pyslet/xmlnames20091208.py
+++ b/pyslet/pyslet/xmlnames20091208.py
@@ -430,14 +430,16 @@ class XMLNSParser(XMLParser):
 				return (NO_NAMESPACE,qname)
 		elif len(xname)==2:
 			nsprefix,local=xname
-			if nsprefix=='xml':
+			if not nsprefix or not IsValidNCName(local) or nsprefix=='xmlns':
+				raise XMLNSError("Illegal QName: %s"%qname)
+			elif nsprefix=='xml':
 				return (XML_NAMESPACE,local)
-			elif nsprefix=='xmlns':
-				return (XMLNS_NAMESPACE,local)
 			else:
 				nsURI=nsDefs.get(nsprefix,None)
 				if nsURI is None and context:
 					nsURI=context.GetNS(nsprefix)
+				if nsURI is None and useDefault:
+					raise XMLNSError("Undeclared namespace prefix: %s"%qname)
 				return (nsURI,local)		
 		else:
 			# something wrong with this element
@@ -472,8 +474,15 @@ class XMLNSParser(XMLParser):
 				# ns prefix declaration
 				ns[aname[6:]]=attrs[aname]
 				del attrs[aname]
+		for prefix,nsURI in ns.items():
+			if prefix and (not nsURI or prefix=='xmlns' or not IsValidNCName(prefix)):
+				raise XMLNSError("Illegal namespace declaration: xmlns:%s=%s"%(prefix,repr(nsURI)))
+			elif (prefix=='xml')!=(nsURI==XML_NAMESPACE) or nsURI==XMLNS_NAMESPACE:
+				raise XMLNSError("Reserved prefix or namespace: %s=%s"%(prefix,repr(nsURI)))
 		for aname in attrs.keys():
 			expandedName=self.ExpandQName(aname,ns,False)
+			if expandedName in attrs:
+				raise XMLNSError("Attributes with the same name: %s"%aname)
 			attrs[expandedName]=attrs[aname]
 			del attrs[aname]
 		# Finally, we hide the ns object in the list of attributes so we can retrieve it later
-- 
2.43.0


From 5cce8177e22d8ee30b2e3512ff8c76a3ea88fd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:20 +0000
Subject: [PATCH 130/150] fix: XML: tabs and line feeds in attribute values are
 escaped

---
 pyslet/pyslet/xml20081126/structures.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 6132580..1e87950 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -82,6 +82,10 @@ def EscapeCharData(src,quote=False):
 		else:
 			data.append(c)
 	if quote:
+		for i in xrange(len(data)):
+			if data[i] in '\t\n':
+				# or they would be normalized to spaces
+				data[i]='&#x%X;'%ord(data[i])
 		if quot>apos:
 			if apos:
 				# escape apos
@@ -134,6 +138,9 @@ def EscapeCharData7(src,quote=False):
 			dst.append("&#xD;")
 		elif c==q:
 			dst.append(qStr)
+		elif quote and c in '\t\n':
+			# or they would be normalized to spaces
+			dst.append("&#x%X;"%ord(c))
 		else:
 			dst.append(c)
 	if quote:
-- 
2.43.0


From e26f45e6e24ad7f79015a4068fe86202fe05f1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:20 +0000
Subject: [PATCH 131/150] fix: XML namespaces: URIs are escaped like other
 values

---
 pyslet/pyslet/xmlnames20091208.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xmlnames20091208.py b/pyslet/pyslet/xmlnames20091208.py
index 5d876df..6394eec 100644
--- a/pyslet/pyslet/xmlnames20091208.py
+++ b/pyslet/pyslet/xmlnames20091208.py
@@ -307,7 +307,7 @@ class XMLNSElement(XMLNSElementContainerMixin,Element):
 			if prefix:
 				prefix=prefix+':'
 			attributes.append(u'%s%s=%s'%(prefix,aname,escapeFunction(attrs[a],True)))
-		self.WriteNSAttributes(attributes,escapeFunction=EscapeCharData,root=root)
+		self.WriteNSAttributes(attributes,escapeFunction,root=root)
 	
 	def GenerateXML(self,escapeFunction=EscapeCharData,indent='',tab='\t',root=False):
 		if tab:
-- 
2.43.0


From b61de624d2cbaabdeb149b8b12037c7899325f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:20 +0000
Subject: [PATCH 132/150] fix: XML namespaces: attributes in the default
 namespace get a prefix

---
 pyslet/pyslet/xmlnames20091208.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyslet/pyslet/xmlnames20091208.py b/pyslet/pyslet/xmlnames20091208.py
index 6394eec..c86b42e 100644
--- a/pyslet/pyslet/xmlnames20091208.py
+++ b/pyslet/pyslet/xmlnames20091208.py
@@ -79,6 +79,14 @@ class XMLNSElementContainerMixin:
 			ei=ei.parent
 		return prefix	
 	
+	def GetAttributePrefix(self,ns):
+		"""Returns the prefix to use for attributes in the given namespace or
+		None if no (non-empty) prefix is currently in force."""
+		for prefix,prefixNS in sorted(self.GetPrefixMap().items()):
+			if prefix and prefixNS==ns:
+				return prefix
+		return None
+
 	def GetNS(self,prefix=''):
 		"""Returns the namespace associated with prefix in the current context.
 		
@@ -302,6 +310,9 @@ class XMLNSElement(XMLNSElementContainerMixin,Element):
 			else:
 				ns,aname=a
 				prefix=self.GetPrefix(ns)
+				if prefix=='' and ns!=NO_NAMESPACE:
+					# the default namespace does not apply to attributes
+					prefix=self.GetAttributePrefix(ns)
 			if prefix is None:
 				prefix=self.MakePrefix(ns)
 			if prefix:
-- 
2.43.0


From 4e24dd80860c8859c65ed903b0e20bf888027b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:20 +0000
Subject: [PATCH 133/150] fix: XML namespaces: elements without a namespace
 stay without one when written

---
 pyslet/pyslet/xmlnames20091208.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xmlnames20091208.py b/pyslet/pyslet/xmlnames20091208.py
index c86b42e..b178631 100644
--- a/pyslet/pyslet/xmlnames20091208.py
+++ b/pyslet/pyslet/xmlnames20091208.py
@@ -336,9 +336,19 @@ class XMLNSElement(XMLNSElementContainerMixin,Element):
 			prefix=self.GetPrefix(self.ns)
 			if prefix is None:
 				# We need to declare our namespace
-				prefix=self.MakePrefix(self.ns,'')
+				if '' in self.prefixToNS:
+					# but the default is something else
+					prefix=self.MakePrefix(self.ns)
+				else:
+					prefix=self.MakePrefix(self.ns,'')
 		else:
 			prefix=''
+			defaultNS=self.GetPrefixMap().get('',None)
+			if defaultNS:
+				# we need to undeclare the default namespace
+				if self.nsToPrefix.get(defaultNS,None)=='':
+					del self.nsToPrefix[defaultNS]
+				self.prefixToNS['']=''
 		if prefix:
 			prefix=prefix+':'
 		self.WriteXMLAttributes(attributes,escapeFunction,root=root)
-- 
2.43.0


From b38c6ae3917c0b532ae9739198267e58efc2fc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:20 +0000
Subject: [PATCH 134/150] fix: XML namespaces: elements in different namespaces
 are not equal

---
 pyslet/pyslet/xmlnames20091208.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyslet/pyslet/xmlnames20091208.py b/pyslet/pyslet/xmlnames20091208.py
index b178631..9d714ca 100644
--- a/pyslet/pyslet/xmlnames20091208.py
+++ b/pyslet/pyslet/xmlnames20091208.py
@@ -256,6 +256,14 @@ class XMLNSElement(XMLNSElementContainerMixin,Element):
 # 		else:
 # 			self._attrs[name]=value
 
+	def __cmp__(self,element):
+		"""Elements are compared by name, then by namespace, before their content."""
+		if isinstance(element,XMLNSElement):
+			result=cmp(self.xmlname,element.xmlname) or cmp(self.ns or '',element.ns or '')
+			if result:
+				return result
+		return Element.__cmp__(self,element)
+
 	def IsValidName(self,value):
 		return IsValidNCName(value)
 
-- 
2.43.0


From 1c0e19bfc4b9511f00753097f5c2cdfc55ead785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:20 +0000
Subject: [PATCH 135/150] fix: XML: the copy of an element has its name

---
 pyslet/pyslet/xml20081126/structures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 1e87950..fc7f51a 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -1971,10 +1971,11 @@ class Element(Node):
 		deserialisation (without the need to generate markup).  As a
 		result, element attributes are serialised and deserialised to
 		strings during the copy process."""
-		if parent:
+		if parent is not None:
 			e=parent.ChildElement(self.__class__,self.GetXMLName())
 		else:
 			e=self.__class__(None)
+			e.SetXMLName(self.GetXMLName())
 		attrs=self.GetAttributes()
 		for aname in attrs.keys():
 			e.SetAttribute(aname,attrs[aname])
-- 
2.43.0


From 2f833043786c13cc01c3c275935f6a07066daf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:20 +0000
Subject: [PATCH 136/150] fix: XML: CDATA sections are written as such

---
 pyslet/pyslet/xml20081126/structures.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index fc7f51a..db87389 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -758,16 +758,16 @@ def IsPubidChar(c):
 
 
 def EscapeCDSect(src):
-	"""Returns a unicode string enclosed in <!CDATA[[ ]]> with ]]> 
-	by the clumsy sequence: ]]>]]&gt;<!CDATA[[
+	"""Returns a unicode string enclosed in <![CDATA[ ]]> with ]]> 
+	by the clumsy sequence: ]]>]]&gt;<![CDATA[
 	
 	Degenerate case: an empty string is returned as an empty string
 	"""
 	data=src.split(u']]>')
 	if data:
-		result=[u'<!CDATA[[',data[0]]
+		result=[u'<![CDATA[',data[0]]
 		for d in data[1:]:
-			result.append(u']]>]]&gt;<!CDATA[[')
+			result.append(u']]>]]&gt;<![CDATA[')
 			result.append(d)
 		result.append(u']]>')
 		return string.join(result,u'')
-- 
2.43.0


From a289eb4a7161b5ee801021af8f6e1df195b16d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 137/150] fix: CharClass: a class added to an empty class is
 copied, not shared

---
 pyslet/pyslet/unicode5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/unicode5.py b/pyslet/pyslet/unicode5.py
index 17761ef..1a22b9e 100644
--- a/pyslet/pyslet/unicode5.py
+++ b/pyslet/pyslet/unicode5.py
@@ -396,7 +396,7 @@ class CharClass:
 		else:
 			# take a short cut here, if we have no ranges yet just copy them
 			for r in c.ranges:
-				self.ranges.append(r)
+				self.ranges.append([r[0],r[1]])
 							
 	def SubtractClass(self,c):
 		"""Subtracts all the characters in c from the character class"""
-- 
2.43.0


From 31646dcb9b5084fed427101a93c2db9a88863ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 138/150] fix: CharClass: a character between two ranges merges
 them both

---
 pyslet/pyslet/unicode5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/unicode5.py b/pyslet/pyslet/unicode5.py
index 1a22b9e..e350ece 100644
--- a/pyslet/pyslet/unicode5.py
+++ b/pyslet/pyslet/unicode5.py
@@ -418,7 +418,7 @@ class CharClass:
 			if ord(ap)>=ord(a)-1:
 				# Left merge
 				indexA=indexA-1
-		elif indexZ<len(self.ranges)-1:
+		if indexZ<len(self.ranges)-1:
 			zn=self.ranges[indexZ+1][0]
 			if ord(zn)<=ord(z)+1:
 				# Right merge
-- 
2.43.0


From 52b06db00fe91dbc86cd23242e5b90e6333015f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 139/150] fix: CharClass: the class of all characters and the
 class of all but the backslash have regular expressions

---
 pyslet/pyslet/unicode5.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/unicode5.py b/pyslet/pyslet/unicode5.py
index e350ece..74f4093 100644
--- a/pyslet/pyslet/unicode5.py
+++ b/pyslet/pyslet/unicode5.py
@@ -189,13 +189,16 @@ class CharClass:
 			# to avoid maxunicode we negate this range
 			neg=CharClass(self)
 			neg.Negate()
+			if not neg.ranges:
+				# every character
+				return u"[\\x00-%s]"%unichr(maxunicode)
 			result=unicode(neg)
 			if result[0]=="[":
 				return "[^%s]"%result[1:-1]
 			elif result[0]=="\\":
 				# we may not need the escape
-				if result=="\\]":
-					return "[^\\]]"
+				if result in ("\\]","\\\\"):
+					return "[^%s]"%result
 				elif result in self._ReControls.values():
 					return "[^%s]"%result
 				else:
-- 
2.43.0


From 5b75530f59065b05c3f7618c57715f9298417634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:31 +0000
Subject: [PATCH 140/150] fix: XSD regular expressions: alternatives that are
 longer are tried, too

---
 pyslet/pyslet/xsdatatypes20041028.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xsdatatypes20041028.py b/pyslet/pyslet/xsdatatypes20041028.py
index 8b36302..12fabf3 100644
--- a/pyslet/pyslet/xsdatatypes20041028.py
+++ b/pyslet/pyslet/xsdatatypes20041028.py
@@ -661,7 +661,7 @@ class RegularExpression:
 	def __init__(self,src):
 		p=RegularExpressionParser(src)
 		pyre=p.ParseRegExp()
-		self.p=compile(pyre)	#: the compiled python regular expression
+		self.p=compile(u"(?:%s)\\Z"%pyre)	#: the compiled python regular expression
 		self.src=src			#: the original source string
 	
 	def __str__(self):
-- 
2.43.0


From 70eb23b72aebb98bf16b45c55b8a1cab2bf62f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:31 +0000
Subject: [PATCH 141/150] fix: XSD regular expressions: text after an
 expression is an error

---
 pyslet/pyslet/xsdatatypes20041028.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/xsdatatypes20041028.py b/pyslet/pyslet/xsdatatypes20041028.py
index 12fabf3..5daf5fa 100644
--- a/pyslet/pyslet/xsdatatypes20041028.py
+++ b/pyslet/pyslet/xsdatatypes20041028.py
@@ -661,6 +661,8 @@ class RegularExpression:
 	def __init__(self,src):
 		p=RegularExpressionParser(src)
 		pyre=p.ParseRegExp()
+		if p.theChar is not None:
+			raise RegularExpressionError("Unexpected character at [%i]"%p.pos)
 		self.p=compile(u"(?:%s)\\Z"%pyre)	#: the compiled python regular expression
 		self.src=src			#: the original source string
 	
-- 
2.43.0


From 6ea11428ef31a728f8bd62c906d6336a3294fef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:31 +0000
Subject: [PATCH 142/150] fix: CharClass: characters are compared by code point

---
 pyslet/pyslet/unicode5.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/unicode5.py b/pyslet/pyslet/unicode5.py
index 74f4093..2dcf2fc 100644
--- a/pyslet/pyslet/unicode5.py
+++ b/pyslet/pyslet/unicode5.py
@@ -257,7 +257,7 @@ class CharClass:
 	
 	def AddRange(self,a,z):
 		"""Adds a range of characters from a to z to the class"""
-		if z<a:
+		if ord(z)<ord(a):
 			x=z;z=a;a=x
 		a=unicode(a);z=unicode(z)
 		if self.ranges:
@@ -292,7 +292,7 @@ class CharClass:
 		
 	def SubtractRange(self,a,z):
 		"""Subtracts a range of characters from the character class"""
-		if z<a:
+		if ord(z)<ord(a):
 			x=z;z=a;a=x
 		a=unicode(a);z=unicode(z)
 		if self.ranges:
@@ -456,15 +456,15 @@ class CharClass:
 		#print "Searching in %i,%i"%(rmin,rmax)
 		if rmin==rmax:
 			# is c in this range
-			if c>self.ranges[rmin][1]:
+			if ord(c)>ord(self.ranges[rmin][1]):
 				return (False,rmin+1)
-			elif c<self.ranges[rmin][0]:
+			elif ord(c)<ord(self.ranges[rmin][0]):
 				return (False,rmin)
 			else:
 				return (True,rmin)
 		else:
 			rtry=(rmin+rmax)//2
-			if c<=self.ranges[rtry][1]:
+			if ord(c)<=ord(self.ranges[rtry][1]):
 				return self.BisectionSearch(c,rmin,rtry)
 			else:
 				return self.BisectionSearch(c,rtry+1,rmax)
-- 
2.43.0


From e9816fd6eab8795e86de3bfe4be9cadb2a46b55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:52 +0000
Subject: [PATCH 143/150] fix: XSD: collapsing leading white space puts no
 space after the first character

---
 pyslet/pyslet/xsdatatypes20041028.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xsdatatypes20041028.py b/pyslet/pyslet/xsdatatypes20041028.py
index 5daf5fa..2e5f851 100644
--- a/pyslet/pyslet/xsdatatypes20041028.py
+++ b/pyslet/pyslet/xsdatatypes20041028.py
@@ -644,7 +644,7 @@ def WhiteSpaceCollapse(value):
 		else:
 			if output and gotSpace:
 				output.append(unichr(0x20))
-				gotSpace=False
+			gotSpace=False
 			output.append(c)
 	return string.join(output,'')
 
-- 
2.43.0


From 8d20bf84d1283deae37217a850d912ae9f116ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:52 +0000
Subject: [PATCH 144/150] fix: XSD: all the values of an enumeration dictionary
 are decoded

---
 pyslet/pyslet/xsdatatypes20041028.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/xsdatatypes20041028.py b/pyslet/pyslet/xsdatatypes20041028.py
index 2e5f851..f30a11a 100644
--- a/pyslet/pyslet/xsdatatypes20041028.py
+++ b/pyslet/pyslet/xsdatatypes20041028.py
@@ -534,8 +534,8 @@ class Enumeration:
 		result={}
 		for s in src.split():
 			sv=decoder(s)
-		if not sv in result:
-			result[sv]=s
+			if not sv in result:
+				result[sv]=s
 		return result
 		 
 	@classmethod
-- 
2.43.0


From 0d64203784143622235528a90c3a77f7b33bf5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:52 +0000
Subject: [PATCH 145/150] fix: XSD: not a number is NaN

---
 pyslet/pyslet/xsdatatypes20041028.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xsdatatypes20041028.py b/pyslet/pyslet/xsdatatypes20041028.py
index f30a11a..56499e0 100644
--- a/pyslet/pyslet/xsdatatypes20041028.py
+++ b/pyslet/pyslet/xsdatatypes20041028.py
@@ -295,7 +295,7 @@ def EncodeDouble(value,digits=None,stripZeros=True):
 		else:
 			return "0."+("0"*digits)+"E0"
 	elif math.isnan(value):
-		return "NAN"
+		return "NaN"
 	elif math.isinf(value):
 		return "INF" if value>0 else "-INF"
 	if value<0:
-- 
2.43.0


From 33b82bedaf34df4ae05180d912866514804099d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:52 +0000
Subject: [PATCH 146/150] fix: XSD: floats and doubles with any exponent can be
 decoded

---
 pyslet/pyslet/xsdatatypes20041028.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyslet/pyslet/xsdatatypes20041028.py b/pyslet/pyslet/xsdatatypes20041028.py
index 56499e0..f8d28db 100644
--- a/pyslet/pyslet/xsdatatypes20041028.py
+++ b/pyslet/pyslet/xsdatatypes20041028.py
@@ -210,9 +210,8 @@ def DecodeFloat(src):
 		if len(s)!=2:
 			raise ValueError("Invalid lexical representation of double: %s"%src)
 		m,e=s
-		m=DecodeDecimal(m)
-		e=DecodeInteger(e)
-		result=m*math.pow(10,e)
+		DecodeDecimal(m)
+		result=float("%se%i"%(m,DecodeInteger(e)))
 	elif s in ("inf","-inf","nan"):
 		return float(s)
 	else:
@@ -258,9 +257,8 @@ def DecodeDouble(src):
 		if len(s)!=2:
 			raise ValueError("Invalid lexical representation of double: %s"%src)
 		m,e=s
-		m=DecodeDecimal(m)
-		e=DecodeInteger(e)
-		return m*math.pow(10,e)
+		DecodeDecimal(m)
+		return float("%se%i"%(m,DecodeInteger(e)))
 	elif s in ("inf","-inf","nan"):
 		return float(s)
 	else:
-- 
2.43.0


From 67d37d30a2d21a05d49cbafe46d05c66a0980f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:21 +0000
Subject: [PATCH 147/150] fix: CP: the manifest file is no file of a resource
 and cannot be deleted

---
 pyslet/pyslet/imscpv1p2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/imscpv1p2.py b/pyslet/pyslet/imscpv1p2.py
index 19dd93b..1f7cc00 100644
--- a/pyslet/pyslet/imscpv1p2.py
+++ b/pyslet/pyslet/imscpv1p2.py
@@ -667,8 +667,8 @@ class ContentPackage:
 			if self.IgnoreFile(unicode(tail)):
 				raise CPFilePathError(fullPath)
 			relPath=PathInPath(fullPath,self.dPath)
-			if relPath is None or unicode(relPath).lower==u'imsmanifest.xml':
-				raise CPFilePathError(url.path)
+			if not relPath or unicode(relPath).lower()==u'imsmanifest.xml':
+				raise CPFilePathError(fullPath)
 			# normalise the case ready to put in the file table
 			relPath=relPath.normcase()
 			f=resource.ChildElement(resource.FileClass)
@@ -747,7 +747,7 @@ class ContentPackage:
 		if self.IgnoreFile(unicode(tail)):
 			raise CPFilePathError(fullPath)
 		relPath=PathInPath(fullPath,self.dPath)
-		if relPath is None or unicode(relPath).lower==u'imsmanifest.xml':
+		if not relPath or unicode(relPath).lower()==u'imsmanifest.xml':
 			raise CPFilePathError(fullPath)
 		# normalise the case ready for comparisons
 		relPath=relPath.normcase()
-- 
2.43.0


From dc81b8bbdd2fc1f81b1897ab3f286e0338f8d481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:21 +0000
Subject: [PATCH 148/150] fix: CP: files can be deleted when a resource refers
 to a file outside of the package

---
 pyslet/pyslet/imscpv1p2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/imscpv1p2.py b/pyslet/pyslet/imscpv1p2.py
index 1f7cc00..01612c8 100644
--- a/pyslet/pyslet/imscpv1p2.py
+++ b/pyslet/pyslet/imscpv1p2.py
@@ -755,7 +755,8 @@ class ContentPackage:
 			delList=[]
 			for f in r.File:
 				# Does f point to the same file?
-				if f.PackagePath(self)==relPath:
+				fPath=f.PackagePath(self)
+				if fPath is not None and fPath==relPath:
 					delList.append(f)
 			for f in delList:
 				r.DeleteFile(f)
-- 
2.43.0


From 1adaaeaa62f9163b13a50ec95a5b9f3be64f8378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:21 +0000
Subject: [PATCH 149/150] fix: CP: deleting a file that is not local raises the
 protocol error

---
 pyslet/pyslet/imscpv1p2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/imscpv1p2.py b/pyslet/pyslet/imscpv1p2.py
index 01612c8..f424a94 100644
--- a/pyslet/pyslet/imscpv1p2.py
+++ b/pyslet/pyslet/imscpv1p2.py
@@ -739,7 +739,7 @@ class ContentPackage:
 		if not isinstance(fURL,uri.FileURL):
 			# We cannot delete non-file objects (though in future
 			# we should support HTTP DELETE)
-			return CPProtocolError(str(fURL))
+			raise CPProtocolError(str(fURL))
 		fullPath=fURL.GetVirtualFilePath()
 		if not fullPath.isfile():
 			raise CPFileTypeError(fullPath)
-- 
2.43.0


From c465c04f55867dc0823fe4f0882399d21cacd4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:21 +0000
Subject: [PATCH 150/150] fix: CP: unique file paths are new, and not the
 manifest's

---
 pyslet/pyslet/imscpv1p2.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/imscpv1p2.py b/pyslet/pyslet/imscpv1p2.py
index f424a94..3128702 100644
--- a/pyslet/pyslet/imscpv1p2.py
+++ b/pyslet/pyslet/imscpv1p2.py
@@ -627,16 +627,15 @@ class ContentPackage:
 			raise CPFilePathError(suggestedPath)
 		fPath=fPath.normcase()
 		# Now we can try and make it unique
-		pathStr=fPath
+		uPath=fPath
 		pathExtra=0
-		while pathStr in self.fileTable:
+		while uPath in self.fileTable or unicode(uPath)==u'imsmanifest.xml':
 			if not pathExtra:
 				pathExtra=random.randint(0,0xFFFF)
 			fName,fExt=fPath.splitext()
-			pathStr='%s_%X%s'%(unicode(fName),pathExtra,fExt)
+			uPath=self.dPath.__class__(u'%s_%X%s'%(unicode(fName),pathExtra,unicode(self.dPath.__class__(fExt))))
 			pathExtra=pathExtra+1
-		# we have the path string
-		return self.dPath.__class__(pathStr)
+		return uPath
 	
 	def File(self,resource,href):
 		"""Returns a new :py:class:`File` object attached to *resource*
-- 
2.43.0

