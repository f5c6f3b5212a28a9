From 8afe3a2197e1bd33c5b5d7ca7cb2a2fa8a04660a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:56 +0000
Subject: [PATCH 01/30] fix: concurrent first users of a tree share one tree
 lock

Two threads locking a tree for the first time could each create their own
lock and enter the critical section together.
---
 src/node/locking.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/node/locking.py b/src/node/locking.py
index c6557a0..88c08d5 100644
--- a/src/node/locking.py
+++ b/src/node/locking.py
@@ -8,7 +8,9 @@ class TreeLock(object):
         root = node.root
         self.lock = getattr(root, '_treelock', None)
         if self.lock is None:
-            self.lock = root._treelock = RLock()
+            # ``setdefault`` is atomic, concurrent first users of a tree must
+            # get the same lock
+            self.lock = root.__dict__.setdefault('_treelock', RLock())
 
     def acquire(self):
         self.lock.acquire()
-- 
2.43.0


From a7e54b865ea3ce76eb9dc0f1974b75fc38b57472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 02/30] fix: events work in threads other than the importing
 one

The thread local state was only initialized in the thread importing the
module. Dispatching, suppressing and setting event attributes raised
AttributeError in every other thread.
---
 src/node/behaviors/events.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 5cfe9fa..9507d0c 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -37,6 +37,15 @@ def event_dispatcher_metclass_hook(cls, name, bases, dct):
 ALL_EVENTS = object()
 
 
+class _SuppressData(threading.local):
+    """Suppression state of a thread.
+    """
+
+    def __init__(self):
+        self.suppress = 0
+        self.events = list()
+
+
 class suppress_events(object):
     """Context manager to suppress event notification.
 
@@ -61,9 +70,7 @@ class suppress_events(object):
         with suppress_events(['event_1', 'event_2']):
             pass  # do something
     """
-    data = threading.local()
-    data.suppress = 0
-    data.events = list()
+    data = _SuppressData()
 
     def __init__(self, events=ALL_EVENTS):
         type_ = type(events)
@@ -88,8 +95,15 @@ class UnknownEvent(ValueError):
     """
 
 
-_attribute_subscribers = threading.local()
-_attribute_subscribers.subscribers = list()
+class _AttributeSubscribers(threading.local):
+    """Decorator subscribers of the attribute currently set in a thread.
+    """
+
+    def __init__(self):
+        self.subscribers = list()
+
+
+_attribute_subscribers = _AttributeSubscribers()
 
 
 @contextmanager
-- 
2.43.0


From 6d37e474a47ad266680ccd4c148efd6520bede1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:00 +0000
Subject: [PATCH 03/30] fix: suppress_events suppresses when the block is
 entered

Event names were registered at instantiation time. Reusing an instance
raised ValueError and an instance which never got entered, or which got
created in another thread, broke the suppression of other blocks.
---
 src/node/behaviors/events.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 9507d0c..0f74f36 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -76,12 +76,11 @@ class suppress_events(object):
         type_ = type(events)
         if type_ not in (list, tuple):
             events = [events]
-        for event in events:
-            self.data.events.append(event)
-        self.events = events
+        self.events = list(events)
 
     def __enter__(self):
         self.data.suppress += 1
+        self.data.events.extend(self.events)
         return self.data.suppress
 
     def __exit__(self, type_, value, traceback):
-- 
2.43.0


From 807ec16fdde595c2997cdd4e060b1bfc40ac9306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:01 +0000
Subject: [PATCH 04/30] fix: dispatch calls the subscribers bound when it
 starts

A subscriber unbinding itself while being called made dispatch skip the
next one, and decorator subscribers could leak to another dispatch if their
own one failed early.
---
 src/node/behaviors/events.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 0f74f36..efd4c2f 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -113,7 +113,10 @@ def _subscribers(subscribers):
     ``EventAttributes.subscriber`` decorator.
     """
     _attribute_subscribers.subscribers = subscribers
-    yield
+    try:
+        yield
+    finally:
+        _attribute_subscribers.subscribers = list()
 
 
 class EventAttribute(object):
@@ -315,7 +318,10 @@ class Events(Behavior):
                 return
             if event in suppress_events.data.events:
                 return
+        # subscribers may bind and unbind while being called
+        attribute_subscribers = list(attribute_subscribers)
+        subscribers = list(self.__subscribers__.get(event, list()))
         for subscriber in attribute_subscribers:
             subscriber(self, *args, **kw)
-        for subscriber in self.__subscribers__.get(event, list()):
+        for subscriber in subscribers:
             subscriber(*args, **kw)
-- 
2.43.0


From a7e188a9f3b0fe86282127f67c97467f6b8f365c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 05/30] fix: fallback lookups work in threads other than the
 importing one

The thread local state was only initialized in the thread importing the
module, a missing key raised AttributeError in every other thread.
---
 src/node/behaviors/fallback.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/fallback.py b/src/node/behaviors/fallback.py
index 9d6562a..1097676 100644
--- a/src/node/behaviors/fallback.py
+++ b/src/node/behaviors/fallback.py
@@ -10,9 +10,14 @@ import threading
 _marker = dict()
 
 
+class _ProcessingData(threading.local):
+    """Recursion state of a thread.
+    """
+    processing = -1
+
+
 class fallback_processing(object):
-    data = threading.local()
-    data.processing = -1
+    data = _ProcessingData()
 
     def __enter__(self):
         self.data.processing += 1
-- 
2.43.0


From 436ccdba5d4c52790278dcb6fa8c243945f0e226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:06 +0000
Subject: [PATCH 06/30] fix: a missing fallback subtree does not end the
 fallback lookup

If the child named by fallback_key did not exist, the lookup failed with a
KeyError for the fallback key, even though a fallback closer to the root
provides the value.
---
 src/node/behaviors/fallback.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/fallback.py b/src/node/behaviors/fallback.py
index 1097676..d08e45f 100644
--- a/src/node/behaviors/fallback.py
+++ b/src/node/behaviors/fallback.py
@@ -36,7 +36,11 @@ def _to_root(node, path, visited):
     if not getattr(parent, 'fallback_key', _marker) or node in visited:
         return _to_root(parent, path=path, visited=visited)
     visited.update({node})
-    return _to_leaf(parent[parent.fallback_key], path=path, visited=visited)
+    fallback = parent.get(parent.fallback_key, _marker)
+    if fallback is _marker:
+        # no such fallback subtree, there may be others
+        return _to_root(parent, path=path, visited=visited)
+    return _to_leaf(fallback, path=path, visited=visited)
 
 
 def _to_leaf(node, path, visited):
-- 
2.43.0


From 857699f9511c49fb0788fe11ad40f5af6e22ff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 07/30] fix: revert adoption whatever error setting a child
 fails with

Storage failures like OSError left the rejected node with the name and the
parent of the container it is not contained in.
---
 src/node/behaviors/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index 02e4b56..64f1b45 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -38,8 +38,8 @@ class Adopt(Behavior):
         val.__parent__ = self
         try:
             _next(self, key, val)
-        except (AttributeError, KeyError, ValueError):
-            # XXX: In what other cases do we want to revert adoption?
+        except BaseException:
+            # the child was not added, whatever the reason is
             val.__name__ = old_name
             val.__parent__ = old_parent
             raise
-- 
2.43.0


From d9cbcac637fbab2c5e0e991290f69a7d31328e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 08/30] fix: GetattrChildren raises AttributeError for missing
 names

A KeyError from __getattr__ breaks hasattr, getattr with default, copying
and locking of such nodes.
---
 src/node/behaviors/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index 64f1b45..51c14ba 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -134,7 +134,10 @@ class GetattrChildren(Behavior):
         """For new-style classes __getattr__ is called, if the
         attribute could not be found via MRO
         """
-        return self[name]
+        try:
+            return self[name]
+        except KeyError:
+            raise AttributeError(name)
 
 
 @implementer(INodeChildValidate)
-- 
2.43.0


From fbc8fda917dde46cb0317f6b2140371da2659a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:35 +0000
Subject: [PATCH 09/30] fix: SuffixAliaser without suffix unaliases to the key
 itself

All keys were unaliased to the empty string.
---
 src/node/behaviors/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/behaviors/alias.py b/src/node/behaviors/alias.py
index cfbcddc..0dcb1f5 100644
--- a/src/node/behaviors/alias.py
+++ b/src/node/behaviors/alias.py
@@ -86,7 +86,7 @@ class SuffixAliaser(object):
                 suffixed_key,
                 suffix
             ))
-        return suffixed_key[:-len(suffix)]
+        return suffixed_key[:len(suffixed_key) - len(suffix)]
 
 
 @implementer(IAliaser)
-- 
2.43.0


From 4edab27d62e51098ef29c95fd57d95c1ec6c0fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 10/30] fix: a failing detach does not disable lifecycle
 notification

The node never notified any event again.
---
 src/node/behaviors/lifecycle.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/lifecycle.py b/src/node/behaviors/lifecycle.py
index a6e6209..0910986 100644
--- a/src/node/behaviors/lifecycle.py
+++ b/src/node/behaviors/lifecycle.py
@@ -51,8 +51,10 @@ class Lifecycle(Behavior):
     @plumb
     def detach(_next, self, key):
         self._notify_suppress = True
-        node = _next(self, key)
-        self._notify_suppress = False
+        try:
+            node = _next(self, key)
+        finally:
+            self._notify_suppress = False
         objectEventNotify(self.events['detached'](node, oldParent=self,
                                                   oldName=key))
         return node
-- 
2.43.0


From d95333c1f3c37a9d83e49587a2c330baa3efa6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 11/30] fix: trees which have been locked can be copied and
 pickled

deepcopy and pickle failed with a TypeError once the tree lock existed, and
shallow copies shared the lock.
---
 src/node/behaviors/nodify.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/node/behaviors/nodify.py b/src/node/behaviors/nodify.py
index ced1069..79c2bb8 100644
--- a/src/node/behaviors/nodify.py
+++ b/src/node/behaviors/nodify.py
@@ -37,6 +37,19 @@ class Nodify(FullMapping):
         new.__parent__ = self.__parent__
         return new
 
+    @plumb
+    def __reduce_ex__(_next, self, protocol):
+        # The tree lock belongs to the living tree. It must not be shared with
+        # copies and can neither be copied deeply nor pickled.
+        reduced = _next(self, protocol)
+        if isinstance(reduced, tuple) and len(reduced) > 2:
+            state = reduced[2]
+            if isinstance(state, dict) and '_treelock' in state:
+                state = state.copy()
+                del state['_treelock']
+                reduced = reduced[:2] + (state,) + reduced[3:]
+        return reduced
+
     @override
     @property
     def name(self):
-- 
2.43.0


From 6c30a3fec35a62c67ba37cd0622070b2f0b3cc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:52 +0000
Subject: [PATCH 12/30] fix: order insertions are all or nothing

Inserting a node under a name already taken by another child corrupted the
storage, a rejected or failing insertion left the node in the storage without
adopting it, and insertfirst and insertlast skipped validation on an empty
node.
---
 src/node/behaviors/order.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/node/behaviors/order.py b/src/node/behaviors/order.py
index 972cf2e..8403fe3 100644
--- a/src/node/behaviors/order.py
+++ b/src/node/behaviors/order.py
@@ -14,6 +14,7 @@ class Order(Behavior):
 
     @override
     def insertfirst(self, newnode):
+        self._validateinsertion(newnode)
         keys = self.keys()
         if not keys:
             self[newnode.name] = newnode
@@ -23,6 +24,7 @@ class Order(Behavior):
 
     @override
     def insertlast(self, newnode):
+        self._validateinsertion(newnode)
         keys = self.keys()
         if not keys:
             self[newnode.name] = newnode
@@ -33,20 +35,32 @@ class Order(Behavior):
     @override
     def insertbefore(self, newnode, refnode):
         self._validateinsertion(newnode)
+        storage = self.storage
         try:
-            self.storage.insertbefore(refnode.name, newnode.name, newnode)
+            storage.insertbefore(refnode.name, newnode.name, newnode)
         except KeyError:
             raise ValueError('Given reference node not child of self.')
-        self[newnode.name] = newnode
+        self._adoptinserted(storage, newnode)
 
     @override
     def insertafter(self, newnode, refnode):
         self._validateinsertion(newnode)
+        storage = self.storage
         try:
-            self.storage.insertafter(refnode.name, newnode.name, newnode)
+            storage.insertafter(refnode.name, newnode.name, newnode)
         except KeyError:
             raise ValueError('Given reference node not child of self.')
-        self[newnode.name] = newnode
+        self._adoptinserted(storage, newnode)
+
+    @override
+    def _adoptinserted(self, storage, newnode):
+        name = newnode.name
+        try:
+            self[name] = newnode
+        except BaseException:
+            # insertion failed, do not leave unadopted node in storage
+            del storage[name]
+            raise
 
     @override
     def _validateinsertion(self, node):
@@ -57,3 +71,5 @@ class Order(Behavior):
         if hasattr(self, 'node'):
             if self.node(node.uuid) is not None:
                 raise KeyError('Given node already contained in tree.')
+        if node.name in self.storage:
+            raise KeyError('Given node name already taken.')
-- 
2.43.0


From 7e3895a12f6e9e1794a1dec9ce945b8802c4d64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:54 +0000
Subject: [PATCH 13/30] fix: the uuid index contains exactly the nodes of the
 tree

Nodes below an added subtree kept their old index, replaced children stayed
in the index, removed subtrees kept sharing the index of the tree they left,
a leaf could take over the uuid of another node, the nil UUID was not
indexed, and failing storage operations left the index changed.
---
 src/node/behaviors/reference.py | 121 +++++++++++++++++++-------------
 1 file changed, 73 insertions(+), 48 deletions(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index 5545b7b..74a98f8 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -26,6 +26,33 @@ class NodeIndex(object):
         return int(key) in self._index
 
 
+def _int_uuid(uuid):
+    return int(uuid) if uuid is not None else None
+
+
+def _subtree_index(node):
+    """Return index of node and all referencing nodes below.
+    """
+    index = {_int_uuid(node.uuid): node}
+    for child in node.values():
+        # other values are a dead end, no magic for them
+        if IReference.providedBy(child):
+            index.update(_subtree_index(child))
+    return index
+
+
+def _add_to_index(index, nodes):
+    index.update(nodes)
+    for node in nodes.values():
+        node._index = index
+
+
+def _remove_from_index(index, nodes):
+    for iuuid, node in nodes.items():
+        index.pop(iuuid, None)
+        node._index = nodes
+
+
 @implementer(IReference)
 class Reference(Behavior):
     _uuid = default(None)
@@ -33,38 +60,60 @@ class Reference(Behavior):
     @plumb
     def __init__(_next, self, *args, **kw):
         self._index = dict()
+        # referencing children by key, needed if they get replaced
+        self._referenced = dict()
         self.uuid = uuid.uuid4()
         _next(self, *args, **kw)
 
     @plumb
     def __setitem__(_next, self, key, val):
-        if INode.providedBy(val):
-            try:
-                next(val.iterkeys())
-                keys = set(self._index.keys())
-                if keys.intersection(val._index.keys()):
-                    raise ValueError('Node with uuid already exists')
-            except StopIteration:
-                pass
-            self._index.update(val._index)
-            val._index = self._index
-        _next(self, key, val)
+        index = self._index
+        added = _subtree_index(val) if INode.providedBy(val) else dict()
+        old_indices = [(node, node._index) for node in added.values()]
+        replaced = self._referenced.get(key)
+        removed = dict()
+        if replaced is not None and replaced is not val:
+            removed = _subtree_index(replaced)
+        for iuuid, node in added.items():
+            if iuuid not in index or iuuid in removed:
+                continue
+            if index[iuuid] is not node or len(added) > 1:
+                raise ValueError('Node with uuid already exists')
+            # node is already indexed
+            added = dict()
+            break
+        _remove_from_index(index, removed)
+        _add_to_index(index, added)
+        try:
+            _next(self, key, val)
+        except BaseException:
+            # child not set, index must not know about it
+            for iuuid in added:
+                del index[iuuid]
+            for node, old_index in old_indices:
+                node._index = old_index
+            _add_to_index(index, removed)
+            raise
+        if IReference.providedBy(val):
+            self._referenced[key] = val
+        else:
+            self._referenced.pop(key, None)
 
     @plumb
     def __delitem__(_next, self, key):
         # fail immediately if key does not exist
         todel = self[key]
-        if hasattr(todel, '_to_delete'):
-            for iuuid in todel._to_delete():
-                del self._index[iuuid]
-        _next(self, key)
-
-    @plumb
-    def detach(_next, self, key):
-        node = _next(self, key)
-        node._index = {int(node.uuid): node}
-        node._index_nodes()
-        return node
+        index = self._index
+        removed = dict()
+        if IReference.providedBy(todel):
+            removed = _subtree_index(todel)
+        _remove_from_index(index, removed)
+        try:
+            _next(self, key)
+        except BaseException:
+            _add_to_index(index, removed)
+            raise
+        self._referenced.pop(key, None)
 
     @property
     def uuid(self):
@@ -73,11 +122,11 @@ class Reference(Behavior):
     @override
     @uuid.setter
     def uuid(self, uuid):
-        iuuid = uuid is not None and int(uuid) or None
+        iuuid = _int_uuid(uuid)
         if iuuid in self._index \
                 and self._index[iuuid] is not self:
             raise ValueError('Given uuid was already used for another Node')
-        siuuid = self._uuid is not None and int(self._uuid) or None
+        siuuid = _int_uuid(self._uuid)
         if siuuid in self._index:
             del self._index[siuuid]
         self._index[iuuid] = self
@@ -91,27 +140,3 @@ class Reference(Behavior):
     @override
     def node(self, uuid):
         return self._index.get(int(uuid))
-
-    @default
-    def _to_delete(self):
-        todel = [int(self.uuid)]
-        for childkey in self:
-            try:
-                todel += self[childkey]._to_delete()
-            except AttributeError:
-                # Non-Node values or non referencing children are not told
-                # about deletion.
-                continue
-        return todel
-
-    @default
-    def _index_nodes(self):
-        for node in self.values():
-            try:
-                uuid = int(node.uuid)
-            except AttributeError:
-                # non-Node values are a dead end, no magic for them
-                continue
-            self._index[uuid] = node
-            node._index = self._index
-            node._index_nodes()
-- 
2.43.0


From c6588dd97445713e589f65434400b356e5b1486c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:27 +0000
Subject: [PATCH 14/30] fix: order insertions keep nodes which have been
 adopted

An event handler failing after the node was inserted must not take it out of
the storage only.
---
 src/node/behaviors/order.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/order.py b/src/node/behaviors/order.py
index 8403fe3..9ce3992 100644
--- a/src/node/behaviors/order.py
+++ b/src/node/behaviors/order.py
@@ -55,12 +55,21 @@ class Order(Behavior):
     @override
     def _adoptinserted(self, storage, newnode):
         name = newnode.name
+        old_parent = getattr(newnode, '__parent__', None)
+        if old_parent is self:
+            # stale, must be distinguishable from being adopted below
+            newnode.__parent__ = None
         try:
             self[name] = newnode
         except BaseException:
-            # insertion failed, do not leave unadopted node in storage
-            del storage[name]
+            if getattr(newnode, '__parent__', None) is not self:
+                # insertion failed, do not leave unadopted node in storage
+                del storage[name]
+                if old_parent is self:
+                    newnode.__parent__ = old_parent
             raise
+        if old_parent is self:
+            newnode.__parent__ = old_parent
 
     @override
     def _validateinsertion(self, node):
-- 
2.43.0


From 147c5a4dbd665ed94f1a00cf48de44b1eec84f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 15/30] fix: pop with default passes errors of the deletion

A KeyError raised while the existing child gets deleted, e.g. by an event
handler, was turned into the default value.
---
 src/node/behaviors/mapping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/mapping.py b/src/node/behaviors/mapping.py
index ecfebde..e6f76b4 100644
--- a/src/node/behaviors/mapping.py
+++ b/src/node/behaviors/mapping.py
@@ -208,11 +208,11 @@ class ExtendedWriteMapping(WriteMapping):
         """
         try:
             val = self[key]
-            del self[key]
         except KeyError:
             if default is UNSET:
                 raise
-            val = default
+            return default
+        del self[key]
         return val
 
     @default
-- 
2.43.0


From ae883a043a8ac4df6ca05799fa61e642dc97390e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:52 +0000
Subject: [PATCH 16/30] fix: invalidating all children of a caching node
 invalidates all of them

The loop emptying the cache overwrote the key passed on to the storage.
---
 src/node/behaviors/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/cache.py b/src/node/behaviors/cache.py
index 4c7eeca..ba39d38 100644
--- a/src/node/behaviors/cache.py
+++ b/src/node/behaviors/cache.py
@@ -86,8 +86,8 @@ class Cache(Behavior):
             except KeyError:
                 pass
         else:
-            for key in _keys(cache):
-                del cache[key]
+            for cached in _keys(cache):
+                del cache[cached]
         _next(self, key=key)
 
     @plumb
-- 
2.43.0


From c518019d2bd24613c410ff105d3c2d5fcf243a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:03 +0000
Subject: [PATCH 17/30] fix: an empty dict aliaser hides all keys

---
 src/node/behaviors/alias.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/node/behaviors/alias.py b/src/node/behaviors/alias.py
index 0dcb1f5..5031911 100644
--- a/src/node/behaviors/alias.py
+++ b/src/node/behaviors/alias.py
@@ -126,7 +126,7 @@ class Alias(Behavior):
 
     @plumb
     def __getitem__(_next, self, key):
-        if self.aliaser:
+        if self.aliaser is not None:
             unaliased_key = self.aliaser.unalias(key)
         else:
             unaliased_key = key
@@ -137,7 +137,7 @@ class Alias(Behavior):
 
     @plumb
     def __setitem__(_next, self, key, val):
-        if self.aliaser:
+        if self.aliaser is not None:
             unaliased_key = self.aliaser.unalias(key)
         else:
             unaliased_key = key
@@ -148,7 +148,7 @@ class Alias(Behavior):
 
     @plumb
     def __delitem__(_next, self, key):
-        if self.aliaser:
+        if self.aliaser is not None:
             unaliased_key = self.aliaser.unalias(key)
         else:
             unaliased_key = key
@@ -161,7 +161,7 @@ class Alias(Behavior):
     def __iter__(_next, self):
         for key in _next(self):
             try:
-                if self.aliaser:
+                if self.aliaser is not None:
                     yield self.aliaser.alias(key)
                 else:
                     yield key
-- 
2.43.0


From 016b66d008071d738def938c58356b2252b35772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:49 +0000
Subject: [PATCH 18/30] fix: decode constructor data of serialized nodes

---
 src/node/serializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/node/serializer.py b/src/node/serializer.py
index ea27ef4..fe6c9ce 100644
--- a/src/node/serializer.py
+++ b/src/node/serializer.py
@@ -155,7 +155,9 @@ class NodeDecoder(object):
         child on ``parent`` if given.
         """
         factory = self.resolve(data['class'])
-        kw = self.decode(data.get('kw', dict()))
+        kw = dict(
+            (key, self.decode(val)) for key, val in data.get('kw', {}).items()
+        )
         name = data['name']
         if parent is not None:
             node = parent[name] = factory(**kw)
-- 
2.43.0


From b1d3a7c1f9ba0b1ca94f343b1ea613491cd41e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:01 +0000
Subject: [PATCH 19/30] fix: serialize nodes with attribute access for
 attributes

---
 src/node/serializer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/node/serializer.py b/src/node/serializer.py
index fe6c9ce..64a520c 100644
--- a/src/node/serializer.py
+++ b/src/node/serializer.py
@@ -4,6 +4,7 @@ from inspect import isfunction
 from inspect import ismethod
 from node.compat import IS_PY2
 from node.compat import STR_TYPE
+from node.interfaces import IAttributeAccess
 from node.interfaces import IAttributes
 from node.interfaces import INode
 from node.utils import UNSET
@@ -228,7 +229,10 @@ def deserialize_node(decoder, node, data):
 @serializer(IAttributes)
 def serialize_node_attributes(encoder, node, data):
     attrs = data.setdefault('attrs', dict())
-    for name, child in node.attrs.items():
+    node_attrs = node.attrs
+    if IAttributeAccess.providedBy(node_attrs):
+        node_attrs = object.__getattribute__(node_attrs, 'context')
+    for name, child in node_attrs.items():
         attrs[name] = encoder.default(child)
 
 
-- 
2.43.0


From d9e8ac737efdeafd1d41de58cdd66e44c7fea7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:11 +0000
Subject: [PATCH 20/30] fix: import the modules serialized nodes refer to

---
 src/node/serializer.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/node/serializer.py b/src/node/serializer.py
index 64a520c..77288d6 100644
--- a/src/node/serializer.py
+++ b/src/node/serializer.py
@@ -2,6 +2,7 @@
 from inspect import isclass
 from inspect import isfunction
 from inspect import ismethod
+from inspect import ismodule
 from node.compat import IS_PY2
 from node.compat import STR_TYPE
 from node.interfaces import IAttributeAccess
@@ -146,9 +147,18 @@ class NodeDecoder(object):
         """Resolve dotted name to object.
         """
         components = name.split('.')
-        ob = __import__(components[0])
+        dotted = components[0]
+        ob = __import__(dotted)
         for comp in components[1:]:
-            ob = getattr(ob, comp)
+            dotted = '.'.join([dotted, comp])
+            try:
+                ob = getattr(ob, comp)
+            except AttributeError:
+                if not ismodule(ob):
+                    raise
+                # module which has not been imported yet
+                __import__(dotted)
+                ob = getattr(ob, comp)
         return ob
 
     def node_factory(self, data, parent=None):
-- 
2.43.0


From fd114c04ed2be9ff2e229860d74a30ee985d511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:24 +0000
Subject: [PATCH 21/30] fix: instance properties remember nothing if the
 computation fails

---
 src/node/utils.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/node/utils.py b/src/node/utils.py
index d720ba6..f8f71d2 100644
--- a/src/node/utils.py
+++ b/src/node/utils.py
@@ -218,8 +218,20 @@ def instance_property(func):
         try:
             return object.__getattribute__(self, attribute_name)
         except AttributeError:
+            pass
+        try:
             setattr(self, attribute_name, func(self))
-            return object.__getattribute__(self, attribute_name)
+        except BaseException:
+            # if ``func`` called the property it overrides, the attribute has
+            # been set by the latter
+            try:
+                object.__getattribute__(self, attribute_name)
+            except AttributeError:
+                pass
+            else:
+                delattr(self, attribute_name)
+            raise
+        return object.__getattribute__(self, attribute_name)
     wrapper.__doc__ = func.__doc__
     return property(wrapper)
 
-- 
2.43.0


From d6d5eff4348f52641eb2f645ca3fc7c5d8adce91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:47 +0000
Subject: [PATCH 22/30] fix: decode values inside of dictionaries

---
 src/node/serializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/serializer.py b/src/node/serializer.py
index 77288d6..0d86dc0 100644
--- a/src/node/serializer.py
+++ b/src/node/serializer.py
@@ -206,8 +206,8 @@ class NodeDecoder(object):
                 elif isinstance(node, cls):
                     callback(self, node, node_data)
             return node
-        # no custom deserialization required
-        return data
+        # decode data from dict
+        return dict((key, self.decode(val)) for key, val in data.items())
 
 
 ###############################################################################
-- 
2.43.0


From 6ebd6980513ec86aa9c37d86670e1916bcbd2e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:47 +0000
Subject: [PATCH 23/30] fix: copies of UNSET

---
 src/node/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/node/utils.py b/src/node/utils.py
index f8f71d2..1473034 100644
--- a/src/node/utils.py
+++ b/src/node/utils.py
@@ -33,6 +33,10 @@ class Unset(object):
     def __repr__(self):
         return '<UNSET>'
 
+    def __reduce__(self):
+        # copies and unpickled objects must be ``UNSET`` itself
+        return 'UNSET'
+
 
 UNSET = Unset()
 
-- 
2.43.0


From 4f1f07cb80ecf80c1fccd78c225facc968464f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:45 +0000
Subject: [PATCH 24/30] fix: copy uuid aware nodes with non-node children

---
 src/node/behaviors/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index 51c14ba..66ec127 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -211,4 +211,6 @@ class UUIDAware(Behavior):
                 node.uuid = self.uuid_factory()
         if recursiv:
             for child in node.values():
-                self.set_uuid_for(child, override, recursiv)
+                # non-node children have neither uuid nor children
+                if INode.providedBy(child):
+                    self.set_uuid_for(child, override, recursiv)
-- 
2.43.0


From 6057fd40d64d160875ddbbfbdb3921fbb1ddea03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:45 +0000
Subject: [PATCH 25/30] fix: create event dispatchers with constructor
 arguments

---
 src/node/behaviors/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index efd4c2f..b553aba 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -252,7 +252,7 @@ class Events(Behavior):
     def __new__(cls, *args, **kw):
         """Set ``__events__`` and ``__subscribers__`` attributes on instance.
         """
-        inst = super(type, cls).__new__(cls, *args, **kw)
+        inst = super(type, cls).__new__(cls)
         inst.__events__ = list()
         inst.__subscribers__ = dict()
         return inst
-- 
2.43.0


From eab83dcc9bf89e7374b5f3b9a76a2b43312ae370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:10 +0000
Subject: [PATCH 26/30] fix: classes of event dispatchers know the events of
 their subclasses

---
 src/node/behaviors/events.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index b553aba..985dacb 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -24,8 +24,8 @@ def event_dispatcher_metclass_hook(cls, name, bases, dct):
     """
     if not IEvents.implementedBy(cls):
         return
-    if not hasattr(cls, '__events__'):
-        cls.__events__ = list()
+    # do not modify the events of a base class
+    cls.__events__ = list(getattr(cls, '__events__', list()))
     events = cls.__events__
     for attr, val in dct.items():
         if isinstance(val, EventAttribute):
-- 
2.43.0


From e58485bbb0528a66674315c3325d660e9d75e3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 27/30] fix: acquire passes over ancestors whose truth value is
 False

---
 src/node/behaviors/nodify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/behaviors/nodify.py b/src/node/behaviors/nodify.py
index 79c2bb8..4f263a0 100644
--- a/src/node/behaviors/nodify.py
+++ b/src/node/behaviors/nodify.py
@@ -84,7 +84,7 @@ class Nodify(FullMapping):
     @override
     def acquire(self, interface):
         node = self.parent
-        while node:
+        while node is not None:
             if (IInterface.providedBy(interface) and
                     interface.providedBy(node)) or \
                     isinstance(node, interface):
-- 
2.43.0


From 3222ebdb3fc2fb9ab11c43f3438c536b238aeec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 28/30] fix: Fallback recognizes visited nodes by identity, not
 by equality

---
 src/node/behaviors/fallback.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/node/behaviors/fallback.py b/src/node/behaviors/fallback.py
index d08e45f..279f1d3 100644
--- a/src/node/behaviors/fallback.py
+++ b/src/node/behaviors/fallback.py
@@ -33,9 +33,11 @@ def _to_root(node, path, visited):
     parent = node.__parent__
     if parent is None:
         return _marker
-    if not getattr(parent, 'fallback_key', _marker) or node in visited:
+    if not getattr(parent, 'fallback_key', _marker) or id(node) in visited:
         return _to_root(parent, path=path, visited=visited)
-    visited.update({node})
+    # identity counts, nodes may be equal or not hashable at all. keep the node
+    # alive, otherwise its id could be reused while searching
+    visited[id(node)] = node
     fallback = parent.get(parent.fallback_key, _marker)
     if fallback is _marker:
         # no such fallback subtree, there may be others
@@ -71,7 +73,7 @@ class Fallback(Behavior):
             with fallback_processing() as count:
                 if count > 0:
                     raise
-                value = _to_root(self, path=self.path + [key], visited=set())
+                value = _to_root(self, path=self.path + [key], visited=dict())
                 if value is _marker:
                     raise
         return value
-- 
2.43.0


From c94bd3e4475f11b05d70f7c9145127cbbd3c85c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 29/30] fix: a failed insertion undoes only its own entry

---
 src/node/behaviors/order.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/order.py b/src/node/behaviors/order.py
index 9ce3992..e4de61a 100644
--- a/src/node/behaviors/order.py
+++ b/src/node/behaviors/order.py
@@ -62,8 +62,10 @@ class Order(Behavior):
         try:
             self[name] = newnode
         except BaseException:
-            if getattr(newnode, '__parent__', None) is not self:
-                # insertion failed, do not leave unadopted node in storage
+            if getattr(newnode, '__parent__', None) is not self \
+                    and name in storage and storage[name] is newnode:
+                # insertion failed, do not leave unadopted node in storage.
+                # it may be gone already if an event handler removed it
                 del storage[name]
                 if old_parent is self:
                     newnode.__parent__ = old_parent
-- 
2.43.0


From 4f41ace22092dd7753673fd0ce3c86b5fbbc2e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 30/30] fix: looking up the lock of a tree does not reach its
 children

---
 src/node/locking.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/node/locking.py b/src/node/locking.py
index 88c08d5..cbf19c1 100644
--- a/src/node/locking.py
+++ b/src/node/locking.py
@@ -6,7 +6,9 @@ class TreeLock(object):
 
     def __init__(self, node):
         root = node.root
-        self.lock = getattr(root, '_treelock', None)
+        # attribute lookup may reach the children, which must not be touched
+        # before the lock is held
+        self.lock = root.__dict__.get('_treelock')
         if self.lock is None:
             # ``setdefault`` is atomic, concurrent first users of a tree must
             # get the same lock
-- 
2.43.0

