From 06d11279e1ffe451ca0e01264750786d0b846e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:14 +0000
Subject: [PATCH 001/103] fix: do not change the parent of an object whose
 append/insert is rejected

---
 xigt/mixins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 9557ff4..7be5dc3 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -102,14 +102,14 @@ class XigtContainerMixin(list):
 
     def append(self, obj):
         self._assert_type(obj)
-        obj._parent = self._container
         self._create_id_mapping(obj)
+        obj._parent = self._container
         list.append(self, obj)
 
     def insert(self, i, obj):
         self._assert_type(obj)
-        obj._parent = self._container
         self._create_id_mapping(obj)
+        obj._parent = self._container
         list.insert(self, i, obj)
 
     def extend(self, objs):
-- 
2.43.0


From 617b98d09a79bf5276d2fe9595a57b6e88014172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:15 +0000
Subject: [PATCH 002/103] fix: removing an object that is not a member must not
 damage the id index

---
 xigt/mixins.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 7be5dc3..2abecf3 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -118,9 +118,10 @@ class XigtContainerMixin(list):
 
     def remove(self, obj):
         # NOTE: this method is destructive. check for broken refs here?
-        if obj.id is not None:
-            del self._dict[obj.id]
-        list.remove(self, obj)
+        # the object removed is the first one equal to obj
+        idx = self.index(obj)
+        self._remove_id_mapping(list.__getitem__(self, idx))
+        list.__delitem__(self, idx)
 
     def clear(self):
         self._dict.clear()
@@ -136,6 +137,10 @@ class XigtContainerMixin(list):
                 )
             self._dict[obj.id] = obj
 
+    def _remove_id_mapping(self, obj):
+        if obj.id is not None and self._dict.get(obj.id) is obj:
+            del self._dict[obj.id]
+
     def refresh_index(self):
         self._dict = {}
         for obj in self:
-- 
2.43.0


From f439add7d821342fcbe5d408ff5d33cd10c65cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:16 +0000
Subject: [PATCH 003/103] fix: del container[i] deletes the object at i, not
 the first equal one

---
 xigt/mixins.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 2abecf3..a203dac 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -76,7 +76,13 @@ class XigtContainerMixin(list):
     def __delitem__(self, obj_id):
         # NOTE: this method is destructive. check for broken refs here?
         obj = self[obj_id]
-        self.remove(obj)
+        if obj_id in self._dict:
+            idx = next(i for i, x in enumerate(list.__iter__(self))
+                       if x is obj)
+        else:
+            idx = int(obj_id)
+        self._remove_id_mapping(obj)
+        list.__delitem__(self, idx)
 
     def get(self, obj_id, default=None):
         try:
-- 
2.43.0


From fa00ed21db92c9bfea4eac5de11f0aa3ed36b8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:18 +0000
Subject: [PATCH 004/103] fix: container[i] = obj sets the parent and keeps the
 index when rejected

---
 xigt/mixins.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index a203dac..2303fad 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -68,9 +68,13 @@ class XigtContainerMixin(list):
         except TypeError:
             idx = int(idx)
             cur_obj = list.__getitem__(self, idx)
-        if cur_obj.id is not None:
-            del self._dict[cur_obj.id]
-        self._create_id_mapping(obj)
+        self._remove_id_mapping(cur_obj)
+        try:
+            self._create_id_mapping(obj)
+        except XigtError:
+            self._create_id_mapping(cur_obj)
+            raise
+        obj._parent = self._container
         list.__setitem__(self, idx, obj)
 
     def __delitem__(self, obj_id):
-- 
2.43.0


From 2c20c4feef5a8dd54ed6f7da1de6613a8bb60470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:19 +0000
Subject: [PATCH 005/103] fix: pop() and += keep the id index and the parents
 of containers

---
 xigt/mixins.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 2303fad..11308b1 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -133,6 +133,15 @@ class XigtContainerMixin(list):
         self._remove_id_mapping(list.__getitem__(self, idx))
         list.__delitem__(self, idx)
 
+    def pop(self, i=-1):
+        obj = list.pop(self, i)
+        self._remove_id_mapping(obj)
+        return obj
+
+    def __iadd__(self, objs):
+        self.extend(objs)
+        return self
+
     def clear(self):
         self._dict.clear()
         # list.clear doesn't exist in Python2
-- 
2.43.0


From 691436626032790080dd29a86a5c80b3c1c715eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:40 +0000
Subject: [PATCH 006/103] fix: assigning a container or a lazy selection to
 itself must not empty it

---
 xigt/metadata.py | 10 +++++++---
 xigt/model.py    |  9 ++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/xigt/metadata.py b/xigt/metadata.py
index 9f786d5..17d7730 100644
--- a/xigt/metadata.py
+++ b/xigt/metadata.py
@@ -38,6 +38,7 @@ class XigtMetadataMixin(object):
         if isinstance(value, Metadata):
             raise XigtError('The metadata attribute must be a sequence '
                             'of Metadata objects.')
+        value = list(value)  # may be lazy, or the current metadata
         self._md.clear()
         self._md.extend(value)
 
@@ -113,8 +114,9 @@ class Metadata(XigtContainerMixin, XigtAttributeMixin):
         return list(self)
     @metas.setter
     def metas(self, value):
+        value = list(value or [])  # may be lazy, or this container
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
 
     # deprecated properties
 
@@ -161,8 +163,9 @@ class Meta(XigtContainerMixin, XigtAttributeMixin):
         return list(self)
     @children.setter
     def children(self, value):
+        value = list(value or [])  # may be lazy, or this container
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
 
 
 class MetaChild(XigtContainerMixin, XigtAttributeMixin):
@@ -202,5 +205,6 @@ class MetaChild(XigtContainerMixin, XigtAttributeMixin):
         return list(self)
     @children.setter
     def children(self, value):
+        value = list(value or [])  # may be lazy, or this container
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
diff --git a/xigt/model.py b/xigt/model.py
index 014c9ac..cb10e57 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -111,8 +111,9 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         return list(self)
     @igts.setter
     def igts(self, value):
+        value = list(value or [])  # may be lazy, or this container
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
 
 
 class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
@@ -197,8 +198,9 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         return list(self)
     @tiers.setter
     def tiers(self, value):
+        value = list(value or [])  # may be lazy, or this container
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
 
     def get_item(self, item_id, default=None):
         return self._itemdict.get(item_id, default)
@@ -298,8 +300,9 @@ class Tier(XigtContainerMixin, XigtAttributeMixin,
         return list(self)
     @items.setter
     def items(self, value):
+        value = list(value or [])  # may be lazy, or this container
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
 
     def allowed_reference_attributes(self):
         # tiers get _tier_refattrs[tier.type]; if a type is not
-- 
2.43.0


From 1ac3c445f57e2e1d43659b16610c53d58337ed0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:41 +0000
Subject: [PATCH 007/103] fix: select(namespace=...) on a metadata container
 raised AttributeError

---
 xigt/mixins.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 11308b1..8a77d0d 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -97,8 +97,10 @@ class XigtContainerMixin(list):
 
     def select(self, **kwargs):
         # handle namespace separately so we can lookup the nsmap
-        if 'namespace' in kwargs and kwargs['namespace'] in self.nsmap:
-            kwargs['namespace'] = self.nsmap[kwargs['namespace']]
+        # (the metadata container has no nsmap of its own)
+        nsmap = self._container.nsmap if 'namespace' in kwargs else {}
+        if 'namespace' in kwargs and kwargs['namespace'] in nsmap:
+            kwargs['namespace'] = nsmap[kwargs['namespace']]
         def match(x):
             return all(getattr(x, k, None) == v for k, v in kwargs.items())
         return filter(match, self)
-- 
2.43.0


From f6a3752aaed3e1cde2134eab3b5043eddd361949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:43 +0000
Subject: [PATCH 008/103] fix: != on containers compared only their elements

---
 xigt/mixins.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 8a77d0d..57b456d 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -47,6 +47,10 @@ class XigtContainerMixin(list):
         except AttributeError:
             return False
 
+    def __ne__(self, other):
+        # list defines its own != which would be used otherwise
+        return not self == other
+
     def __getitem__(self, obj_id):
         if isinstance(obj_id, (int, slice)):
             return list.__getitem__(self, obj_id)
-- 
2.43.0


From 564f9382f7c1ed3507abe4f494c24ed044deb837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 009/103] fix: an Item or Meta compared equal to objects of
 other kinds

---
 xigt/metadata.py | 3 ++-
 xigt/model.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/xigt/metadata.py b/xigt/metadata.py
index 17d7730..5df54a6 100644
--- a/xigt/metadata.py
+++ b/xigt/metadata.py
@@ -151,7 +151,8 @@ class Meta(XigtContainerMixin, XigtAttributeMixin):
     def __eq__(self, other):
         try:
             return (
-                self.text == other.text
+                isinstance(other, Meta)
+                and self.text == other.text
                 and XigtContainerMixin.__eq__(self, other)
                 and XigtAttributeMixin.__eq__(self, other)
             )
diff --git a/xigt/model.py b/xigt/model.py
index cb10e57..92184ef 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -349,7 +349,8 @@ class Item(XigtAttributeMixin, XigtReferenceAttributeMixin):
     def __eq__(self, other):
         try:
             return (
-                self.text == other.text
+                isinstance(other, Item)
+                and self.text == other.text
                 and XigtAttributeMixin.__eq__(self, other)
             )
         except AttributeError:
-- 
2.43.0


From 740462278ca2a7953d09f17621532d4ffbdbd59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:04 +0000
Subject: [PATCH 010/103] fix: inherited lookup of attributes with namespace=
 never succeeded

---
 xigt/mixins.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 57b456d..1825ac2 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -231,9 +231,8 @@ class XigtAttributeMixin(object):
             return self.attributes[key]
         except KeyError:
             if inherit and _has_parent(self):
-                return self._parent.get_attribute(
-                    key, default, inherit, namespace=namespace
-                )
+                # key is fully qualified by now
+                return self._parent.get_attribute(key, default, inherit)
             else:
                 return default
 
-- 
2.43.0


From 44d3118938c39e649249cdc6c0c3b112a9590b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:26 +0000
Subject: [PATCH 011/103] fix: expand, compress, selections and spans lost
 newlines between ids

---
 xigt/ref.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/ref.py b/xigt/ref.py
index a3e8b2a..3c280b9 100644
--- a/xigt/ref.py
+++ b/xigt/ref.py
@@ -16,7 +16,8 @@ reflist_re = re.compile(r'^\s*([a-zA-Z][-.\w]*)(\s+[a-zA-Z][-.\w]*)*\s*$')
 robust_ref_re = re.compile(
     r'(^|.+?)'  # anything not an id (maybe space, maybe a delimiter)
     r'($|[a-zA-Z][\-.\w]*)'  # id
-    r'(?:$|\[((?:[^-.:\d]?-?[.\d]+:-?[.\d]+)+)\])?'  # range
+    r'(?:$|\[((?:[^-.:\d]?-?[.\d]+:-?[.\d]+)+)\])?',  # range
+    re.DOTALL  # newlines may separate ids, too
 )
 selection_re = re.compile(
     r'(^|[^-a-zA-Z:.])'  # start of string or delimiter
-- 
2.43.0


From adbdbb64fbde1af4082ce778cd89b0e9879fa138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:24 +0000
Subject: [PATCH 012/103] fix: refresh_indices kept removed and renamed items
 in the item index

---
 xigt/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xigt/model.py b/xigt/model.py
index 92184ef..6a68242 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -157,6 +157,7 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         xs = [i for t in self.tiers for i in t.items]
         if items:
             idict = self._itemdict
+            idict.clear()  # forget items that were removed or renamed
             for item in xs:
                 i_id = item.id
                 if idict.get(i_id, item) != item:
-- 
2.43.0


From 7f7af4ba7bb5915ce95f7ee0a09816b313b9999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:25 +0000
Subject: [PATCH 013/103] fix: items without id were indexed under None and
 reported as duplicates

---
 xigt/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xigt/model.py b/xigt/model.py
index 6a68242..57ca809 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -160,6 +160,8 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
             idict.clear()  # forget items that were removed or renamed
             for item in xs:
                 i_id = item.id
+                if i_id is None:
+                    continue
                 if idict.get(i_id, item) != item:
                     warnings.warn(
                         'Item "{}" already exists in Igt.'.format(i_id),
-- 
2.43.0


From d8d2d6d5dceff709885085dda0188f588814a3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:26 +0000
Subject: [PATCH 014/103] fix: cached referrers listed an object once per span
 instead of once

---
 xigt/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/model.py b/xigt/model.py
index 57ca809..201e1a7 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -188,7 +188,8 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
                 inv_ids_map = defaultdict(lambda: defaultdict(list))
                 for obj_id, ra_map in ids_map.items():
                     for refattr, ref_ids in ra_map.items():
-                        for ref_id in ref_ids:
+                        # an expression may select the same id repeatedly
+                        for ref_id in dict.fromkeys(ref_ids):
                             inv_ids_map[ref_id][refattr].append(obj_id)
                 self._referrer_cache = inv_ids_map
 
-- 
2.43.0


From f4084101a47aeef2e9d999ef42f784bd2b7e9d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:15 +0000
Subject: [PATCH 015/103] fix: cycle detection in query.ancestors recorded
 characters of tier ids

---
 xigt/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/query.py b/xigt/query.py
index d25c540..0f83486 100644
--- a/xigt/query.py
+++ b/xigt/query.py
@@ -41,7 +41,7 @@ def ancestors(obj, refattrs=(ALIGNMENT, SEGMENTATION)):
         # cycle detection; break if we've now encountered something twice
         if reftier.id in visited:
             break
-        visited.update(reftier.id)
+        visited.add(reftier.id)
         tier = reftier
         items = refitems
 
-- 
2.43.0


From 124dd8a4d30aa19cce7df28ff0c03e88570a05a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:17 +0000
Subject: [PATCH 016/103] fix: sort_tiers with cyclic or dangling references,
 or tiers without id

---
 xigt/model.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/xigt/model.py b/xigt/model.py
index 201e1a7..dbc3dfa 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -225,7 +225,8 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
             return ref.referrers(self, id, refattrs=refattrs)
 
     def sort_tiers(self, refattrs=(SEGMENTATION, ALIGNMENT, CONTENT)):
-        idx = {t.id: i+1 for i, t in enumerate(self)}  # initial index
+        # initial index (tiers without an id cannot be referred to)
+        idx = {t.id: i+1 for i, t in enumerate(self) if t.id is not None}
         pr = {}  # prioritized referent
         for t in self:
             ra_i = next(
@@ -234,16 +235,19 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
                 None
             )
             if ra_i is not None:
-                pr[t.id] = (t.get_attribute(ra_i[0]), ra_i[1])
+                pr[id(t)] = (t.get_attribute(ra_i[0]), ra_i[1])
         dfi = {}  # depth-first index
-        for t in self:
-            key = [(idx[t.id],0)]  # default value
-            tmp = pr.get(t.id)
-            while tmp:  # iterative depth first
+        for i, t in enumerate(self):
+            key = [(i+1,0)]  # default value
+            tmp = pr.get(id(t))
+            visited = set([t.id])  # stop at cycles and at missing tiers
+            while tmp and tmp[0] in idx and tmp[0] not in visited:
+                # iterative depth first
                 key.append((idx[tmp[0]], tmp[1]))
-                tmp = pr.get(tmp[0])
-            dfi[t.id] = tuple(reversed(key))  # highest ancestor first
-        self.sort(key=lambda t: dfi[t.id])
+                visited.add(tmp[0])
+                tmp = pr.get(id(self[tmp[0]]))
+            dfi[id(t)] = tuple(reversed(key))  # highest ancestor first
+        self.sort(key=lambda t: dfi[id(t)])
 
 
 class Tier(XigtContainerMixin, XigtAttributeMixin,
-- 
2.43.0


From a5ce2aee64a33852a585470b27d2bf67d21387c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:54 +0000
Subject: [PATCH 017/103] fix: the type of a corpus was lost or turned into an
 attribute on loading

---
 xigt/codecs/xigtjson.py | 1 +
 xigt/codecs/xigtxml.py  | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 557054f..8344ea9 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -61,6 +61,7 @@ def decode(obj, mode='full', nsmap=None):
     nsmap = active_namespaces(obj, nsmap)
     return XigtCorpus(
         id=obj.get('id'),
+        type=obj.get('type'),
         attributes=obj.get('attributes', {}),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index da41112..4f4b6d0 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -241,7 +241,8 @@ def default_decode_xigtcorpus(elem, igts=None, mode='full'):
     assert tag == 'xigt-corpus'
     return XigtCorpus(
         id=elem.get('id'),
-        attributes=get_attributes(elem, ignore=('id',)),
+        type=elem.get('type'),
+        attributes=get_attributes(elem, ignore=('id', 'type')),
         metadata=[decode_metadata(md) for md in elem.findall('metadata')],
         # NOTE: possible bug here; does nsiterparse run with elem.findall?
         igts=igts or [decode_igt(igt) for igt in elem.findall('igt')],
-- 
2.43.0


From dcf4a74b539f0fbcc2ff8cbab4161f06b5436d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:55 +0000
Subject: [PATCH 018/103] fix: id and type of elements nested in a meta were
 dropped on loading

---
 xigt/codecs/xigtjson.py | 2 ++
 xigt/codecs/xigtxml.py  | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 8344ea9..19f68c1 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -168,6 +168,8 @@ def decode_metachild(obj, nsmap=None):
         namespace=namespace,
         nsmap=obj.get('namespaces')
     )
+    mc.id = obj.get('id')
+    mc.type = obj.get('type')
     return mc
 
 
diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 4f4b6d0..58356e9 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -341,7 +341,8 @@ def default_decode_metachild(elem):
     text = elem.text or ''
     mc = MetaChild(
         tag,
-        attributes=get_attributes(elem, ignore=('id', 'type')),
+        # any attribute is allowed here; id and type have no special meaning
+        attributes=get_attributes(elem),
         text=text if text.strip() else None,
         children=[decode_metachild(mc) for mc in elem],
         namespace=ns,
-- 
2.43.0


From a1320a0b705e3e15de44150807d3e397772d6dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:56 +0000
Subject: [PATCH 019/103] fix: XigtJSON dropped empty item texts and empty
 types

---
 xigt/codecs/xigtjson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 19f68c1..e028dd0 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -192,7 +192,7 @@ def _make_obj(x, nscontext=None):
     nsmap = dict(set(active_nsmap.items()).difference(nscontext.items()))
     obj = {}
     if x.id: obj['id'] = x.id
-    if x.type: obj['type'] = x.type
+    if x.type is not None: obj['type'] = x.type
     # might need to re-add prefixes to namespaced attribute keys
     if x.attributes:
         attrs = {}
@@ -256,6 +256,6 @@ def encode_tier(tier, nscontext=None):
 
 def encode_item(item, nscontext=None):
     obj, ns = _make_obj(item, nscontext)
-    if item.text: obj['text'] = item.text
+    if item.text is not None: obj['text'] = item.text
     return obj
 
-- 
2.43.0


From 28eb7299df4d8239acec55c4478222c8d4c18413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:57 +0000
Subject: [PATCH 020/103] fix: XigtJSON did not map prefixed attributes back to
 their namespace

---
 xigt/codecs/xigtjson.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index e028dd0..15c2ed2 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -62,7 +62,7 @@ def decode(obj, mode='full', nsmap=None):
     return XigtCorpus(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
         igts=[decode_igt(igt, nsmap)
@@ -77,7 +77,7 @@ def decode_igt(obj, nsmap=None):
     igt = Igt(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
         tiers=[decode_tier(tier, nsmap)
@@ -93,7 +93,7 @@ def decode_tier(obj, nsmap=None):
     tier = Tier(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
         items=[decode_item(item, nsmap)
@@ -109,7 +109,7 @@ def decode_item(obj, nsmap=None):
     item = Item(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         text=obj.get('text'),
         namespace=obj.get('namespace'),
         nsmap=obj.get('namespaces')
@@ -122,7 +122,7 @@ def decode_metadata(obj, nsmap=None):
     metadata = Metadata(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         metas=[decode_meta(meta, nsmap)
                for meta in obj.get('metas', [])],
         namespace=obj.get('namespace'),
@@ -139,7 +139,7 @@ def decode_meta(obj, nsmap=None):
     meta = Meta(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         text=obj.get('text'),
         children=[decode_metachild(mc, nsmap)
                   for mc in obj.get('children', [])],
@@ -161,7 +161,7 @@ def decode_metachild(obj, nsmap=None):
             namespace = nsmap[namespace]
     mc = MetaChild(
         name,
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         text=obj.get('text'),
         children=[decode_metachild(mc, nsmap)
                   for mc in obj.get('children', [])],
@@ -173,6 +173,18 @@ def decode_metachild(obj, nsmap=None):
     return mc
 
 
+def decode_attributes(obj, nsmap):
+    # prefixed attributes are stored with the expanded namespace
+    attrs = {}
+    for k, v in obj.get('attributes', {}).items():
+        if ':' in k and not k.startswith('{'):
+            prefix, key = k.split(':', 1)
+            if prefix in nsmap:
+                k = '{%s}%s' % (nsmap[prefix], key)
+        attrs[k] = v
+    return attrs
+
+
 def active_namespaces(obj, nsmap):
     nsmap = {} if nsmap is None else dict(nsmap)
     nsmap.update(obj.get('namespaces', {}))
-- 
2.43.0


From 0034d1fe9a9272fbeebf39c7cc22cc3c628db533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:59 +0000
Subject: [PATCH 021/103] fix: XigtJSON objects declaring a prefix lost the
 inherited prefixes

---
 xigt/codecs/xigtjson.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 15c2ed2..d163ba9 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -69,7 +69,7 @@ def decode(obj, mode='full', nsmap=None):
               for igt in obj.get('igts', [])],
         mode=mode,
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
 
 def decode_igt(obj, nsmap=None):
@@ -83,7 +83,7 @@ def decode_igt(obj, nsmap=None):
         tiers=[decode_tier(tier, nsmap)
                for tier in obj.get('tiers', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return igt
 
@@ -99,7 +99,7 @@ def decode_tier(obj, nsmap=None):
         items=[decode_item(item, nsmap)
                for item in obj.get('items', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return tier
 
@@ -112,7 +112,7 @@ def decode_item(obj, nsmap=None):
         attributes=decode_attributes(obj, nsmap),
         text=obj.get('text'),
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return item
 
@@ -126,7 +126,7 @@ def decode_metadata(obj, nsmap=None):
         metas=[decode_meta(meta, nsmap)
                for meta in obj.get('metas', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return metadata
 
@@ -144,7 +144,7 @@ def decode_meta(obj, nsmap=None):
         children=[decode_metachild(mc, nsmap)
                   for mc in obj.get('children', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return meta
 
@@ -166,7 +166,7 @@ def decode_metachild(obj, nsmap=None):
         children=[decode_metachild(mc, nsmap)
                   for mc in obj.get('children', [])],
         namespace=namespace,
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     mc.id = obj.get('id')
     mc.type = obj.get('type')
-- 
2.43.0


From b7bc2c6fed6923522bee5fdaa4efb7e37a5e24dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:00 +0000
Subject: [PATCH 022/103] fix: XigtJSON encoding kept the active prefixes in a
 module-level variable

---
 xigt/codecs/xigtjson.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index d163ba9..8e11ed9 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -193,14 +193,15 @@ def active_namespaces(obj, nsmap):
 
 # Encoding #############################################################
 
-inv_nsmap = {}
+def _inverse(nsmap):
+    return dict((uri, pre) for pre, uri in nsmap.items())
+
 
 def _make_obj(x, nscontext=None):
     if nscontext is None: nscontext = {}
     active_nsmap = dict(nscontext)
     active_nsmap.update(x.nsmap)
-    inv_nsmap.clear()
-    inv_nsmap.update((uri, pre) for pre, uri in active_nsmap.items())
+    inv_nsmap = _inverse(active_nsmap)
     nsmap = dict(set(active_nsmap.items()).difference(nscontext.items()))
     obj = {}
     if x.id: obj['id'] = x.id
@@ -242,6 +243,7 @@ def encode_meta(m, nscontext=None):
 
 def encode_metachild(mc, nscontext=None):
     obj, ns = _make_obj(mc, nscontext)
+    inv_nsmap = _inverse(ns)
     if obj.get('namespace') in inv_nsmap:
         obj['name'] = '{}:{}'.format(inv_nsmap[obj['namespace']], mc.name)
         del obj['namespace']
-- 
2.43.0


From fd0897587756fedb75dd7bd8e071db7e7943ee79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:42 +0000
Subject: [PATCH 023/103] fix: elements named igt or xigt-corpus within
 metadata confused the XML loader

---
 xigt/codecs/xigtxml.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 58356e9..3b64d96 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -201,9 +201,13 @@ def ns_iterparse(fh, events=('start', 'end')):
 def iter_elements(tag, events, root, break_on=None):
     if break_on is None:
         break_on = []
+    # only consider the children of root, as, e.g., metadata may contain
+    # elements of any name (the start of the first one is already consumed)
+    depth = 1
     event, elem = next(events)
-    while (event, elem.tag) not in break_on:
-        if event == 'end' and elem.tag == tag:
+    while depth > 0 or (event, elem.tag) not in break_on:
+        depth += 1 if event == 'start' else -1
+        if event == 'end' and depth == 0 and elem.tag == tag:
             yield elem
             root.clear()  # free memory after we're done with an element
         event, elem = next(events)
@@ -213,7 +217,11 @@ def default_decode(events, mode='full'):
     """Decode a XigtCorpus element."""
     event, elem = next(events)
     root = elem  # store root for later instantiation
-    while (event, elem.tag) not in [('start', 'igt'), ('end', 'xigt-corpus')]:
+    depth = 0  # metadata may contain elements of any name
+    event, elem = next(events)
+    while depth > 0 or (event, elem.tag) not in [('start', 'igt'),
+                                                 ('end', 'xigt-corpus')]:
+        depth += 1 if event == 'start' else -1
         event, elem = next(events)
     igts = None
     if event == 'start' and elem.tag == 'igt':
-- 
2.43.0


From d1e42fdcc30c802f211deb3be499c5291b795a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:09 +0000
Subject: [PATCH 024/103] fix: namespaced igts, tiers, items and metadata were
 dropped on loading XML

---
 xigt/codecs/xigtxml.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 3b64d96..507a63c 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -155,6 +155,15 @@ def _qname_split(qname):
         return (None, qname)
 
 
+def _local_name(elem):
+    return _qname_split(elem.tag)[1]
+
+
+def _findall(elem, tag):
+    # the children with the given local name, in any namespace
+    return [e for e in elem if _local_name(e) == tag]
+
+
 class NSAttribDict(dict):
     def __init__(self, data, namespaces=None):
         dict.__init__(self, data)
@@ -205,9 +214,9 @@ def iter_elements(tag, events, root, break_on=None):
     # elements of any name (the start of the first one is already consumed)
     depth = 1
     event, elem = next(events)
-    while depth > 0 or (event, elem.tag) not in break_on:
+    while depth > 0 or (event, _local_name(elem)) not in break_on:
         depth += 1 if event == 'start' else -1
-        if event == 'end' and depth == 0 and elem.tag == tag:
+        if event == 'end' and depth == 0 and _local_name(elem) == tag:
             yield elem
             root.clear()  # free memory after we're done with an element
         event, elem = next(events)
@@ -219,12 +228,12 @@ def default_decode(events, mode='full'):
     root = elem  # store root for later instantiation
     depth = 0  # metadata may contain elements of any name
     event, elem = next(events)
-    while depth > 0 or (event, elem.tag) not in [('start', 'igt'),
-                                                 ('end', 'xigt-corpus')]:
+    while depth > 0 or (event, _local_name(elem)) not in [
+            ('start', 'igt'), ('end', 'xigt-corpus')]:
         depth += 1 if event == 'start' else -1
         event, elem = next(events)
     igts = None
-    if event == 'start' and elem.tag == 'igt':
+    if event == 'start' and _local_name(elem) == 'igt':
         igts = (
             decode_igt(e)
             for e in iter_elements(
@@ -251,9 +260,9 @@ def default_decode_xigtcorpus(elem, igts=None, mode='full'):
         id=elem.get('id'),
         type=elem.get('type'),
         attributes=get_attributes(elem, ignore=('id', 'type')),
-        metadata=[decode_metadata(md) for md in elem.findall('metadata')],
+        metadata=[decode_metadata(md) for md in _findall(elem, 'metadata')],
         # NOTE: possible bug here; does nsiterparse run with elem.findall?
-        igts=igts or [decode_igt(igt) for igt in elem.findall('igt')],
+        igts=igts or [decode_igt(igt) for igt in _findall(elem, 'igt')],
         mode=mode,
         namespace=ns,
         nsmap=elem.attrib.nsmap
@@ -267,8 +276,8 @@ def default_decode_igt(elem):
         id=elem.get('id'),
         type=elem.get('type'),
         attributes=get_attributes(elem, ignore=('id', 'type')),
-        metadata=[decode_metadata(md) for md in elem.findall('metadata')],
-        tiers=[decode_tier(tier) for tier in elem.findall('tier')],
+        metadata=[decode_metadata(md) for md in _findall(elem, 'metadata')],
+        tiers=[decode_tier(tier) for tier in _findall(elem, 'tier')],
         namespace=ns,
         nsmap=elem.attrib.nsmap
     )
@@ -283,8 +292,8 @@ def default_decode_tier(elem):
         id=elem.get('id'),
         type=elem.get('type'),
         attributes=get_attributes(elem, ignore=('id','type')),
-        metadata=[decode_metadata(md) for md in elem.findall('metadata')],
-        items=[decode_item(item) for item in elem.findall('item')],
+        metadata=[decode_metadata(md) for md in _findall(elem, 'metadata')],
+        items=[decode_item(item) for item in _findall(elem, 'item')],
         namespace=ns,
         nsmap=elem.attrib.nsmap
     )
@@ -316,7 +325,7 @@ def default_decode_metadata(elem):
         id=elem.get('id'),
         type=elem.get('type'),
         attributes=get_attributes(elem, ignore=('id', 'type')),
-        metas=[decode_meta(meta) for meta in elem.findall('meta')],
+        metas=[decode_meta(meta) for meta in _findall(elem, 'meta')],
         namespace=ns,
         nsmap=elem.attrib.nsmap
     )
-- 
2.43.0


From e62ae8dce5303bbd1d439a800c2f6d400650cdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:30 +0000
Subject: [PATCH 025/103] fix: default namespaces were written as invalid XML

---
 xigt/codecs/xigtxml.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 507a63c..8d1ad2c 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -376,15 +376,17 @@ def default_decode_metachild(elem):
 # thanks: http://effbot.org/zone/element-namespaces.htm
 def _build_elem(tag, obj, nscontext):
     ns = getattr(obj, 'namespace', None)
-    revmap = dict((v, k) for k, v in getattr(obj, 'nsmap', {}).items())
-    if revmap.get(ns) is not None:
+    # sorted so that real prefixes take precedence over the default namespace
+    revmap = dict((v, k) for k, v in sorted(getattr(obj, 'nsmap', {}).items()))
+    if revmap.get(ns):  # no prefix is used for a default namespace
         tag = '{}:{}'.format(revmap[ns], tag)
     e = Element(tag)
     # element attributes (including namespaces)
     if hasattr(obj, 'nsmap'):
         for pre, uri in obj.nsmap.items():
             if nscontext.get(pre) != uri:
-                e.set(_QName('xmlns:%s' % pre, sortkey=xigt_attrsort), uri)
+                name = 'xmlns:%s' % pre if pre else 'xmlns'
+                e.set(_QName(name, sortkey=xigt_attrsort), uri)
     if getattr(obj, 'id') is not None:
         e.set(_QName('id', sortkey=xigt_attrsort), obj.id)
     if getattr(obj, 'type') is not None:
-- 
2.43.0


From ba87bf2121adb1638fa0f58d3567aed121368806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:31 +0000
Subject: [PATCH 026/103] fix: attributes in well-known namespaces were written
 with an undeclared prefix

---
 xigt/codecs/xigtxml.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 8d1ad2c..e245537 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -397,10 +397,12 @@ def _build_elem(tag, obj, nscontext):
             if uri:
                 # get the prefix from the nsmap,
                 # backing off to the default set
-                try:
-                    pre = revmap[uri]
-                except KeyError:
+                pre = revmap.get(uri)
+                if not pre:
                     pre = _namespace_map[uri]
+                    if pre != 'xml':  # all others must be declared
+                        e.set(_QName('xmlns:%s' % pre, sortkey=xigt_attrsort),
+                              uri)
                 attr = '{}:{}'.format(pre, attr)
             e.set(_QName(attr, sortkey=xigt_attrsort), val)
     return e
-- 
2.43.0


From 4c18f0f90834f7c17480e66400bee3318de7cc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:41 +0000
Subject: [PATCH 027/103] fix: loads() could not read what dumps() writes in
 encodings other than UTF-8

---
 xigt/codecs/xigtxml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index e245537..629d3ed 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -1,5 +1,5 @@
 
-from io import StringIO
+from io import BytesIO, StringIO
 from xml.etree.ElementTree import (
     tostring,
     iterparse,
@@ -56,7 +56,8 @@ def load(fh, mode='full'):
 
 
 def loads(s):
-    if hasattr(s, 'decode'): s = s.decode('utf-8')
+    if hasattr(s, 'decode'):  # bytes; the parser determines the encoding
+        return load(BytesIO(s))
     return load(StringIO(s))
 
 
-- 
2.43.0


From c59624c3ee11cfbf84c5ef9608deeba2eeda9db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:00 +0000
Subject: [PATCH 028/103] fix: a dump that failed half-way destroyed the
 existing file

---
 xigt/codecs/xigtjson.py |  7 ++++---
 xigt/codecs/xigtxml.py  | 11 +++++++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 8e11ed9..fc5316c 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -26,12 +26,13 @@ def dump(f, xc, encoding='utf-8', indent=2):
         raise XigtError(
             'Second argument of dump() must be an instance of XigtCorpus.'
         )
-    data = encode(xc)
+    # serialize first so an existing file is only touched if that succeeds
+    data = json.dumps(encode(xc), indent=indent)
     if hasattr(f, 'write'):
-        json.dump(data, f, indent=indent)
+        f.write(data)
     else:
         with open(f, 'w') as fh:
-            json.dump(data, fh, indent=indent)
+            fh.write(data)
 
 def dumps(xc, encoding='unicode', indent=2):
     if not isinstance(xc, XigtCorpus):
diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 629d3ed..6cbfdf7 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -4,7 +4,6 @@ from xml.etree.ElementTree import (
     tostring,
     iterparse,
     Element,
-    ElementTree,
     QName
 )
 # this is not part of the public API, so be careful about importing it
@@ -70,7 +69,15 @@ def dump(f, xc, encoding='utf-8', indent=2):
         f = f.buffer
     root = _build_corpus(xc)
     _indent(root, indent=indent)
-    ElementTree(root).write(f, encoding=encoding)
+    # serialize first so an existing file is only touched if that succeeds
+    data = _tostring(root, encoding=encoding)
+    if hasattr(f, 'write'):
+        f.write(data)
+    else:
+        if encoding == 'unicode':
+            data = data.encode('utf-8')
+        with open(f, 'wb') as fh:
+            fh.write(data)
 
 
 def dumps(xc, encoding='unicode', indent=2):
-- 
2.43.0


From 4b62eba372e51ffacc7c903e45bfc47f340d1bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:24 +0000
Subject: [PATCH 029/103] fix: iterating an incremental corpus again skipped
 the igts already loaded

---
 xigt/model.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/xigt/model.py b/xigt/model.py
index dbc3dfa..8a402ad 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -78,7 +78,7 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         if mode == FULL:
             self.extend(igts or [])
         else:
-            self._generator = igts
+            self._generator = iter(igts or [])
 
     def __repr__(self):
         return '<XigtCorpus object (id: {}) with {} Igts at {}>'.format(
@@ -96,13 +96,22 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         if self.mode == FULL:
             for igt in XigtContainerMixin.__iter__(self):
                 yield igt
+        elif self.mode == INCREMENTAL:
+            # first what is loaded already (maybe by another iterator)
+            i = 0
+            while True:
+                while i < len(self):
+                    yield self[i]
+                    i += 1
+                try:
+                    self.append(next(self._generator))
+                except StopIteration:
+                    break
+            self.mode = FULL
         else:
             for igt in self._generator:
-                if self.mode == INCREMENTAL:
-                    self.add(igt)
-                else:
-                    # don't add, but set the parent
-                    igt._parent = self
+                # don't add, but set the parent
+                igt._parent = self
                 yield igt
             self.mode = FULL
 
-- 
2.43.0


From bef25492920ab229c9149352a3257bb5be91d75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:56 +0000
Subject: [PATCH 030/103] fix: XigtPath existence predicates crashed and
 missing values were results

---
 xigt/xigtpath.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 020c73b..74d6b8e 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -158,7 +158,8 @@ def _function(obj, func, args):
             refattrs = [ra.strip('"') for ra in args if ra != ',']
         results = find_refs(obj, refattrs)
     for result in results:
-        yield result
+        if result is not None:  # e.g., no text, or a dangling reference
+            yield result
 
 def _find_child(obj, name):
     results = []
@@ -211,7 +212,8 @@ def _find_attr(obj, attr):
         else:
             vals.append(obj.get_attribute(attr, namespace=namespace))
     for val in vals:
-        yield val
+        if val is not None:  # i.e., the attribute doesn't exist
+            yield val
 
 def _find_descendant_or_self(obj, name):
     namespace = None
@@ -253,7 +255,7 @@ def _make_predicate_test(steps):
         subpath.append(steps.popleft())
     subpath = ''.join(subpath)  # ugly hack so findall() works
     if steps[0] == ']':
-        predtest = lambda obj: any(bool(findall(obj, subpath)))
+        predtest = lambda obj: bool(findall(obj, subpath))
     elif steps[0] in ('=', '!='):
         cmp = steps.popleft()
         val = steps.popleft().strip('"')
-- 
2.43.0


From c771b1e9cbc64727380921399d33d9527531b516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:57 +0000
Subject: [PATCH 031/103] fix: XigtPath ignored what follows an initial
 disjunction, and failed on empty contexts

---
 xigt/xigtpath.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 74d6b8e..8cd6c64 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -70,10 +70,7 @@ def iterfind(obj, path):
         yield result
 
 def _expr(objs, steps):
-    if steps[0] == '(':
-        steps.popleft()
-        results = _disjunction(objs, steps)
-    elif steps[0] in ('/', '//'):
+    if steps[0] in ('/', '//'):
         if steps[0] == '/':
             steps.popleft()
         results = _step([_get_corpus(objs[0])], steps)
@@ -84,6 +81,13 @@ def _expr(objs, steps):
 
 def _disjunction(objs, steps):
     results = []
+    objs = list(objs)
+    if not objs:
+        # nothing to evaluate, but skip to the end of the disjunction
+        depth = 1
+        while depth:
+            depth += {'(': 1, ')': -1}.get(steps.popleft(), 0)
+        return results
     # NOTE: on the first pass, steps is the original deque, so it is
     #       modified in-place. Afterwards, the copy is reused.
     orig_steps = deque(steps)
-- 
2.43.0


From 41cd439f03214887852f271497cfe26487375679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:59 +0000
Subject: [PATCH 032/103] fix: XigtPath tokenization of names, spaces,
 arguments and escaped quotes

---
 xigt/xigtpath.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 8cd6c64..1cf801c 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -40,13 +40,20 @@ xp_tokenizer_re = re.compile(
     r'\(|\)|'  # groups
     r'\||'  # union
     r'!=|=|'  # comparisons
-    r'(?:text|value|referent|referrer)|'
-    r'\*|[^.\/\[\]!=|()]+'  # .., *, igt, tier, item, etc.
+    r',|'  # argument separator
+    r'(?:text|value|referent|referrer)(?=\s*\()|'  # functions
+    r'\*|'
+    r'[^\s.@",\/\[\]!=|()][^\s@",\/\[\]!=|()]*'  # igt, tier, item, etc.
 )
 
 def tokenize(path):
     return [t.strip() for t in xp_tokenizer_re.findall(path) if t.strip()]
 
+def _unquote(token):
+    if token.startswith('"'):
+        return re.sub(r'\\(.)', r'\1', token[1:-1], flags=re.DOTALL)
+    return token
+
 def find(obj, path):
     return next(iterfind(obj, path), None)
 
@@ -129,7 +136,8 @@ def _step(objs, steps):
             results = objs
         # elif steps and steps[0] == '::':
 
-        elif step in ('text', 'value', 'referent', 'referrer'):
+        elif (step in ('text', 'value', 'referent', 'referrer') and
+              steps and steps[0] == '('):
             steps.popleft()  # (
             args = []
             while steps and steps[0] != ')':
@@ -159,7 +167,7 @@ def _function(obj, func, args):
         find_refs = _find_referent if func == 'referent' else _find_referrer
         refattrs = None
         if args:
-            refattrs = [ra.strip('"') for ra in args if ra != ',']
+            refattrs = [_unquote(ra) for ra in args if ra != ',']
         results = find_refs(obj, refattrs)
     for result in results:
         if result is not None:  # e.g., no text, or a dangling reference
@@ -262,7 +270,7 @@ def _make_predicate_test(steps):
         predtest = lambda obj: bool(findall(obj, subpath))
     elif steps[0] in ('=', '!='):
         cmp = steps.popleft()
-        val = steps.popleft().strip('"')
+        val = _unquote(steps.popleft())
         if cmp == '=':
             predtest = lambda obj: any(v==val for v in findall(obj, subpath))
         elif cmp == '!=':
-- 
2.43.0


From 627611e8407055e1f9b15f760e37008f34260932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:21 +0000
Subject: [PATCH 033/103] fix: XigtPath prefixes in descendant, wildcard,
 metadata and attribute tests

---
 xigt/xigtpath.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 1cf801c..eb93597 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -182,7 +182,8 @@ def _find_child(obj, name):
         kwargs['namespace'] = namespace
     # simple case
     if name == '*' and hasattr(obj, '__iter__'):
-        results = list(getattr(obj, 'metadata', []))
+        if hasattr(obj, 'metadata'):
+            results.extend(obj.metadata.select(**kwargs))
         results.extend(obj.select(**kwargs))
     elif (name == 'igt' and hasattr(obj, 'igts') or
           name == 'tier' and hasattr(obj, 'tiers') or
@@ -191,15 +192,7 @@ def _find_child(obj, name):
         # select should just work on the containers as normal
         results = obj.select(**kwargs)
     elif name == 'metadata' and hasattr(obj, 'metadata'):
-        # for metadata we need to filter by namespace ourselves (but
-        # we don't really expect for <metadata> elements to have a
-        # namespace, so maybe this is unnecessary?)
-        results = iter(obj.metadata)
-        if 'namespace' in kwargs:
-            results = filter(
-                lambda x: getattr(x, 'namespace', None) == namespace,
-                results
-            )
+        results = obj.metadata.select(**kwargs)
     elif isinstance(obj, (Meta, MetaChild)):
         # for MetaChild objects, we need to give the name as well
         kwargs['name'] = name
@@ -219,26 +212,32 @@ def _find_attr(obj, attr):
         if ':' in attr:
             namespace, attr = attr.split(':', 1)
         if attr == '*':
-            vals.extend(obj.get_attribute(attrkey, namespace=namespace)
-                        for attrkey in obj.attributes)
+            prefix = ''
+            if namespace is not None:
+                prefix = '{%s}' % obj.nsmap.get(namespace, namespace)
+            vals.extend(val for key, val in obj.attributes.items()
+                        if key.startswith(prefix))
         else:
             vals.append(obj.get_attribute(attr, namespace=namespace))
     for val in vals:
         if val is not None:  # i.e., the attribute doesn't exist
             yield val
 
-def _find_descendant_or_self(obj, name):
+def _find_descendant_or_self(obj, qname):
+    name = qname
     namespace = None
     if ':' in name:
         namespace, name = name.split(':', 1)
+        namespace = obj.nsmap.get(namespace, namespace)
     if isinstance(obj, MetaChild):
         objname = obj.name
     else:
         objname = obj.__class__.__name__.lower()
-    if (namespace is None or obj.namespace == namespace) and objname == name:
+    if ((namespace is None or obj.namespace == namespace) and
+            name in (objname, '*')):
         yield obj
     for child in _find_child(obj, '*'):
-        for desc in _find_descendant_or_self(child, name):
+        for desc in _find_descendant_or_self(child, qname):
             yield desc
 
 def _find_referent(obj, refattrs):
-- 
2.43.0


From 16896b7f145103ee9c8a7fc65211b1f3834cd48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:22 +0000
Subject: [PATCH 034/103] fix: XigtPath parent step from a corpus raised
 AttributeError

---
 xigt/xigtpath.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index eb93597..dbd7f05 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -131,7 +131,9 @@ def _step(objs, steps):
             attr = steps.popleft()
             results = (res for obj in objs for res in _find_attr(obj, attr))
         elif step == '..':
-            results = (obj._parent for obj in objs)
+            # a corpus has no parent
+            parents = (getattr(obj, '_parent', None) for obj in objs)
+            results = (obj for obj in parents if obj is not None)
         elif step == '.':
             results = objs
         # elif steps and steps[0] == '::':
-- 
2.43.0


From f1fdb1129aa431d5b5e2d98d0eff465059532a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 035/103] fix: results of Igt.referents and Igt.referrers
 exposed their cache

---
 xigt/model.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/xigt/model.py b/xigt/model.py
index 8a402ad..9630aa8 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -223,13 +223,21 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
 
     def referents(self, id, refattrs=None):
         if refattrs is None:
-            return self._referent_cache.get(id, {})
+            # copy, so the cache does not change with the result
+            return {ra: list(ids) for ra, ids
+                    in self._referent_cache.get(id, {}).items()}
         else:
             return ref.referents(self, id, refattrs=refattrs)
 
     def referrers(self, id, refattrs=None):
         if refattrs is None:
-            return self._referrer_cache.get(id, {})
+            if id not in self._referrer_cache:
+                return {}
+            # copy, so the cache does not change with the result
+            return defaultdict(
+                list, {ra: list(ids) for ra, ids
+                       in self._referrer_cache[id].items()}
+            )
         else:
             return ref.referrers(self, id, refattrs=refattrs)
 
-- 
2.43.0


From 618eb25a4655cf792fe10003f11a2ce4d38ef116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 036/103] fix: XigtPath reference functions failed on objects
 without id

---
 xigt/xigtpath.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index dbd7f05..279dfb9 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -245,7 +245,12 @@ def _find_descendant_or_self(obj, qname):
 def _find_referent(obj, refattrs):
     refs = []
     igt = obj.igt if hasattr(obj, 'igt') else obj
-    refd = ref.referents(igt, obj.id, refattrs=refattrs)
+    if obj.id is not None:
+        refd = ref.referents(igt, obj.id, refattrs=refattrs)
+    else:  # it cannot be looked up, but it may still refer to others
+        if refattrs is None:
+            refattrs = obj.allowed_reference_attributes()
+        refd = {ra: ref.ids(obj.attributes.get(ra, '')) for ra in refattrs}
     # sort for now because ref.referents doesn't return document order
     for ra, ids in sorted(refd.items()):
         refs.extend(igt.get_any(_id) for _id in ids)
@@ -254,6 +259,8 @@ def _find_referent(obj, refattrs):
 def _find_referrer(obj, refattrs):
     refs = []
     igt = obj.igt if hasattr(obj, 'igt') else obj
+    if obj.id is None:
+        return refs  # nothing can refer to it
     refd = ref.referrers(igt, obj.id, refattrs=refattrs)
     # sort for now because ref.referents doesn't return document order
     for ra, ids in sorted(refd.items()):
-- 
2.43.0


From 0b930ff324f070c38d75911f791ef5a7d26defb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:26 +0000
Subject: [PATCH 037/103] fix: validator did not find overlapping ranges

---
 xigt/scripts/xigt_validate.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 4d4be94..dbe7aec 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -291,18 +291,18 @@ def algnexpr_spans_do_not_overlap(item, refattr):
     for span in spans(itemref):
         if span in alignment_expression_delimiters:
             continue  # schema validator should catch bad algnexprs like '+w3'
-        if isinstance(span, str):
-            tgt_item = reftier.get(span)
-            if tgt_item is None:
-                continue  # this should be caught by algnexpr_ids_in_referred_tier
+        sel_delim, item_id, _range = selection_re.match(span).groups()
+        tgt_item = reftier.get(item_id)
+        if tgt_item is None:
+            continue  # this should be caught by algnexpr_ids_in_referred_tier
+        if _range:
+            _, start, end = span_re.match(_range).groups()
+            spans_by_id[item_id].update(range(int(start), int(end)))
+        else:
             val = tgt_item.value()
             if val is None:
                 continue  # does this need to be handled?
-            item_len = len(tgt_item.value())
-            spans_by_id[span].update(range(0, item_len))
-        else:
-            item_id, start, end = span
-            spans_by_id[item_id].update(range(start, end))
+            spans_by_id[item_id].update(range(0, len(val)))
     error_spans = [
         item_id for item_id, count in spans_by_id.items()
         if any(count[c] > 1 for c in count)
-- 
2.43.0


From a8ffbeac9016a1e50f046e9eedc045863c4e5b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:27 +0000
Subject: [PATCH 038/103] fix: validator crashed on space-separated references

---
 xigt/scripts/xigt_validate.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index dbe7aec..23c8289 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -13,7 +13,6 @@ from xigt.errors import XigtAttributeError
 
 datalevels = ['corpus', 'igt', 'tier', 'item']
 reference_attributes = ['alignment', 'segmentation', 'content']
-alignment_expression_delimiters = ['+', ',']
 
 
 # VALIDATION FUNCTIONS
@@ -259,9 +258,7 @@ def algnexpr_spans_in_aligned_item(item, refattr):
     if not itemref or not reftier:
         return
     error_spans = []
-    for span in spans(itemref):
-        if span in alignment_expression_delimiters:
-            continue  # schema validator should catch bad algnexprs like '+w3'
+    for span in spans(itemref, keep_delimiters=False):
         sel_delim, item_id, _range = selection_re.match(span).groups()
         if _range:
             _, start, end = span_re.match(_range).groups()
@@ -288,9 +285,7 @@ def algnexpr_spans_do_not_overlap(item, refattr):
     if not itemref or not reftier:
         return
     spans_by_id = defaultdict(Counter)
-    for span in spans(itemref):
-        if span in alignment_expression_delimiters:
-            continue  # schema validator should catch bad algnexprs like '+w3'
+    for span in spans(itemref, keep_delimiters=False):
         sel_delim, item_id, _range = selection_re.match(span).groups()
         tgt_item = reftier.get(item_id)
         if tgt_item is None:
-- 
2.43.0


From 311f23bc1220f92dd5cef23abc36711b070bfee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:28 +0000
Subject: [PATCH 039/103] fix: validator did not check references to empty
 tiers

---
 xigt/scripts/xigt_validate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 23c8289..8e1b8ee 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -238,7 +238,7 @@ def item_refattrs_specified_on_tier(tier):
 def algnexpr_ids_in_referred_tier(item, refattr):
     itemref = item.attributes.get(refattr)
     reftier = get_referred_tier(item, refattr)
-    if not itemref or not reftier:
+    if not itemref or reftier is None:
         return
     missing = []
     for ae_id in ids(itemref):
@@ -255,7 +255,7 @@ def algnexpr_ids_in_referred_tier(item, refattr):
 def algnexpr_spans_in_aligned_item(item, refattr):
     itemref = item.attributes.get(refattr)
     reftier = get_referred_tier(item, refattr)
-    if not itemref or not reftier:
+    if not itemref or reftier is None:
         return
     error_spans = []
     for span in spans(itemref, keep_delimiters=False):
@@ -282,7 +282,7 @@ def algnexpr_spans_in_aligned_item(item, refattr):
 def algnexpr_spans_do_not_overlap(item, refattr):
     itemref = item.attributes.get(refattr)
     reftier = get_referred_tier(item, refattr)
-    if not itemref or not reftier:
+    if not itemref or reftier is None:
         return
     spans_by_id = defaultdict(Counter)
     for span in spans(itemref, keep_delimiters=False):
-- 
2.43.0


From 0c714b18558873c28bf528b1f9180c0fbef14aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:55 +0000
Subject: [PATCH 040/103] fix: validator crashed on items whose value is
 missing or cannot be resolved

---
 xigt/scripts/xigt_validate.py | 38 ++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 8e1b8ee..3d46274 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -9,7 +9,7 @@ warnings.simplefilter('ignore')
 
 from xigt.codecs import xigtxml
 from xigt.ref import (ids, spans, selection_re, span_re)
-from xigt.errors import XigtAttributeError
+from xigt.errors import XigtError
 
 datalevels = ['corpus', 'igt', 'tier', 'item']
 reference_attributes = ['alignment', 'segmentation', 'content']
@@ -190,6 +190,21 @@ def get_referred_tier(item, refattr):
         return None
     return item.igt.get(tierref)
 
+def get_length(item):
+    # None if the value depends on broken references of other items
+    # (these are reported there); no value is resolved to an empty string
+    try:
+        return len(item.value() or '')
+    except (XigtError, KeyError, ValueError, RecursionError):
+        return None
+
+def get_range(_range):
+    _, start, end = span_re.match(_range).groups()
+    try:
+        return int(start), int(end)
+    except ValueError:
+        return None  # e.g., [0.5:1]
+
 
 # TEST FUNCTIONS
 
@@ -260,17 +275,16 @@ def algnexpr_spans_in_aligned_item(item, refattr):
     error_spans = []
     for span in spans(itemref, keep_delimiters=False):
         sel_delim, item_id, _range = selection_re.match(span).groups()
-        if _range:
-            _, start, end = span_re.match(_range).groups()
-            start = int(start)
-            end = int(end)
-        else:
+        if not _range:
             continue
         tgt_item = reftier.get(item_id)
         if tgt_item is None:
             continue  # this should be caught by algnexpr_ids_in_referred_tier
-        item_len = len(tgt_item.value())
-        if start > item_len or end > item_len:
+        item_range = get_range(_range)
+        item_len = get_length(tgt_item)
+        if item_range is None:
+            error_spans.append(span)
+        elif item_len is not None and max(item_range) > item_len:
             error_spans.append(span)
     if error_spans:
         return (
@@ -291,13 +305,9 @@ def algnexpr_spans_do_not_overlap(item, refattr):
         if tgt_item is None:
             continue  # this should be caught by algnexpr_ids_in_referred_tier
         if _range:
-            _, start, end = span_re.match(_range).groups()
-            spans_by_id[item_id].update(range(int(start), int(end)))
+            spans_by_id[item_id].update(range(*(get_range(_range) or (0,))))
         else:
-            val = tgt_item.value()
-            if val is None:
-                continue  # does this need to be handled?
-            spans_by_id[item_id].update(range(0, len(val)))
+            spans_by_id[item_id].update(range(0, get_length(tgt_item) or 0))
     error_spans = [
         item_id for item_id, count in spans_by_id.items()
         if any(count[c] > 1 for c in count)
-- 
2.43.0


From c84f0d607212aa19b449fd83f44c4fbb1aa9566c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:29 +0000
Subject: [PATCH 041/103] fix: validator crashed on, or passed, files that fail
 to load

---
 xigt/scripts/xigt_validate.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 3d46274..932127c 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -396,19 +396,21 @@ def run(args):
     from xml.etree import ElementTree as ET
     ids = Counter()
     for i, f in enumerate(args.files):
-        with open(f, 'r') as fh:
+        with open(f, 'rb') as fh:
             try:
                 xc = xigtxml.load(fh, mode='transient')
-            except ET.ParseError:
+                context = make_context(
+                    xc, i, '<xigt-corpus>', 'collection', ids=ids
+                )
+                report = validate_corpus(xc, context)  # reads the igts
+            except (ET.ParseError, XigtError, ValueError) as ex:
                 print('Corpus {} ({}) failed to load. First verify '
                       'that the XML file is valid by doing a schema '
                       'validation.'
                       .format(i, f))
+                print('  {}'.format(ex))
+                passed.append(False)
             else:
-                context = make_context(
-                    xc, i, '<xigt-corpus>', 'collection', ids=ids
-                )
-                report = validate_corpus(xc, context)
                 report = filter_empty_reports(
                     report, minlevel=logging.getLogger().getEffectiveLevel()
                 )
-- 
2.43.0


From 0e702386a5e7c8b640cda448640a13f703e2a37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:30 +0000
Subject: [PATCH 042/103] fix: loading XML with another root element raised
 StopIteration

---
 xigt/codecs/xigtxml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 6cbfdf7..41dcb8e 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -234,6 +234,11 @@ def default_decode(events, mode='full'):
     """Decode a XigtCorpus element."""
     event, elem = next(events)
     root = elem  # store root for later instantiation
+    if _local_name(root) != 'xigt-corpus':
+        raise XigtError(
+            'Not a Xigt corpus; the root element is "{}".'
+            .format(_local_name(root))
+        )
     depth = 0  # metadata may contain elements of any name
     event, elem = next(events)
     while depth > 0 or (event, _local_name(elem)) not in [
-- 
2.43.0


From e31d8bf3bc1a988e47635ab6dd0697d9926382f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:04 +0000
Subject: [PATCH 043/103] fix: partitions of keys with the same normal form
 overwrote each other

---
 xigt/scripts/xigt_partition.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/xigt/scripts/xigt_partition.py b/xigt/scripts/xigt_partition.py
index 9b4511f..8b06d27 100644
--- a/xigt/scripts/xigt_partition.py
+++ b/xigt/scripts/xigt_partition.py
@@ -17,13 +17,11 @@ def run(args):
     keypath = args.key_path
     for fn in args.infiles:
         logging.info('Indexing {}'.format(fn))
-        index(fn, keypath, idx)
+        index(fn, keypath, args.default_key, idx)
     for key, fn_idx in idx.items():
         logging.info('Writing {} (grouped from {} files)'
                      .format(key, len(fn_idx)))
-        if key is None:
-            key = args.default_key
-        out_fn = os.path.join(args.outdir, normalize_key(key) + '.xml')
+        out_fn = os.path.join(args.outdir, key + '.xml')
         write(out_fn, fn_idx)
 
 def create_outdir(outdir):
@@ -36,11 +34,14 @@ def create_outdir(outdir):
         logging.error('Output directory could not be created.')
         sys.exit(1)
 
-def index(fn, by, idx):
+def index(fn, by, default_key, idx):
     xc = xigtxml.load(fn, mode='transient')
     for i, igt in enumerate(xc):
-        idx_key = xp.find(igt, by)
-        idx[idx_key][fn].add(i)
+        key = xp.find(igt, by)
+        if key is None:
+            key = default_key
+        # keys with the same normal form share an output file
+        idx[normalize_key(key)][fn].add(i)
 
 def normalize_key(key):
     return key.replace(':', '-')
-- 
2.43.0


From 85ef5f21f75cd62c81a728804902cb4466e18a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:06 +0000
Subject: [PATCH 044/103] fix: partition keys with slashes were written outside
 of outdir, or not at all

---
 xigt/scripts/xigt_partition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/scripts/xigt_partition.py b/xigt/scripts/xigt_partition.py
index 8b06d27..f73c6ca 100644
--- a/xigt/scripts/xigt_partition.py
+++ b/xigt/scripts/xigt_partition.py
@@ -44,7 +44,8 @@ def index(fn, by, default_key, idx):
         idx[normalize_key(key)][fn].add(i)
 
 def normalize_key(key):
-    return key.replace(':', '-')
+    # the key is used as a filename, so it may not contain directories
+    return key.replace(':', '-').replace('/', '-')
 
 def write(out_fn, fn_idx):
     xc = XigtCorpus()
-- 
2.43.0


From 625163afb8b26eb8343066d3d998e82df32e4579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:07 +0000
Subject: [PATCH 045/103] fix: partitioning put igts of one file into the
 default namespace of another

---
 xigt/scripts/xigt_partition.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xigt/scripts/xigt_partition.py b/xigt/scripts/xigt_partition.py
index f73c6ca..771bad0 100644
--- a/xigt/scripts/xigt_partition.py
+++ b/xigt/scripts/xigt_partition.py
@@ -54,8 +54,9 @@ def write(out_fn, fn_idx):
         in_xc = xigtxml.load(fn, mode='transient')
         # ignoring corpus-level metadata
         xc.extend(igt for i, igt in enumerate(in_xc) if i in igt_indices)
-    # assume the nsmap of the first igt is the same for all
-    if xc.igts: xc.nsmap = xc[0].nsmap
+    # igts from other files may have other namespaces
+    if xc.igts and all(igt.nsmap == xc[0].nsmap for igt in xc):
+        xc.nsmap = xc[0].nsmap
     xigtxml.dump(out_fn, xc)
 
 def main(arglist=None):
-- 
2.43.0


From 6e0737ac2c8b8e81bfb135bfdd4d46a2a9c9c763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:13 +0000
Subject: [PATCH 046/103] fix: sorting by several keys compared parts of
 different keys

---
 xigt/scripts/xigt_sort.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xigt/scripts/xigt_sort.py b/xigt/scripts/xigt_sort.py
index 21e20bb..be640cf 100644
--- a/xigt/scripts/xigt_sort.py
+++ b/xigt/scripts/xigt_sort.py
@@ -39,9 +39,10 @@ def make_sortkey(sortkeys):
             return int(x)
         except ValueError:
             return x
-    key = lambda x: [k for sk in sortkeys
-                     for k in map(safe_int,
-                                  re.split(r'(\d+)', xp.find(x, sk) or ''))]
+    # one list per sort key, so parts of different keys are not compared
+    key = lambda x: [list(map(safe_int,
+                              re.split(r'(\d+)', xp.find(x, sk) or '')))
+                     for sk in sortkeys]
     return key
 
 def main(arglist=None):
-- 
2.43.0


From 1a6a3b391f84c9ccbeb8283dd97391d48066d23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:14 +0000
Subject: [PATCH 047/103] fix: sort keys leading to other members of the
 container were not found

---
 xigt/scripts/xigt_sort.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xigt/scripts/xigt_sort.py b/xigt/scripts/xigt_sort.py
index be640cf..4411743 100644
--- a/xigt/scripts/xigt_sort.py
+++ b/xigt/scripts/xigt_sort.py
@@ -12,11 +12,11 @@ def run(args):
     xc = xigtxml.load(args.infile)
     if args.igt_key:
         logging.info('Sorting %s IGTs' % args.infile)
-        xc.sort(key=make_sortkey(args.igt_key))
+        sort(xc, args.igt_key)
     if args.tier_key:
         logging.info('Sorting %s tiers by key' % args.infile)
         for igt in xc:
-            igt.sort(key=make_sortkey(args.tier_key))
+            sort(igt, args.tier_key)
     elif args.tier_deps:
         logging.info('Sorting %s tiers by ref-dependencies' % args.infile)
         refattrs = [ra.strip() for ra in args.tier_deps.split(',')]
@@ -26,12 +26,19 @@ def run(args):
         logging.info('Sorting %s items by key' % args.infile)
         for igt in xc:
             for tier in igt:
-                tier.sort(key=make_sortkey(args.item_key))
+                sort(tier, args.item_key)
     if args.in_place:
         xigtxml.dump(args.infile, xc)
     else:
         print(xigtxml.dumps(xc))
 
+def sort(container, sortkeys):
+    # get the keys first, as a list appears to be empty while it is sorted
+    # (but the path may lead to other members)
+    sortkey = make_sortkey(sortkeys)
+    keys = {id(x): sortkey(x) for x in container}
+    container.sort(key=lambda x: keys[id(x)])
+
 def make_sortkey(sortkeys):
     # return int values if possible (for int comparison), otherwise strings
     def safe_int(x):
-- 
2.43.0


From 4e05dc58a68506f229602b14aa3917a837baea0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:46 +0000
Subject: [PATCH 048/103] fix: query --tally and --unique failed if the results
 are not strings

---
 xigt/scripts/xigt_query.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/xigt/scripts/xigt_query.py b/xigt/scripts/xigt_query.py
index 8235ebb..0b02cdc 100755
--- a/xigt/scripts/xigt_query.py
+++ b/xigt/scripts/xigt_query.py
@@ -110,6 +110,11 @@ def process_agenda(xc, agenda):
     return results
 
 
+# matches may be strings or (unhashable) Xigt objects
+def identify(match):
+    return match if isinstance(match, str) else id(match)
+
+
 def find_pattern(xc, agendum):
     for match in xp.findall(xc, agendum['query']):
         print(' ', agendum['description'].format(match=match))
@@ -117,17 +122,20 @@ def find_pattern(xc, agendum):
 
 def tally_pattern(xc, agendum):
     counts = Counter()
+    groups = {}
     for match in xp.findall(xc, agendum['query']):
         group = CSTuple(xp.findall(match, agendum['subquery']))
-        counts[group] += 1
+        key = tuple(map(identify, group))
+        groups.setdefault(key, group)
+        counts[key] += 1
     return [
-        (count, agendum['description'].format(match=match))
-        for match, count in counts.most_common()
+        (count, agendum['description'].format(match=groups[key]))
+        for key, count in counts.most_common()
     ]
 
 
 def unique_pattern(xc, agendum):
-    counts = Counter(xp.findall(xc, agendum['query']))
+    counts = Counter(map(identify, xp.findall(xc, agendum['query'])))
     return (len(counts), agendum['description'].format(match=''))
 
 
-- 
2.43.0


From f3aac085644a5ff594193bd49ba81c9e5720295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 049/103] fix: query failed if a query or a description
 contains braces

---
 xigt/scripts/xigt_query.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/xigt/scripts/xigt_query.py b/xigt/scripts/xigt_query.py
index 0b02cdc..d6a659c 100755
--- a/xigt/scripts/xigt_query.py
+++ b/xigt/scripts/xigt_query.py
@@ -72,10 +72,7 @@ def make_job(args):
     agenda = job['agenda']
     for action, vals in args.agenda:
         if action == 'description' and agenda:
-            agendum = agenda[-1]
-            agendum['description'] = safe_format(
-                vals, query=agendum['query'], subquery=agendum.get('subquery')
-            )
+            agenda[-1]['description'] = vals
         else:
             if action in ('find', 'unique', 'count'):
                 query, subquery = vals[0], ''
@@ -87,9 +84,7 @@ def make_job(args):
                 'action': action,
                 'query': query,
                 'subquery': subquery,
-                'description': safe_format(
-                    description, query=query, subquery=subquery
-                )
+                'description': description
             })
     return job
 
@@ -110,6 +105,16 @@ def process_agenda(xc, agenda):
     return results
 
 
+# format once, so braces in the queries are not taken for fields
+def describe(agendum, match):
+    return safe_format(
+        agendum['description'],
+        query=agendum['query'],
+        subquery=agendum['subquery'],
+        match=match
+    )
+
+
 # matches may be strings or (unhashable) Xigt objects
 def identify(match):
     return match if isinstance(match, str) else id(match)
@@ -117,7 +122,7 @@ def identify(match):
 
 def find_pattern(xc, agendum):
     for match in xp.findall(xc, agendum['query']):
-        print(' ', agendum['description'].format(match=match))
+        print(' ', describe(agendum, match))
 
 
 def tally_pattern(xc, agendum):
@@ -129,19 +134,19 @@ def tally_pattern(xc, agendum):
         groups.setdefault(key, group)
         counts[key] += 1
     return [
-        (count, agendum['description'].format(match=groups[key]))
+        (count, describe(agendum, groups[key]))
         for key, count in counts.most_common()
     ]
 
 
 def unique_pattern(xc, agendum):
     counts = Counter(map(identify, xp.findall(xc, agendum['query'])))
-    return (len(counts), agendum['description'].format(match=''))
+    return (len(counts), describe(agendum, ''))
 
 
 def count_pattern(xc, agendum):
     count = len(xp.findall(xc, agendum['query']))
-    return (count, agendum['description'].format(match=''))
+    return (count, describe(agendum, ''))
 
 
 def print_results(results):
-- 
2.43.0


From da3942b27736d44810932f784e9ce10f3e28a418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:49 +0000
Subject: [PATCH 050/103] fix: query without any action raised AttributeError

---
 xigt/scripts/xigt_query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/scripts/xigt_query.py b/xigt/scripts/xigt_query.py
index d6a659c..e456181 100755
--- a/xigt/scripts/xigt_query.py
+++ b/xigt/scripts/xigt_query.py
@@ -206,7 +206,7 @@ def main(arglist=None):
         help='use the basename of {filename} in --file-description'
     )
     args = parser.parse_args(arglist)
-    agenda = getattr(args, 'agenda', [])
+    agenda = args.agenda = getattr(args, 'agenda', [])
     if agenda and agenda[0][0] == 'description':
         parser.error('--description must follow an action (e.g., --tally)')
     logging.basicConfig(level=50-(args.verbosity*10))
-- 
2.43.0


From f8728838499b3c9e6aa7f3116b847c47458903ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:29 +0000
Subject: [PATCH 051/103] fix: LaTeX export garbled backslashes, tildes and
 carets

---
 xigt/exporters/latex.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 3190491..7865d05 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -12,9 +12,8 @@ from xigt import ref
 from xigt.exporters.util import sub
 
 DEFAULT_TIER_TYPES = ('words', 'morphemes', 'glosses')
-# order matters here
 LATEX_CHARMAP = [
-    ('\\', '\\textbackslash'),
+    ('\\', '\\textbackslash{}'),
     ('&', '\\&'),
     ('%', '\\%'),
     ('$', '\\$'),
@@ -22,8 +21,8 @@ LATEX_CHARMAP = [
     ('_', '\\_'),
     ('{', '\\{'),
     ('}', '\\}'),
-    ('~', '\\textasciitilde'),
-    ('^', '\\textasciicircum'),
+    ('~', '\\textasciitilde{}'),
+    ('^', '\\textasciicircum{}'),
 ]
 
 header = '''
@@ -54,14 +53,9 @@ def prepare_config(config):
     return config
 
 def escape(s):
-    # consider a re sub with a function. e.g.
-    # _character_unescapes = {'\\s': _field_delimiter, '\\n': '\n', '\\\\': '\\'}
-    # _unescape_func = lambda m: _character_unescapes[m.group(0)]
-    # _unescape_re = re.compile(r'(\\s|\\n|\\\\)')
-    # _unescape_re.sub(_unescape_func, string, re.UNICODE)
-    for c, r in LATEX_CHARMAP:
-        s = s.replace(c, r)
-    return s
+    # replace in one pass so the replacements are not escaped again
+    charmap = dict(LATEX_CHARMAP)
+    return ''.join(charmap.get(c, c) for c in s)
 
 def export_corpus(xc, config):
     for igt in xc:
-- 
2.43.0


From ac74de6b8d28404830eb3f234c2f2d6d9cb6bfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:30 +0000
Subject: [PATCH 052/103] fix: LaTeX export printed braces for empty items

---
 xigt/exporters/latex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 7865d05..abc27f7 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -89,7 +89,7 @@ def export_igt(igt, config):
             items = col[i]
             toks.append('{{{}}}'.format(
                 ' '.join(
-                    sub(escape(item.get_content() or '{}'),
+                    sub(escape(item.get_content() or '') or '{}',
                         tier_type,
                         item_subs)
                     for item in items
@@ -100,7 +100,7 @@ def export_igt(igt, config):
     for tier in igt.tiers:
         if tier.type == 'translations' and len(tier) > 0:
             lines.append('\\trans {}'.format(
-                sub(escape(tier[0].get_content() or '{}'),
+                sub(escape(tier[0].get_content() or '') or '{}',
                     tier.type,
                     tier_subs)
             ))
-- 
2.43.0


From 2b9682c9aa39e1fa79906140d9492f29a881347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:56 +0000
Subject: [PATCH 053/103] fix: LaTeX export crashed on items that are not
 aligned

---
 xigt/exporters/latex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index abc27f7..0280ea2 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -180,7 +180,7 @@ def align_tier(trellis, tier):
     return trellis
 
 def get_agenda(tier):
-    agenda = [(ref.ids(item.alignment or item.segmentation), item)
+    agenda = [(ref.ids(item.alignment or item.segmentation or ''), item)
               for item in tier.items]
     # then group those with the same alignment (still a list [(ids, item)])
     agenda = deque(tuple([k, [g[1] for g in gs]])
-- 
2.43.0


From 89cb6ce6686bedd29ad61382632e550b8daef28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:58 +0000
Subject: [PATCH 054/103] fix: LaTeX export crashed on tiers and items without
 ids

---
 xigt/exporters/latex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 0280ea2..ac0da7d 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -74,7 +74,7 @@ def export_igt(igt, config):
             tiers.append(tier)
     if len(tiers) < 2:
         return '%\n% cannot export IGT {}\n%'.format(igt.id)
-    logging.debug('Aligning tiers: {}'.format(', '.join(t.id for t in tiers)))
+    logging.debug('Aligning tiers: {}'.format(', '.join(str(t.id) for t in tiers)))
     lines = []
     all_groups = group_alignments(tiers)
     for col in all_groups:
@@ -219,7 +219,7 @@ def merge_columns(trellis, start, end):
 def debug_display_trellis(trellis):
     strs = []
     for col in trellis:
-        toks = [' '.join(i.id for i in row) if row else '[]' for row in col]
+        toks = [' '.join(str(i.id) for i in row) if row else '[]' for row in col]
         maxlen = max(len(t) for t in toks)
         toks = [t.ljust(maxlen) for t in toks]
         strs.append(toks)
-- 
2.43.0


From 014b408c0ef28d5f4b4dbf69c63011a33b68f42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:59 +0000
Subject: [PATCH 055/103] fix: LaTeX export crashed if the first tier is empty

---
 xigt/exporters/latex.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index ac0da7d..27d2625 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -81,8 +81,7 @@ def export_igt(igt, config):
         logging.debug('Col {}'.format([[i.id for i in r] for r in col]))
     lines.append('\\begin{exe}\\small')
     lines.append('\\ex\\g{}'.format('l' * len(tiers)))
-    depth = len(all_groups[0])
-    for i in range(depth):
+    for i in range(len(tiers)):
         toks = []
         tier_type = tiers[i].type
         for col in all_groups:
@@ -117,13 +116,12 @@ def group_alignments(tiers):
     #    or as a list
     # [columns [rows [tokens]]]
     trellis = [[[item]] for item in tiers[0].items]
-    for tier in tiers[1:]:
-        trellis = align_tier(trellis, tier)
+    for depth, tier in enumerate(tiers[1:], 1):
+        trellis = align_tier(trellis, tier, depth)
     return trellis
 
 
-def align_tier(trellis, tier):
-    depth = len(trellis[0])
+def align_tier(trellis, tier, depth):
     agenda = get_agenda(tier) # list of (aligned ids, item)
     delay = deque()  # when we need to postpone an agendum
     idx = -1  # current trellis position
-- 
2.43.0


From 9488c948388989643020765141922d7ff63754f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:00 +0000
Subject: [PATCH 056/103] fix: LaTeX export gave columns of different heights
 for trailing unaligned items

---
 xigt/exporters/latex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 27d2625..d847895 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -164,14 +164,14 @@ def align_tier(trellis, tier, depth):
         trellis[idx][depth].extend(items)
         logging.debug('Added items at idx {} depth {}: {}'
                       .format(idx, depth, items))
-    # when agendum is done, just append any remaining delayed items
-    trellis, _ = add_delayed(trellis, delay, len(trellis), depth)
     # if the agenda was shorter than the prev tier, fill in empty values
     idx += 1
     while idx < len(trellis):
         logging.debug('Filling in empty slot at idx {}'.format(idx))
         trellis[idx].append([])
         idx += 1
+    # when agendum is done, just append any remaining delayed items
+    trellis, _ = add_delayed(trellis, delay, len(trellis), depth)
     logging.debug('Agenda done.')
     for col in trellis:
         logging.debug('Col {}'.format(col))
-- 
2.43.0


From 718e242a0d2ca963389af57acb41654748fdb57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:21 +0000
Subject: [PATCH 057/103] fix: LaTeX export crashed on items aligned to tiers
 other than the previous one

---
 xigt/exporters/latex.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index d847895..2e51bde 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -125,10 +125,12 @@ def align_tier(trellis, tier, depth):
     agenda = get_agenda(tier) # list of (aligned ids, item)
     delay = deque()  # when we need to postpone an agendum
     idx = -1  # current trellis position
-    idxmap = build_idxmap(trellis, depth - 1) # regen when trellis size changes
+    idxmap = build_idxmap(trellis, depth) # regen when trellis size changes
     for agendum in agenda:
         ids, items = agendum
         logging.debug('Agendum: {} -> {}'.format([i.id for i in items], ids))
+        # only consider the items shown here
+        ids = [i for i in ids if i in idxmap]
         debug_display_trellis(trellis)
         # no alignment
         if not ids:
@@ -152,12 +154,12 @@ def align_tier(trellis, tier, depth):
             idx += num
             start += num
             end += num
-            idxmap = build_idxmap(trellis, depth - 1)
+            idxmap = build_idxmap(trellis, depth)
         # now add new item, merging if necessary
         if start != end:
             # end + 1 so the slice gets the last column
             trellis = merge_columns(trellis, start, end + 1)
-            idxmap = build_idxmap(trellis, depth - 1)
+            idxmap = build_idxmap(trellis, depth)
             debug_display_trellis(trellis)
         #trellis[idx]
         #trellis[idx][depth]
@@ -186,7 +188,9 @@ def get_agenda(tier):
     return agenda
 
 def build_idxmap(trellis, depth):
-    idxmap = {it.id:i for i, col in enumerate(trellis) for it in col[depth]}
+    # tiers may be aligned to any of the tiers before them
+    idxmap = {it.id:i for i, col in enumerate(trellis)
+              for row in col[:depth] for it in row}
     logging.debug('Built idxmap for depth {}:\n  {}'.format(depth, idxmap))
     return idxmap
 
-- 
2.43.0


From d252a48801de902b6cdcf37300300c90232d1129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:46 +0000
Subject: [PATCH 058/103] fix: LaTeX export misplaced items whose alignments
 cross or are not in order

---
 xigt/exporters/latex.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 2e51bde..80f3788 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -137,9 +137,15 @@ def align_tier(trellis, tier, depth):
             logging.debug('Delay')
             delay.append(agendum)
             continue
-        # assumes ids are ordered
-        start = idxmap[ids[0]]
-        end = idxmap[ids[-1]]
+        start = min(idxmap[i] for i in ids)
+        end = max(idxmap[i] for i in ids)
+        # if it goes back to columns that have been filled, the columns
+        # from there are merged so the items stay in order
+        if start <= idx:
+            end = max(end, idx)
+            # items delayed in between are then in the same column
+            while delay:
+                trellis[idx][depth].extend(delay.popleft()[1])
         logging.debug('idx: {}\tstart: {}\tend: {}\tdepth: {}'
                       .format(idx, start, end, depth))
         # if the next aligned thing is ahead of idx, move ahead
@@ -159,6 +165,7 @@ def align_tier(trellis, tier, depth):
         if start != end:
             # end + 1 so the slice gets the last column
             trellis = merge_columns(trellis, start, end + 1)
+            idx = start
             idxmap = build_idxmap(trellis, depth)
             debug_display_trellis(trellis)
         #trellis[idx]
-- 
2.43.0


From a0d3f938309d897600dcaf16cd9f9e793beabf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:01 +0000
Subject: [PATCH 059/103] fix: export failed on documents in other encodings

---
 xigt/scripts/xigt_export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/scripts/xigt_export.py b/xigt/scripts/xigt_export.py
index d782433..eb22723 100755
--- a/xigt/scripts/xigt_export.py
+++ b/xigt/scripts/xigt_export.py
@@ -14,7 +14,7 @@ def run(infile, outpath, out_format, config=None):
     elif out_format == 'itsdb':
         import xigt.exporters.itsdb as exporter
     # elif ...
-    with open(infile, 'r') as in_fh:
+    with open(infile, 'rb') as in_fh:
         xc = xigtxml.load(in_fh, mode='transient')
         exporter.xigt_export(xc, outpath, config=cfg)
 
-- 
2.43.0


From 60e71c19c5de1790fbaab9886baf4fccc20dd90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 060/103] fix: LaTeX export reversed items not aligned to items
 shown

---
 xigt/exporters/latex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 80f3788..cd3e37d 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -207,7 +207,7 @@ def add_delayed(trellis, delay, pos, depth):
         _, delayed_items = delay.popleft()
         col = [[]] * (depth)
         col.append(delayed_items)
-        trellis.insert(pos, col)
+        trellis.insert(pos + num, col)
         logging.debug('Added delayed items at {}: {}'
                       .format(pos, delayed_items))
         num += 1
-- 
2.43.0


From 3c51f115a21262d98345b4a1d64059dd02aa70b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:18 +0000
Subject: [PATCH 061/103] fix: all cells of the [incr tsdb()] export used the
 last mapper

---
 xigt/exporters/itsdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/exporters/itsdb.py b/xigt/exporters/itsdb.py
index 38258e7..fc59602 100644
--- a/xigt/exporters/itsdb.py
+++ b/xigt/exporters/itsdb.py
@@ -48,7 +48,7 @@ def prepare_config(config):
             config['relations'] = rel_path
     # evaluate lambda expressions now, since they won't change
     config.setdefault('cells', DEFAULT_CELLS)
-    config['cells'] = [(key, lambda igt: eval(mapper))
+    config['cells'] = [(key, lambda igt, mapper=mapper: eval(mapper))
                        for key, mapper in config['cells']]
     return config
 
-- 
2.43.0


From 5ec5190fe09c6749a41cdc8f46dd12aa9ac6c025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:19 +0000
Subject: [PATCH 062/103] fix: the default i-input was an item or failed
 without phrase items

---
 xigt/exporters/itsdb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xigt/exporters/itsdb.py b/xigt/exporters/itsdb.py
index fc59602..96b875e 100644
--- a/xigt/exporters/itsdb.py
+++ b/xigt/exporters/itsdb.py
@@ -14,8 +14,9 @@ except ImportError:
 DEFAULT_CELLS = [
     # i-input is a string of either the first phrase (preferred) or all words
     ('i-input',
-     'next(igt.select(type="phrases"), [""])[0] or '
-     '" ".join(item.get_content() '
+     'next((item.value() for item in next(igt.select(type="phrases"), [])), '
+     '     None) or '
+     '" ".join(item.value() or "" '
      '         for item in next(igt.select(type="words"),[]))'),
     #('i-wf', '0 if igt.get_meta("judgment") else 1'),
 ]
-- 
2.43.0


From c9e4df05c8f3ddd9860365afa45214ccdd944a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:20 +0000
Subject: [PATCH 063/103] fix: a configuration could be used for one [incr
 tsdb()] export only

---
 xigt/exporters/itsdb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/exporters/itsdb.py b/xigt/exporters/itsdb.py
index 96b875e..cbf6b4d 100644
--- a/xigt/exporters/itsdb.py
+++ b/xigt/exporters/itsdb.py
@@ -33,8 +33,8 @@ def xigt_export(xc, outpath, config=None):
     )
 
 def prepare_config(config):
-    if config is None:
-        config = {}
+    # the caller's configuration stays usable for other exports
+    config = dict(config or {})
     config.setdefault('i-id_start', 0)
     config.setdefault('i-id_skip', 10)
     # attempt to find default Relations file
-- 
2.43.0


From d87ef22607593feaa96f1dadafdd85274fe9c845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:22 +0000
Subject: [PATCH 064/103] fix: ODIN import replaced valid characters beyond
 U+FFFF

---
 xigt/importers/odin.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index 153d07c..c580ce0 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -222,8 +222,7 @@ def make_igt_raw_tier(block, options):
 #  \U000DFFFE, \U000DFFFF, \U000EFFFE, \U000EFFFF, \U000FFFFE, \U000FFFFF,
 #  \U0010FFFE, \U0010FFFF
 invalid_char_re = re.compile('[^\x09\x0A\x0D\u0020-\uD7FF\uE000-\uFFFD'
-                             #'\U00010000-\U0010FFFF]'
-                             ']'
+                             '\U00010000-\U0010FFFF]'
                              , re.UNICODE)
 
 
-- 
2.43.0


From eea10dd762dd24136473b9ad5d03f916d27af75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:22 +0000
Subject: [PATCH 065/103] fix: ODIN import found no files in directories with
 special characters

---
 xigt/importers/odin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index c580ce0..a8cb873 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -67,7 +67,7 @@ def xigt_import(inpath, outpath, options=None):
         if not os.path.exists(outpath):
             prepare_outdir(outpath)
         filepattern = '*{}'.format(suffix)
-        for infile in glob.glob(os.path.join(inpath, filepattern)):
+        for infile in glob.glob(os.path.join(glob.escape(inpath), filepattern)):
             outfile = re.sub(suffix + r'$', '.xml', os.path.basename(infile))
             _xigt_import(infile, os.path.join(outpath, outfile), options)
     else:
-- 
2.43.0


From 8ebee6647d2f3dee01da7d44a5fdae39463dafa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:00 +0000
Subject: [PATCH 066/103] fix: ODIN import wrote invalid XML for control
 characters outside of the lines

---
 xigt/importers/odin.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index a8cb873..f9b2ee0 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -148,7 +148,10 @@ def make_igt_metadata(block, options):
     if options['keep_headers'] and block.get('header_lines'):
         md.append(Meta(id='meta{}'.format(mi),
                        type='odin-header',
-                       text='\n'.join(block.get('header_lines', []))
+                       text=replace_invalid_xml_chars(
+                           '\n'.join(block.get('header_lines', [])),
+                           options['replacement_char']
+                       )
         ))
         mi += 1
 
@@ -157,7 +160,10 @@ def make_igt_metadata(block, options):
         lg_code = 'und'  # undetermined
     # should we title-case language?
     # language = (block.get('language') or '').strip().title()
-    language = (block.get('language') or '').strip()
+    language = replace_invalid_xml_chars(
+        (block.get('language') or '').strip(),
+        options['replacement_char']
+    )
 
     subj = MetaChild(
         'subject',
@@ -189,8 +195,10 @@ def make_igt_raw_tier(block, options):
             linedata.get('content', ''),
             options['replacement_char']
         )
-        attrs = linedata.copy()
-        del attrs['content']
+        attrs = {
+            key: replace_invalid_xml_chars(val, options['replacement_char'])
+            for key, val in linedata.items() if key != 'content'
+        }
         items.append(Item(id='r{}'.format(j+1), attributes=attrs, text=text))
     tier = Tier(
         id='r',
-- 
2.43.0


From b0c28f2eac610884860f077337ac83d9eb97eb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:01 +0000
Subject: [PATCH 067/103] fix: ODIN import failed if the replacement is a
 backslash

---
 xigt/importers/odin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index f9b2ee0..bde09a4 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -236,4 +236,4 @@ invalid_char_re = re.compile('[^\x09\x0A\x0D\u0020-\uD7FF\uE000-\uFFFD'
 
 def replace_invalid_xml_chars(input, replacement_char):
     # \uFFFD is the unicode replacement character
-    return invalid_char_re.sub(replacement_char, input)
+    return invalid_char_re.sub(lambda m: replacement_char, input)
-- 
2.43.0


From 4529a0a902b5f0c71c6f2184d43dcac66f23cf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:02 +0000
Subject: [PATCH 068/103] fix: Toolbox import failed if a tier in alignments
 has no marker

---
 xigt/importers/toolbox.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index f8d4290..5ad56e3 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -138,7 +138,9 @@ def _make_tb_alignments(opts):
     for t1, aln in opts['alignments'].items():
         refattr, t2 = aln
         if interlinear.get(t1, False) and interlinear.get(t2, False):
-            tb_alignments[inv_tier_map[t1]] = inv_tier_map[t2]
+            # tiers might not be mapped from any marker
+            if t1 in inv_tier_map and t2 in inv_tier_map:
+                tb_alignments[inv_tier_map[t1]] = inv_tier_map[t2]
     return tb_alignments
 
 
-- 
2.43.0


From b2dfe296e665ef0f89fa9d2a31bb97d38150e911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:04 +0000
Subject: [PATCH 069/103] fix: Toolbox import segmented words of one morpheme
 by the wrong length

---
 xigt/importers/toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index 5ad56e3..07e7ab9 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -310,7 +310,7 @@ def align_word(tier_type, s, src_data):
         end = beg + len(src_toks[s])
     elif tier_type == 'morphemes':
         if len(src_toks) == 1:  # when there is only one morpheme, assume it is correct
-            return 0, len(src_toks[s]), 0
+            return 0, len(tgt_tok), 0
         else:  # attempt some common morpheme separations
             def_val = -1  # default is NO MATCH FOUND
             if s == 0:  # this is the FIRST token in line
-- 
2.43.0


From 3a8425a9f9f588598eae80899de40e2e4aac8407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 070/103] fix: Toolbox import lost track of hyphens in words of
 many morphemes

---
 xigt/importers/toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index 07e7ab9..6aa6439 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -329,7 +329,7 @@ def align_word(tier_type, s, src_data):
                         try_tgt = try_tgt[len(m1.group()):]  # truncate the hyphen
                     if tgt_tok.startswith(prev_toks + src_toks[j].strip(default_bounds)):
                         prev_toks += src_toks[j].strip(default_bounds)  # add the previous morphemes to amalgam
-                        try_tgt = try_tgt[len(prev_toks):]
+                        try_tgt = tgt_tok[len(prev_toks):]
                     else:  # when we encounter a non-matching morpheme, assume the rest of the word
                         return len(prev_toks), len(tgt_tok), -1
                 if tgt_tok.startswith(prev_toks):  # when previous morphemes match LHS of word
-- 
2.43.0


From f799f20256147b25d72cf848f28c8bd08a4143f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:06 +0000
Subject: [PATCH 071/103] fix: Toolbox import stopped at record names starting
 with non-ASCII letters

---
 xigt/importers/toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index 6aa6439..5d23c10 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -162,7 +162,7 @@ def toolbox_igts(tb, options):
 def make_igt(key, data, context, options):
     # IDs must start with a letter
     assert key
-    if not key[0].isalpha():
+    if not re.match('[a-zA-Z]', key):
         key = 'igt{}'.format(key)
     if context is None:
         context = {}
-- 
2.43.0


From fb659aef7b3b2495ec5030618f1464fb74c3ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:22 +0000
Subject: [PATCH 072/103] fix: Toolbox import ended segments of unmatched
 morphemes before the end of the word

---
 xigt/importers/toolbox.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index 5d23c10..115cd82 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -335,8 +335,7 @@ def align_word(tier_type, s, src_data):
                 if tgt_tok.startswith(prev_toks):  # when previous morphemes match LHS of word
                     if s == len(src_toks) - 1:  # if we are looking at the LAST token in a series, don't need to compare
                         return len(prev_toks), len(tgt_tok), 0  # end of segment = end of word
-                    tgt_tok = tgt_tok[len(prev_toks):]  # truncate prev tokens from target
-                    if tgt_tok.startswith(new_tok):  # left hand side of tgt_tok is the same as new_tok
+                    if tgt_tok.startswith(new_tok, len(prev_toks)):  # left hand side of tgt_tok is the same as new_tok
                         return len(prev_toks), len(new_tok) + len(prev_toks),0  # end of segment = length of current tok
                 def_val = len(prev_toks)  # when no match is found, assume the rest of the word is the token
             return def_val, len(tgt_tok), -1
-- 
2.43.0


From 1daea80cfef5726c71f1f753ef2a864adf58ee71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:31 +0000
Subject: [PATCH 073/103] fix: Toolbox import added spaces to non-ASCII text
 that is not aligned

---
 xigt/importers/toolbox.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index 115cd82..595b247 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -123,7 +123,7 @@ def xigt_import(infile, outfile, options=None, encoding='utf-8'):
     options['tb_alignments'] = _make_tb_alignments(options) 
 
     with open(infile, 'rb') as in_fh, open(outfile, 'w') as out_fh:
-        in_lines = (_respace_decode(line, encoding) for line in in_fh)
+        in_lines = _decode_lines(in_fh, encoding, options['tb_alignments'])
         tb = toolbox.read_toolbox_file(in_lines)
         igts = toolbox_igts(tb, options)
         xc = XigtCorpus(igts=igts, mode='transient')
@@ -343,6 +343,19 @@ def align_word(tier_type, s, src_data):
 
 
 
+def _decode_lines(fh, encoding, tb_alignments):
+    # only the columns of aligned lines matter; other text is kept as it is
+    aligned_mkrs = set(tb_alignments).union(tb_alignments.values())
+    mkr = None
+    for line in fh:
+        if line.startswith(b'\\'):
+            mkr = line.split(None, 1)[0].decode(encoding)
+        if mkr in aligned_mkrs:
+            yield _respace_decode(line, encoding)
+        else:
+            yield line.rstrip(b'\n').decode(encoding)
+
+
 def _respace_decode(line, encoding):
     toks = []
     line = line.rstrip(b'\n')
-- 
2.43.0


From 908b9843d6a0e67766c83fc87a7b5ac3ecb96c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:35 +0000
Subject: [PATCH 074/103] fix: NameError for tiers without the alignment asked
 for

---
 xigt/ref.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xigt/ref.py b/xigt/ref.py
index 3c280b9..a20719a 100644
--- a/xigt/ref.py
+++ b/xigt/ref.py
@@ -2,7 +2,11 @@
 import re
 from collections import namedtuple
 
-from xigt.errors import (XigtLookupError, XigtStructureError)
+from xigt.errors import (
+    XigtLookupError,
+    XigtStructureError,
+    XigtAttributeError
+)
 
 ### Alignment Expressions ####################################################
 
@@ -299,7 +303,7 @@ def get_aligned_tier(tier, algnattr):
     if tgt_tier_id is None:
         raise XigtAttributeError(
             'Tier {} does not specify an alignment "{}".'
-            .format(tgt_tier_id, algnattr)
+            .format(tier.id, algnattr)
         )
     tgt_tier = tier.igt.get(tgt_tier_id)
     return tgt_tier
-- 
2.43.0


From 28b589d660788253e4ad32c8285b4e3e5d622db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:36 +0000
Subject: [PATCH 075/103] fix: NameError for items not found by
 resolve_alignment()

---
 xigt/ref.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xigt/ref.py b/xigt/ref.py
index a20719a..e2b3b73 100644
--- a/xigt/ref.py
+++ b/xigt/ref.py
@@ -1,5 +1,6 @@
 
 import re
+import warnings
 from collections import namedtuple
 
 from xigt.errors import (
-- 
2.43.0


From 55c9dc70d8ec4606ae4496fb58cd18d947f1cad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:37 +0000
Subject: [PATCH 076/103] fix: resolve_alignment() failed for items without a
 value

---
 xigt/ref.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/ref.py b/xigt/ref.py
index e2b3b73..8771f45 100644
--- a/xigt/ref.py
+++ b/xigt/ref.py
@@ -349,10 +349,10 @@ def resolve_alignment(tier, item_id, selection, plus=delim1, comma=delim2):
         return ''
     else:
         if selection == '':
-            return item.get_content()
+            return item.get_content() or ''
         spans = sel_re.findall(selection)
         parts = [plus if match == '+' else
                  comma if match == ',' else
-                 item.span(*map(int, match.split(':')))
+                 item.span(*map(int, match.split(':'))) or ''
                  for match in spans]
         return ''.join(parts)
-- 
2.43.0


From c8127f0d2f36b5c014e91298e412c42a54ce5e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:11 +0000
Subject: [PATCH 077/103] fix: extending a container by itself did not
 terminate

---
 xigt/mixins.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 1825ac2..274d4de 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -129,6 +129,8 @@ class XigtContainerMixin(list):
         list.insert(self, i, obj)
 
     def extend(self, objs):
+        if objs is self:
+            objs = list(objs)  # do not also add what is being added
         for obj in objs:
             self.append(obj)
 
-- 
2.43.0


From db7c7d6ffe103e151cc8a7a0bc8035ee36966f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:34 +0000
Subject: [PATCH 078/103] fix: items with broken references could not be
 printed

---
 xigt/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xigt/model.py b/xigt/model.py
index 9630aa8..c00124e 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -367,8 +367,12 @@ class Item(XigtAttributeMixin, XigtReferenceAttributeMixin):
         self.text = text
 
     def __repr__(self):
+        try:
+            value = self.value()
+        except Exception:  # e.g., a broken reference
+            value = None
         return '<Item object (id: {}) with value "{}" at {}>'.format(
-            str(self.id or '--'), self.value(), str(id(self))
+            str(self.id or '--'), value, str(id(self))
         )
 
     def __eq__(self, other):
-- 
2.43.0


From af3b1d620c060673c6d1a8e82e1a6399a9abf777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:39 +0000
Subject: [PATCH 079/103] fix: importing the validation script silenced all
 warnings

---
 xigt/scripts/xigt_validate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 932127c..942a0dd 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -5,7 +5,6 @@ import sys
 from collections import Counter, defaultdict
 import logging
 import warnings
-warnings.simplefilter('ignore')
 
 from xigt.codecs import xigtxml
 from xigt.ref import (ids, spans, selection_re, span_re)
@@ -440,7 +439,9 @@ def main(arglist=None):
         format='%(message)s'
     )
 
-    success = run(args)
+    with warnings.catch_warnings():
+        warnings.simplefilter('ignore')
+        success = run(args)
     sys.exit(0 if success else 1)
 
 
-- 
2.43.0


From 75fbc93678c4e93f88a8ec839c2d7bad17a1ac7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:05 +0000
Subject: [PATCH 080/103] fix: metadata element names could end in a newline

---
 xigt/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/metadata.py b/xigt/metadata.py
index 5df54a6..ea24961 100644
--- a/xigt/metadata.py
+++ b/xigt/metadata.py
@@ -13,7 +13,7 @@ from xigt.errors import XigtError
 # This also excludes colons in the name (because of potential trouble
 # with xml processors treating them as namespace delimiters)
 # http://www.w3.org/TR/2000/WD-xml-2e-20000814#NT-Name
-name_re = re.compile(r'^[^\W\d][-.\w]*$')
+name_re = re.compile(r'^[^\W\d][-.\w]*\Z')
 
 class XigtMetadataMixin(object):
     """
-- 
2.43.0


From a42c5e12e726ba26e2e715adb18560629d5ad70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:43 +0000
Subject: [PATCH 081/103] fix: ODIN input file suffixes were taken as patterns

---
 xigt/importers/odin.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index bde09a4..202db63 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -66,9 +66,10 @@ def xigt_import(inpath, outpath, options=None):
         suffix = options['input_file_suffix']
         if not os.path.exists(outpath):
             prepare_outdir(outpath)
-        filepattern = '*{}'.format(suffix)
+        filepattern = '*{}'.format(glob.escape(suffix))
         for infile in glob.glob(os.path.join(glob.escape(inpath), filepattern)):
-            outfile = re.sub(suffix + r'$', '.xml', os.path.basename(infile))
+            outfile = re.sub(re.escape(suffix) + r'$', '.xml',
+                             os.path.basename(infile))
             _xigt_import(infile, os.path.join(outpath, outfile), options)
     else:
         raise XigtImportError(
-- 
2.43.0


From d5b8a0526c90f84c23791f2327f9dfa22b7b6ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:20 +0000
Subject: [PATCH 082/103] fix: XigtXML written to a text file comes after what
 was written before

---
 xigt/codecs/xigtxml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 41dcb8e..207a508 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -66,6 +66,7 @@ def dump(f, xc, encoding='utf-8', indent=2):
             'Second argument of dump() must be an instance of XigtCorpus.'
         )
     if hasattr(f, 'buffer') and encoding != 'unicode':
+        f.flush()  # what was written so far comes first
         f = f.buffer
     root = _build_corpus(xc)
     _indent(root, indent=indent)
-- 
2.43.0


From f6f999710270a57b006bf3d4784edd36c3589694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:19 +0000
Subject: [PATCH 083/103] fix: predicates may contain predicates

---
 xigt/xigtpath.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 279dfb9..74e6983 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -271,7 +271,9 @@ def _make_predicate_test(steps):
     steps.popleft()  # '['
     # parse expr here?
     subpath = deque()
-    while steps[0] not in (']', '=', '!='):
+    depth = 0  # the steps of the path may have predicates, too
+    while depth or steps[0] not in (']', '=', '!='):
+        depth += {'[': 1, ']': -1}.get(steps[0], 0)
         subpath.append(steps.popleft())
     subpath = ''.join(subpath)  # ugly hack so findall() works
     if steps[0] == ']':
-- 
2.43.0


From 37fe62c42a167cf0de17956d59f68196bdafbf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:20 +0000
Subject: [PATCH 084/103] fix: setting a reference attribute to None removes it

---
 xigt/mixins.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 274d4de..30a8f31 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -287,6 +287,12 @@ class XigtReferenceAttributeMixin(object):
         if segmentation is not None:
             self.attributes[SEGMENTATION] = segmentation
 
+    def _set_refattr(self, refattr, value):
+        if value is None:  # as in the constructor, no reference
+            self.attributes.pop(refattr, None)
+        else:
+            self.attributes[refattr] = value
+
     def referents(self, refattrs=None):
         if not getattr(self, 'igt'):
             raise XigtError('Cannot retrieve referents; unspecified IGT.')
@@ -306,18 +312,18 @@ class XigtReferenceAttributeMixin(object):
         return self.attributes.get(ALIGNMENT)
     @alignment.setter
     def alignment(self, value):
-        self.attributes[ALIGNMENT] = value
+        self._set_refattr(ALIGNMENT, value)
 
     @property
     def content(self):
         return self.attributes.get(CONTENT)
     @content.setter
     def content(self, value):
-        self.attributes[CONTENT] = value
+        self._set_refattr(CONTENT, value)
 
     @property
     def segmentation(self):
         return self.attributes.get(SEGMENTATION)
     @segmentation.setter
     def segmentation(self, value):
-        self.attributes[SEGMENTATION] = value
+        self._set_refattr(SEGMENTATION, value)
-- 
2.43.0


From 3829af49c8f69989e24ec374fd90c5656faced56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:54 +0000
Subject: [PATCH 085/103] fix: a refused insert does not register the id

---
 xigt/mixins.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 30a8f31..3d5dfd7 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -125,8 +125,12 @@ class XigtContainerMixin(list):
     def insert(self, i, obj):
         self._assert_type(obj)
         self._create_id_mapping(obj)
+        try:
+            list.insert(self, i, obj)
+        except (TypeError, OverflowError):  # not a position
+            self._remove_id_mapping(obj)
+            raise
         obj._parent = self._container
-        list.insert(self, i, obj)
 
     def extend(self, objs):
         if objs is self:
-- 
2.43.0


From f2abfe202133610a2ee29e3d66c2751ef1065324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:54 +0000
Subject: [PATCH 086/103] fix: write the namespaces of XigtJSON in a fixed
 order

---
 xigt/codecs/xigtjson.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index fc5316c..f32eeef 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -203,7 +203,8 @@ def _make_obj(x, nscontext=None):
     active_nsmap = dict(nscontext)
     active_nsmap.update(x.nsmap)
     inv_nsmap = _inverse(active_nsmap)
-    nsmap = dict(set(active_nsmap.items()).difference(nscontext.items()))
+    nsmap = {pre: uri for pre, uri in active_nsmap.items()
+             if pre not in nscontext or nscontext[pre] != uri}
     obj = {}
     if x.id: obj['id'] = x.id
     if x.type is not None: obj['type'] = x.type
-- 
2.43.0


From ef462d7b75f364c3801c7d337ae0b0668bf00a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:54 +0000
Subject: [PATCH 087/103] fix: read XigtJSON files as UTF-8 whatever the locale
 is

---
 xigt/codecs/xigtjson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index f32eeef..5cfc99d 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -13,7 +13,7 @@ def load(fh, mode='full'):
     if hasattr(fh, 'read'):
         return decode(json.load(fh), mode=mode)
     else:
-        with open(fh, 'r') as fh_:
+        with open(fh, 'r', encoding='utf-8') as fh_:
             return decode(json.load(fh_), mode=mode)
 
 
-- 
2.43.0


From 57c878b78169f60578a66abbe7eef512c51f7374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:54 +0000
Subject: [PATCH 088/103] fix: write LaTeX files as UTF-8 whatever the locale
 is

---
 xigt/exporters/latex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index cd3e37d..c6af642 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -37,7 +37,7 @@ footer = '''
 
 def xigt_export(xc, outpath, config=None):
     config = prepare_config(config)
-    with open(outpath, 'w') as out_fh:
+    with open(outpath, 'w', encoding='utf-8') as out_fh:
         print(header, file=out_fh)
         for s in export_corpus(xc, config):
             print(s, file=out_fh)
-- 
2.43.0


From 21c1f6e7ffa9807f4736c15f982f758ade7f661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:06 +0000
Subject: [PATCH 089/103] fix: read ODIN text as UTF-8, and keep the output
 file if the import fails

---
 xigt/importers/odin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index 202db63..70ab96a 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -78,14 +78,14 @@ def xigt_import(inpath, outpath, options=None):
 
 
 def _xigt_import(infile, outfile, options):
-    with open(infile, 'r') as in_fh, open(outfile, 'w') as out_fh:
+    with open(infile, 'r', encoding='utf-8') as in_fh:
         igts = odin_igts(in_fh, options)
         xc = XigtCorpus(
             igts=igts,
             nsmap=_nsmap,
             mode='transient'
         )
-        xigtxml.dump(out_fh, xc)
+        xigtxml.dump(outfile, xc)
 
 
 def prepare_outdir(outpath):
-- 
2.43.0


From e42722219542d0b4fd4f18391b63d49288fec2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:06 +0000
Subject: [PATCH 090/103] fix: keep the output file if a Toolbox import fails

---
 xigt/importers/toolbox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index 595b247..71d7834 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -122,12 +122,12 @@ def xigt_import(infile, outfile, options=None, encoding='utf-8'):
     # just use existing info to create marker-based alignment info
     options['tb_alignments'] = _make_tb_alignments(options) 
 
-    with open(infile, 'rb') as in_fh, open(outfile, 'w') as out_fh:
+    with open(infile, 'rb') as in_fh:
         in_lines = _decode_lines(in_fh, encoding, options['tb_alignments'])
         tb = toolbox.read_toolbox_file(in_lines)
         igts = toolbox_igts(tb, options)
         xc = XigtCorpus(igts=igts, mode='transient')
-        xigtxml.dump(out_fh, xc)
+        xigtxml.dump(outfile, xc)
 
 
 def _make_tb_alignments(opts):
-- 
2.43.0


From 3ed014557cf4761849d5598d4a587996e7379cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:06 +0000
Subject: [PATCH 091/103] fix: read configurations as UTF-8 and close them

---
 xigt/scripts/xigt_export.py | 3 ++-
 xigt/scripts/xigt_import.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/xigt/scripts/xigt_export.py b/xigt/scripts/xigt_export.py
index eb22723..f7251f5 100755
--- a/xigt/scripts/xigt_export.py
+++ b/xigt/scripts/xigt_export.py
@@ -8,7 +8,8 @@ def run(infile, outpath, out_format, config=None):
     cfg = None
     if config:
         import json
-        cfg = json.load(open(config,'r'))
+        with open(config, 'r', encoding='utf-8') as config_fh:
+            cfg = json.load(config_fh)
     if out_format == 'latex':
         import xigt.exporters.latex as exporter
     elif out_format == 'itsdb':
diff --git a/xigt/scripts/xigt_import.py b/xigt/scripts/xigt_import.py
index a2fca18..aa3e8d9 100755
--- a/xigt/scripts/xigt_import.py
+++ b/xigt/scripts/xigt_import.py
@@ -15,7 +15,8 @@ def run(args):
         import xigt.importers.odin as importer
     # elif ...
     if config is not None:
-        config = json.load(open(config, 'r'))
+        with open(config, 'r', encoding='utf-8') as config_fh:
+            config = json.load(config_fh)
     importer.xigt_import(infile, outfile, config)
 
 def main(arglist=None):
-- 
2.43.0


From 514408f4b710507da22dd75e361a6af7336f2a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:01 +0000
Subject: [PATCH 092/103] fix: a file that cannot be opened does not stop the
 validator

---
 xigt/scripts/xigt_validate.py | 36 +++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 942a0dd..e9924c8 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -395,30 +395,30 @@ def run(args):
     from xml.etree import ElementTree as ET
     ids = Counter()
     for i, f in enumerate(args.files):
-        with open(f, 'rb') as fh:
-            try:
+        try:
+            with open(f, 'rb') as fh:
                 xc = xigtxml.load(fh, mode='transient')
                 context = make_context(
                     xc, i, '<xigt-corpus>', 'collection', ids=ids
                 )
                 report = validate_corpus(xc, context)  # reads the igts
-            except (ET.ParseError, XigtError, ValueError) as ex:
-                print('Corpus {} ({}) failed to load. First verify '
-                      'that the XML file is valid by doing a schema '
-                      'validation.'
-                      .format(i, f))
-                print('  {}'.format(ex))
-                passed.append(False)
+        except (EnvironmentError, ET.ParseError, XigtError, ValueError) as ex:
+            print('Corpus {} ({}) failed to load. First verify '
+                  'that the XML file is valid by doing a schema '
+                  'validation.'
+                  .format(i, f))
+            print('  {}'.format(ex))
+            passed.append(False)
+        else:
+            report = filter_empty_reports(
+                report, minlevel=logging.getLogger().getEffectiveLevel()
+            )
+            if report_is_empty(report):
+                passed.append(True)
             else:
-                report = filter_empty_reports(
-                    report, minlevel=logging.getLogger().getEffectiveLevel()
-                )
-                if report_is_empty(report):
-                    passed.append(True)
-                else:
-                    passed.append(False)
-                    print_report(report, args)
-                add_id(ids, xc)
+                passed.append(False)
+                print_report(report, args)
+            add_id(ids, xc)
     return all(passed)
 
 def main(arglist=None):
-- 
2.43.0


From 66f7e584d0262d59eb3699bee3944d778590f06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:01 +0000
Subject: [PATCH 093/103] fix: keep the output file if the LaTeX export fails

---
 xigt/exporters/latex.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index c6af642..100983f 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -37,9 +37,11 @@ footer = '''
 
 def xigt_export(xc, outpath, config=None):
     config = prepare_config(config)
+    # export first so an existing file is only touched if that succeeds
+    exported = list(export_corpus(xc, config))
     with open(outpath, 'w', encoding='utf-8') as out_fh:
         print(header, file=out_fh)
-        for s in export_corpus(xc, config):
+        for s in exported:
             print(s, file=out_fh)
             print('', file=out_fh)  # separate with a blank line
         print(footer, file=out_fh)
-- 
2.43.0


From cb55984082b7a3cdb2c53655478d4e1354c59441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:19 +0000
Subject: [PATCH 094/103] fix: igts of JSON files are decoded as they are
 requested

---
 xigt/codecs/xigtjson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 5cfc99d..3818ea9 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -66,8 +66,8 @@ def decode(obj, mode='full', nsmap=None):
         attributes=decode_attributes(obj, nsmap),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
-        igts=[decode_igt(igt, nsmap)
-              for igt in obj.get('igts', [])],
+        igts=(decode_igt(igt, nsmap)
+              for igt in obj.get('igts', [])),
         mode=mode,
         namespace=obj.get('namespace'),
         nsmap=nsmap if 'namespaces' in obj else None
-- 
2.43.0


From 267f481a04f738e757cc1fb0ee2c8fb0dbc7f635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:27 +0000
Subject: [PATCH 095/103] fix: assigning contents that are refused emptied the
 container

---
 xigt/metadata.py |  4 ++++
 xigt/mixins.py   | 12 ++++++++++++
 xigt/model.py    |  3 +++
 3 files changed, 19 insertions(+)

diff --git a/xigt/metadata.py b/xigt/metadata.py
index ea24961..80d4978 100644
--- a/xigt/metadata.py
+++ b/xigt/metadata.py
@@ -39,6 +39,7 @@ class XigtMetadataMixin(object):
             raise XigtError('The metadata attribute must be a sequence '
                             'of Metadata objects.')
         value = list(value)  # may be lazy, or the current metadata
+        self._md._assert_contents(value)
         self._md.clear()
         self._md.extend(value)
 
@@ -115,6 +116,7 @@ class Metadata(XigtContainerMixin, XigtAttributeMixin):
     @metas.setter
     def metas(self, value):
         value = list(value or [])  # may be lazy, or this container
+        self._assert_contents(value)
         self.clear()
         self.extend(value)
 
@@ -165,6 +167,7 @@ class Meta(XigtContainerMixin, XigtAttributeMixin):
     @children.setter
     def children(self, value):
         value = list(value or [])  # may be lazy, or this container
+        self._assert_contents(value)
         self.clear()
         self.extend(value)
 
@@ -207,5 +210,6 @@ class MetaChild(XigtContainerMixin, XigtAttributeMixin):
     @children.setter
     def children(self, value):
         value = list(value or [])  # may be lazy, or this container
+        self._assert_contents(value)
         self.clear()
         self.extend(value)
diff --git a/xigt/mixins.py b/xigt/mixins.py
index 3d5dfd7..c777ffd 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -116,6 +116,18 @@ class XigtContainerMixin(list):
                 .format(self._contained_type.__name__)
             )
 
+    def _assert_contents(self, objs):
+        # the objects can be all the contents of this container
+        ids = set()
+        for obj in objs:
+            self._assert_type(obj)
+            if obj.id in ids:
+                raise XigtError(
+                    'Id "{}" occurs repeatedly.'.format(obj.id),
+                )
+            if obj.id is not None:
+                ids.add(obj.id)
+
     def append(self, obj):
         self._assert_type(obj)
         self._create_id_mapping(obj)
diff --git a/xigt/model.py b/xigt/model.py
index c00124e..e10c93a 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -121,6 +121,7 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
     @igts.setter
     def igts(self, value):
         value = list(value or [])  # may be lazy, or this container
+        self._assert_contents(value)
         self.clear()
         self.extend(value)
 
@@ -212,6 +213,7 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
     @tiers.setter
     def tiers(self, value):
         value = list(value or [])  # may be lazy, or this container
+        self._assert_contents(value)
         self.clear()
         self.extend(value)
 
@@ -326,6 +328,7 @@ class Tier(XigtContainerMixin, XigtAttributeMixin,
     @items.setter
     def items(self, value):
         value = list(value or [])  # may be lazy, or this container
+        self._assert_contents(value)
         self.clear()
         self.extend(value)
 
-- 
2.43.0


From 2142100d8a274c1fc44de78ad1b1a36188ef334e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:44 +0000
Subject: [PATCH 096/103] fix: refresh_index indexes what is contained, not
 what is yet to be read

---
 xigt/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index c777ffd..9b5f2d6 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -186,7 +186,7 @@ class XigtContainerMixin(list):
 
     def refresh_index(self):
         self._dict = {}
-        for obj in self:
+        for obj in list.__iter__(self):
             self._create_id_mapping(obj)
 
     # deprecated methods
-- 
2.43.0


From 0a089dac350e6551a6822daf97a5ff7ddc086cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:44 +0000
Subject: [PATCH 097/103] fix: validation messages lost MUST, SHOULD and MAY
 with python -OO

---
 xigt/scripts/xigt_validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index e9924c8..b771746 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -37,7 +37,7 @@ def validate_condition(condition, obj, context):
         if isinstance(results, str):
             results = [results]
         for result in results:
-            msg = result.format(modal=make_record.__doc__, **context)
+            msg = result.format(modal=make_record.__name__.upper(), **context)
             records.append(make_record(msg))
     return records
 
-- 
2.43.0


From a4428819634b790ee6a4e74635ef61c9c08645a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:44 +0000
Subject: [PATCH 098/103] fix: Toolbox alignments of words that get longer in
 lower case

---
 xigt/importers/toolbox.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index 71d7834..3db1a2d 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -302,7 +302,9 @@ def align_word(tier_type, s, src_data):
     beg = 0
     end = 0
     tgt_tok, src_toks = src_data
-    tgt_tok = tgt_tok.lower()  # This may cause problems with diacriticals!
+    lower_tok = tgt_tok.lower()
+    if len(lower_tok) == len(tgt_tok):  # the ranges are those of tgt_tok
+        tgt_tok = lower_tok
     if tier_type == 'words':
         for i in range(s):
             beg += len(src_toks[i])
-- 
2.43.0


From 929db61664865d92d73e8c62256e3f3c4a5a66c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:56 +0000
Subject: [PATCH 099/103] fix: assigned igts were followed by those not read
 yet

---
 xigt/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xigt/model.py b/xigt/model.py
index e10c93a..9c4f318 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -122,6 +122,7 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
     def igts(self, value):
         value = list(value or [])  # may be lazy, or this container
         self._assert_contents(value)
+        self.mode = FULL  # what is not read yet is replaced, too
         self.clear()
         self.extend(value)
 
-- 
2.43.0


From 584280532e601c0746fc4b113615996c3cf227c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:02 +0000
Subject: [PATCH 100/103] fix: igts given as a corpus that is not read yet were
 ignored

---
 xigt/model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xigt/model.py b/xigt/model.py
index 9c4f318..eec8d5e 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -76,9 +76,9 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         XigtMetadataMixin.__init__(self, metadata)
         self.mode = mode
         if mode == FULL:
-            self.extend(igts or [])
+            self.extend([] if igts is None else igts)
         else:
-            self._generator = iter(igts or [])
+            self._generator = iter([] if igts is None else igts)
 
     def __repr__(self):
         return '<XigtCorpus object (id: {}) with {} Igts at {}>'.format(
@@ -120,7 +120,8 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         return list(self)
     @igts.setter
     def igts(self, value):
-        value = list(value or [])  # may be lazy, or this container
+        # may be lazy (a corpus not read yet is empty), or this container
+        value = list([] if value is None else value)
         self._assert_contents(value)
         self.mode = FULL  # what is not read yet is replaced, too
         self.clear()
-- 
2.43.0


From 11d049e47f220e93c627877c4001e0b44453e806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:38 +0000
Subject: [PATCH 101/103] fix: do not redeclare prefixes when writing
 undeclared attribute namespaces

---
 xigt/codecs/xigtxml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 207a508..9bcdc51 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -415,6 +415,8 @@ def _build_elem(tag, obj, nscontext):
                 if not pre:
                     pre = _namespace_map[uri]
                     if pre != 'xml':  # all others must be declared
+                        while pre in obj.nsmap:  # with another namespace
+                            pre += '1'
                         e.set(_QName('xmlns:%s' % pre, sortkey=xigt_attrsort),
                               uri)
                 attr = '{}:{}'.format(pre, attr)
-- 
2.43.0


From d4e91b7227125cbdec93b567415d1057fcabb52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:02 +0000
Subject: [PATCH 102/103] fix: keep metadata texts of spaces that are not XML
 whitespace

---
 xigt/codecs/xigtxml.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 9bcdc51..5506800 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -43,6 +43,8 @@ except LookupError:
 from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild
 from xigt.errors import XigtError
 
+# other spaces (e.g. no-break spaces) are text
+XML_WHITESPACE = ' \t\r\n'
 
 ##############################################################################
 ##############################################################################
@@ -358,7 +360,7 @@ def default_decode_meta(elem):
         id=elem.get('id'),
         type=elem.get('type'),
         attributes=get_attributes(elem, ignore=('id', 'type')),
-        text=text if text.strip() else None,
+        text=text if text.strip(XML_WHITESPACE) else None,
         children=[decode_metachild(mc) for mc in elem],
         namespace=ns,
         nsmap=elem.attrib.nsmap
@@ -374,7 +376,7 @@ def default_decode_metachild(elem):
         tag,
         # any attribute is allowed here; id and type have no special meaning
         attributes=get_attributes(elem),
-        text=text if text.strip() else None,
+        text=text if text.strip(XML_WHITESPACE) else None,
         children=[decode_metachild(mc) for mc in elem],
         namespace=ns,
         nsmap=elem.attrib.nsmap
@@ -493,7 +495,7 @@ def _indent(elem, indent=2, level=0):
         return
     i = "\n" + (indent * level * ' ')
     if len(elem):
-        if not elem.text or not elem.text.strip():
+        if not elem.text or not elem.text.strip(XML_WHITESPACE):
             elem.text = i + (' ' * indent)
         if not elem.tail or not elem.tail.strip():
             elem.tail = i
-- 
2.43.0


From 6838261d1526964d04da46b0f7a6e38c519fc4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:38 +0000
Subject: [PATCH 103/103] fix: the validator took digits for ids of tiers

---
 xigt/scripts/xigt_validate.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index b771746..92637e7 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -183,11 +183,16 @@ def add_id(ids, obj):
     if getattr(obj, 'id', None) is not None:
         ids[obj.id] += 1
 
+def get_tier(igt, tier_id):
+    tier = igt.get(tier_id)  # digits also select by position
+    if tier is not None and tier.id == tier_id:
+        return tier
+
 def get_referred_tier(item, refattr):
     tierref = item.tier.attributes.get(refattr)
     if not tierref:
         return None
-    return item.igt.get(tierref)
+    return get_tier(item.igt, tierref)
 
 def get_length(item):
     # None if the value depends on broken references of other items
@@ -234,7 +239,7 @@ def has_type(obj):
 
 def reference_id_in_igt(tier, refattr):
     refid = tier.attributes.get(refattr)
-    if refid and tier.igt.get(refid) is None:
+    if refid and get_tier(tier.igt, refid) is None:
         return ('The reference attribute "{}" {{modal}} select an '
                 'available <tier> id.'.format(refattr))
 
-- 
2.43.0

