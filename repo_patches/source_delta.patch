From 779d4f8e7c91b4c0001fccbb838d2d9a3e52dcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 001/137] fix: release the lock of a shared cell or pool item
 when its update fails

---
 titus/genpy.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 7049804..b27c450 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -538,10 +538,9 @@ class Cell(PersistentStorageItem):
     def update(self, state, scope, path, to, arrayErrCode, mapErrCode, fcnName, pos):
         result = None
         if self.shared:
-            self.lock.acquire()
-            self.value = update(state, scope, self.value, path, to, arrayErrCode, mapErrCode, fcnName, pos)
-            result = self.value
-            self.lock.release()
+            with self.lock:
+                self.value = update(state, scope, self.value, path, to, arrayErrCode, mapErrCode, fcnName, pos)
+                result = self.value
         else:
             self.value = update(state, scope, self.value, path, to, arrayErrCode, mapErrCode, fcnName, pos)
             result = self.value
@@ -570,26 +569,23 @@ class Pool(PersistentStorageItem):
             contents = contents[:27] + "..."
         return "Pool(" + ("shared, " if self.shared else "") + ("rollback, " if self.rollback else "") + contents + ")"
 
+    def itemLock(self, item):
+        with self.locklock:
+            if item not in self.locks:
+                self.locks[item] = threading.Lock()
+            return self.locks[item]
+
     def update(self, state, scope, path, to, init, arrayErrCode, mapErrCode, fcnName, pos):
         result = None
 
         head, tail = path[0], path[1:]
 
         if self.shared:
-            self.locklock.acquire()
-            if head in self.locks:
-                self.locks[head].acquire()
-            else:
-                self.locks[head] = threading.Lock()
-                self.locks[head].acquire()
-            self.locklock.release()
-
-            if head not in self.value:
-                self.value[head] = init
-            self.value[head] = update(state, scope, self.value[head], tail, to, arrayErrCode, mapErrCode, fcnName, pos)
-
-            result = self.value[head]
-            self.locks[head].release()
+            with self.itemLock(head):
+                if head not in self.value:
+                    self.value[head] = init
+                self.value[head] = update(state, scope, self.value[head], tail, to, arrayErrCode, mapErrCode, fcnName, pos)
+                result = self.value[head]
 
         else:
             if head not in self.value:
-- 
2.43.0


From e951f60b8506cb55d251e773c9976c6579c03cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 002/137] fix: do not leave or show the initial value of a pool
 item whose first update is not complete

---
 titus/genpy.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index b27c450..5db72d6 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -582,15 +582,13 @@ class Pool(PersistentStorageItem):
 
         if self.shared:
             with self.itemLock(head):
-                if head not in self.value:
-                    self.value[head] = init
-                self.value[head] = update(state, scope, self.value[head], tail, to, arrayErrCode, mapErrCode, fcnName, pos)
+                old = self.value[head] if head in self.value else init
+                self.value[head] = update(state, scope, old, tail, to, arrayErrCode, mapErrCode, fcnName, pos)
                 result = self.value[head]
 
         else:
-            if head not in self.value:
-                self.value[head] = init
-            self.value[head] = update(state, scope, self.value[head], tail, to, arrayErrCode, mapErrCode, fcnName, pos)
+            old = self.value[head] if head in self.value else init
+            self.value[head] = update(state, scope, old, tail, to, arrayErrCode, mapErrCode, fcnName, pos)
             result = self.value[head]
 
         return result
-- 
2.43.0


From a6804e0b5afc05a783375ad1575d4e831d6b4084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 003/137] fix: delete an item of a shared pool under the item's
 lock

---
 titus/genpy.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 5db72d6..3671df8 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -295,11 +295,7 @@ class GeneratePython(titus.pfaast.Task):
 
             out.append("""
     def pooldel(self, name, item):
-        p = self.pools[name]
-        try:
-            del p.value[item]
-        except KeyError:
-            pass
+        self.pools[name].delete(item)
         return None
 """)
 
@@ -593,6 +589,13 @@ class Pool(PersistentStorageItem):
 
         return result
 
+    def delete(self, item):
+        if self.shared:
+            with self.itemLock(item):
+                self.value.pop(item, None)
+        else:
+            self.value.pop(item, None)
+
     def maybeSaveBackup(self):
         if self.rollback:
             self.oldvalue = dict(self.value)
-- 
2.43.0


From ef6a294a9b86de4ac9678ebc33c4b414913c1e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 004/137] fix: a.geomean of an array with a negative product is
 not a number, not a complex one

---
 titus/lib/array.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/titus/lib/array.py b/titus/lib/array.py
index d98ae0e..595bb9d 100644
--- a/titus/lib/array.py
+++ b/titus/lib/array.py
@@ -744,7 +744,10 @@ class GeoMean(LibFcn):
         if len(a) == 0:
             return float("nan")
         else:
-            return reduce(lambda a, b: a * b, a, 1.0)**(1.0/len(a))
+            try:
+                return math.pow(reduce(lambda a, b: a * b, a, 1.0), 1.0/len(a))
+            except ValueError:
+                return float("nan")
 provide(GeoMean())
 
 class Median(LibFcn):
-- 
2.43.0


From 553f0febce5b400ab60110e54428b09c81077e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 005/137] fix: a.intersection lists every common item once

---
 titus/lib/array.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/titus/lib/array.py b/titus/lib/array.py
index 595bb9d..2328602 100644
--- a/titus/lib/array.py
+++ b/titus/lib/array.py
@@ -868,11 +868,8 @@ class Intersection(LibFcn):
     def __call__(self, state, scope, pos, paramTypes, a, b):
         out = []
         for ai in a:
-            if ai in b:
+            if ai in b and ai not in out:
                 out.append(ai)
-        for bi in b:
-            if bi in a:
-                out.append(bi)
         return out
 provide(Intersection())
 
-- 
2.43.0


From a62807eb969fd12f394eb83f486ea32ef82932be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 006/137] fix: give the merge section an execution time limit,
 so that loops and library functions can run in it

---
 titus/genpy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/titus/genpy.py b/titus/genpy.py
index 3671df8..23eebd1 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -491,6 +491,8 @@ class ExecutionState(object):
             self.timeout = options.timeout_action
         elif routine == "end":
             self.timeout = options.timeout_end
+        else:
+            self.timeout = options.timeout
 
         self.startTime = time.time()
 
-- 
2.43.0


From 690380898b1bcd223abda7022f04e2307a1c32f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 007/137] fix: obey the time limits timeout.begin,
 timeout.action and timeout.end in their own sections

---
 titus/genpy.py   | 4 ++--
 titus/options.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 23eebd1..5e4a397 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -207,7 +207,7 @@ class GeneratePython(titus.pfaast.Task):
             if len(begin) > 0:
                 out.append("""
     def begin(self):
-        state = ExecutionState(self.options, self.rand, 'action', self.parser)
+        state = ExecutionState(self.options, self.rand, 'begin', self.parser)
         scope = DynamicScope(None)
         scope.let({'name': self.config.name, 'instance': self.instance, 'metadata': self.config.metadata})
         if self.config.version is not None:
@@ -281,7 +281,7 @@ class GeneratePython(titus.pfaast.Task):
                 
                 out.append("""
     def end(self):
-        state = ExecutionState(self.options, self.rand, 'action', self.parser)
+        state = ExecutionState(self.options, self.rand, 'end', self.parser)
         scope = DynamicScope(None)
         scope.let({'name': self.config.name, 'instance': self.instance, 'metadata': self.config.metadata, 'actionsStarted': self.actionsStarted, 'actionsFinished': self.actionsFinished})
         if self.config.version is not None:
diff --git a/titus/options.py b/titus/options.py
index 38030e9..29127b2 100644
--- a/titus/options.py
+++ b/titus/options.py
@@ -41,8 +41,8 @@ class EngineOptions(object):
                 raise PFAInitializationException(name + " must be an integral number")
 
         self.timeout = longOpt("timeout", -1)
-        self.timeout_begin = longOpt("timeout", self.timeout)
-        self.timeout_action = longOpt("timeout", self.timeout)
-        self.timeout_end = longOpt("timeout", self.timeout)
+        self.timeout_begin = longOpt("timeout.begin", self.timeout)
+        self.timeout_action = longOpt("timeout.action", self.timeout)
+        self.timeout_end = longOpt("timeout.end", self.timeout)
 
         # ...
-- 
2.43.0


From 2aaeb5b818ebce7bb07573254a99826396c52884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 008/137] fix: tag the values of a union by the fully qualified
 name of their type, as documented

---
 titus/datatype.py  | 28 +++++++++++++++++++++-------
 titus/genpy.py     |  4 ++--
 titus/lib/array.py |  4 ++--
 titus/lib/map.py   |  4 ++--
 4 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 34f3989..38d6314 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -870,6 +870,20 @@ class AvroTypeBuilder(object):
 
 ########################### Avro-Python is missing a JSON decoder, encoder, and comparator
 
+def unionTag(avroType):
+    """Get the tag that represents a given type in a tagged union: the fully qualified name for named types.
+
+    :type avroType: titus.datatype.AvroType
+    :param avroType: one of the types of a union
+    :rtype: string
+    :return: the union tag
+    """
+
+    if isinstance(avroType, AvroCompiled):
+        return avroType.fullName
+    else:
+        return avroType.name
+
 def jsonDecoder(avroType, value):
     """Decode a JSON object as a given titus.datatype.AvroType.
 
@@ -943,7 +957,7 @@ def jsonDecoder(avroType, value):
         if isinstance(value, dict) and len(value) == 1:
             tag, = list(value.keys())
             val, = list(value.values())
-            types = dict((x.name, x) for x in avroType.types)
+            types = dict((unionTag(x), x) for x in avroType.types)
             if tag in types:
                 return {tag: jsonDecoder(types[tag], val)}
         elif value is None and "null" in [x.name for x in avroType.types]:
@@ -1012,7 +1026,7 @@ def jsonEncoder(avroType, value, tagged=True):
                     pass
                 else:
                     if tagged:
-                        return {t.name: out}
+                        return {unionTag(t): out}
                     else:
                         return out
         for t in avroType.types:
@@ -1022,7 +1036,7 @@ def jsonEncoder(avroType, value, tagged=True):
                 pass
             else:
                 if tagged:
-                    return {t.name: out}
+                    return {unionTag(t): out}
                 else:
                     return out
     raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value), ts(avroType)))
@@ -1114,7 +1128,7 @@ def compare(avroType, x, y):
     elif isinstance(avroType, AvroUnion):
         if isinstance(x, dict) and len(x) == 1:
             (xtag, x), = list(x.items())
-            xtypei, xtype = [(ti, t) for ti, t in enumerate(avroType.types) if t.name == xtag][0]
+            xtypei, xtype = [(ti, t) for ti, t in enumerate(avroType.types) if unionTag(t) == xtag][0]
         else:
             xtypei = None
             for ti, t in enumerate(avroType.types):
@@ -1129,7 +1143,7 @@ def compare(avroType, x, y):
                 raise titus.errors.AvroException()
         if isinstance(y, dict) and len(y) == 1:
             (ytag, y), = list(y.items())
-            ytypei, ytype = [(ti, t) for ti, t in enumerate(avroType.types) if t.name == ytag][0]
+            ytypei, ytype = [(ti, t) for ti, t in enumerate(avroType.types) if unionTag(t) == ytag][0]
         else:
             ytypei = None
             for ti, t in enumerate(avroType.types):
@@ -1312,7 +1326,7 @@ def checkData(data, avroType):
             tag, = list(data.keys())
             value, = list(data.values())
             for tpe in avroType.types:
-                if tpe.name == tag:
+                if unionTag(tpe) == tag:
                     if tag == "null":
                         return checkData(value, tpe)
                     else:
@@ -1328,7 +1342,7 @@ def checkData(data, avroType):
                 if tpe.name == "null":
                     return newData
                 else:
-                    return {tpe.name: newData}
+                    return {unionTag(tpe): newData}
         raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     return data
diff --git a/titus/genpy.py b/titus/genpy.py
index 5e4a397..8e55e13 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -429,7 +429,7 @@ class GeneratePython(titus.pfaast.Task):
             if isinstance(context.retType, titus.datatype.AvroUnion) and not isinstance(context.originalType, titus.datatype.AvroUnion):
                 for t in context.retType.types:
                     if t.accepts(context.originalType):
-                        return "wrapAsUnion({}, {})".format(context.expr, repr(t.name))
+                        return "wrapAsUnion({}, {})".format(context.expr, repr(titus.datatype.unionTag(t)))
                 raise Exception   # type-checking should have prevented this
             else:
                 return context.expr
@@ -974,7 +974,7 @@ def cast(state, scope, expr, fromType, cases, partial, parser):
             tag, = list(expr.keys())
             value, = list(expr.values())
 
-            if not ((tag == toType.name) or \
+            if not ((tag == titus.datatype.unionTag(toType)) or \
                     (tag == "int" and toType.name in ("long", "float", "double")) or \
                     (tag == "long" and toType.name in ("float", "double")) or \
                     (tag == "float" and toType.name == "double")):
diff --git a/titus/lib/array.py b/titus/lib/array.py
index 2328602..87c6f97 100644
--- a/titus/lib/array.py
+++ b/titus/lib/array.py
@@ -955,7 +955,7 @@ class FilterMap(LibFcn):
     sig = Sig([{"a": P.Array(P.Wildcard("A"))}, {"fcn": P.Fcn([P.Wildcard("A")], P.Union([P.Wildcard("B"), P.Null()]))}], P.Array(P.Wildcard("B")))
     errcodeBase = 15610
     def __call__(self, state, scope, pos, paramTypes, a, fcn):
-        typeNames = [jsonNodeToAvroType(t).name for t in paramTypes[1]["ret"] if t != "null"]
+        typeNames = [unionTag(jsonNodeToAvroType(t)) for t in paramTypes[1]["ret"] if t != "null"]
         out = []
         for x in a:
             y = callfcn(state, scope, fcn, [x])
@@ -973,7 +973,7 @@ class FilterMapWithIndex(LibFcn):
     sig = Sig([{"a": P.Array(P.Wildcard("A"))}, {"fcn": P.Fcn([P.Int(), P.Wildcard("A")], P.Union([P.Wildcard("B"), P.Null()]))}], P.Array(P.Wildcard("B")))
     errcodeBase = 15620
     def __call__(self, state, scope, pos, paramTypes, a, fcn):
-        typeNames = [jsonNodeToAvroType(t).name for t in paramTypes[1]["ret"] if t != "null"]
+        typeNames = [unionTag(jsonNodeToAvroType(t)) for t in paramTypes[1]["ret"] if t != "null"]
         out = []
         for i, x in enumerate(a):
             y = callfcn(state, scope, fcn, [i, x])
diff --git a/titus/lib/map.py b/titus/lib/map.py
index ce02b54..8c99cd9 100644
--- a/titus/lib/map.py
+++ b/titus/lib/map.py
@@ -438,7 +438,7 @@ class FilterMap(LibFcn):
     sig = Sig([{"m": P.Map(P.Wildcard("A"))}, {"fcn": P.Fcn([P.Wildcard("A")], P.Union([P.Wildcard("B"), P.Null()]))}], P.Map(P.Wildcard("B")))
     errcodeBase = 26330
     def __call__(self, state, scope, pos, paramTypes, m, fcn):
-        typeNames = [jsonNodeToAvroType(t).name for t in paramTypes[1]["ret"] if t != "null"]
+        typeNames = [unionTag(jsonNodeToAvroType(t)) for t in paramTypes[1]["ret"] if t != "null"]
         out = {}
         for k, v in list(m.items()):
             vv = callfcn(state, scope, fcn, [v])
@@ -456,7 +456,7 @@ class FilterMapWithKey(LibFcn):
     sig = Sig([{"m": P.Map(P.Wildcard("A"))}, {"fcn": P.Fcn([P.String(), P.Wildcard("A")], P.Union([P.Wildcard("B"), P.Null()]))}], P.Map(P.Wildcard("B")))
     errcodeBase = 26340
     def __call__(self, state, scope, pos, paramTypes, m, fcn):
-        typeNames = [jsonNodeToAvroType(t).name for t in paramTypes[1]["ret"] if t != "null"]
+        typeNames = [unionTag(jsonNodeToAvroType(t)) for t in paramTypes[1]["ret"] if t != "null"]
         out = {}
         for k, v in list(m.items()):
             vv = callfcn(state, scope, fcn, [k, v])
-- 
2.43.0


From a9075dc535a95e18b51a3efdcc8dbfa2533914b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 009/137] fix: declare the score distribution of a produced
 tree as fractions, which is what it holds

---
 titus/producer/cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/cart.py b/titus/producer/cart.py
index 4de8447..76238d1 100644
--- a/titus/producer/cart.py
+++ b/titus/producer/cart.py
@@ -769,7 +769,7 @@ class TreeNode(object):
         if predictandDistribution:
             if self.predictand.tpe != str:
                 raise TypeError("predictandDistribution can only be used if the predictand is a string (classification trees)")
-            out["fields"].append({"name": "scoreDistribution", "type": {"type": "map", "values": "int"}})
+            out["fields"].append({"name": "scoreDistribution", "type": {"type": "map", "values": "double"}})
 
         if predictandUnique:
             out["fields"].append({"name": "scoreValues", "type": {"type": "array", "items": scoreType}})
-- 
2.43.0


From 0b6ee3e4bbd3e867c4da7e2ee91e2769ae84973c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 010/137] fix: decode only data that conform to the type, and
 encode a union value as the branch its tag names

---
 titus/datatype.py | 60 +++++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 38d6314..261e239 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -25,7 +25,12 @@ import avro.schema
 
 import titus.errors
 import titus.util
-from titus.util import ts, stringToBytes
+from titus.util import ts, stringToBytes, bytesToString
+
+INT_MIN_VALUE = -2**31
+INT_MAX_VALUE = 2**31 - 1
+LONG_MIN_VALUE = -2**63
+LONG_MAX_VALUE = 2**63 - 1
 
 ######################################################### the most general types
 
@@ -884,6 +889,17 @@ def unionTag(avroType):
     else:
         return avroType.name
 
+def isRawData(value):
+    """Determine if a value can represent ``bytes`` or ``fixed`` data: Python bytes or a string with one character per byte.
+
+    :type value: anything
+    :param value: the value to test
+    :rtype: bool
+    :return: ``True`` if the value represents raw data; ``False`` otherwise
+    """
+
+    return isinstance(value, bytes) or (isinstance(value, str) and all(ord(x) < 256 for x in value))
+
 def jsonDecoder(avroType, value):
     """Decode a JSON object as a given titus.datatype.AvroType.
 
@@ -902,32 +918,23 @@ def jsonDecoder(avroType, value):
         if value is True or value is False:
             return value
     elif isinstance(avroType, AvroInt):
-        try:
+        if isinstance(value, (int,) + integerTypes) and not isinstance(value, bool) and INT_MIN_VALUE <= value <= INT_MAX_VALUE:
             return int(value)
-        except (ValueError, TypeError):
-            pass
     elif isinstance(avroType, AvroLong):
-        try:
+        if isinstance(value, (int,) + integerTypes) and not isinstance(value, bool) and LONG_MIN_VALUE <= value <= LONG_MAX_VALUE:
             return int(value)
-        except (ValueError, TypeError):
-            pass
-    elif isinstance(avroType, AvroFloat):
-        try:
-            return float(value)
-        except (ValueError, TypeError):
-            pass
-    elif isinstance(avroType, AvroDouble):
-        try:
-            return float(value)
-        except (ValueError, TypeError):
-            pass
+    elif isinstance(avroType, (AvroFloat, AvroDouble)):
+        if not isinstance(value, (bool,) + booleanTypes):
+            try:
+                return float(value)
+            except (ValueError, TypeError, OverflowError):
+                pass
     elif isinstance(avroType, AvroBytes):
-        if isinstance(value, str):
+        if isRawData(value):
             return value
     elif isinstance(avroType, AvroFixed):
-        if isinstance(value, str):
-            if len(value) == avroType.size:
-                return value
+        if isRawData(value) and len(value) == avroType.size:
+            return value
     elif isinstance(avroType, AvroString):
         if isinstance(value, str):
             return value
@@ -991,11 +998,11 @@ def jsonEncoder(avroType, value, tagged=True):
         return float(value)
     elif isinstance(avroType, AvroDouble) and isinstance(value, (int, float)) and value is not True and value is not False:
         return float(value)
-    elif isinstance(avroType, AvroBytes) and isinstance(value, str):
-        return value
-    elif isinstance(avroType, AvroFixed) and isinstance(value, str):
+    elif isinstance(avroType, AvroBytes) and isRawData(value):
+        return bytesToString(value) if isinstance(value, bytes) else value
+    elif isinstance(avroType, AvroFixed) and isRawData(value):
         if len(value) == avroType.size:
-            return value
+            return bytesToString(value) if isinstance(value, bytes) else value
     elif isinstance(avroType, AvroString) and isinstance(value, str):
         return value
     elif isinstance(avroType, AvroEnum) and isinstance(value, str) and value in avroType.symbols:
@@ -1018,8 +1025,11 @@ def jsonEncoder(avroType, value, tagged=True):
         return None
     elif isinstance(avroType, AvroUnion):
         if isinstance(value, dict) and len(value) == 1:
+            tag, = list(value.keys())
             val, = list(value.values())
             for t in avroType.types:
+                if unionTag(t) != tag:
+                    continue
                 try:
                     out = jsonEncoder(t, val, tagged)
                 except titus.errors.AvroException:
-- 
2.43.0


From f2da72f64290795b7f77c039e1258e87004017a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 011/137] fix: compare not-a-number floats and both
 representations of raw data consistently

---
 titus/datatype.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 261e239..73a75d7 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1075,7 +1075,6 @@ def compare(avroType, x, y):
     elif isinstance(avroType, AvroLong) and isinstance(x, int) and x is not True and x is not False and isinstance(y, int) and y is not True and y is not False:
         return (x > y) - (x < y)
     elif isinstance(avroType, AvroFloat) and isinstance(x, (int, float)) and x is not True and x is not False and isinstance(y, (int, float)) and y is not True and y is not False:
-        return (x > y) - (x < y)
         if math.isnan(x):
             if math.isnan(y):
                 return 0
@@ -1097,9 +1096,9 @@ def compare(avroType, x, y):
                 return -1
             else:
                 return (x > y) - (x < y)
-    elif isinstance(avroType, AvroBytes) and isinstance(x, str) and isinstance(y, str):
-        return (x > y) - (x < y)
-    elif isinstance(avroType, AvroFixed) and isinstance(x, str) and isinstance(y, str):
+    elif isinstance(avroType, (AvroBytes, AvroFixed)) and isRawData(x) and isRawData(y):
+        x = bytesToString(x) if isinstance(x, bytes) else x
+        y = bytesToString(y) if isinstance(y, bytes) else y
         return (x > y) - (x < y)
     elif isinstance(avroType, AvroString) and isinstance(x, str) and isinstance(y, str):
         return (x > y) - (x < y)
-- 
2.43.0


From 6ea06eed65fd8ec98554dba205e45332cd56a28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 012/137] fix: accept as input only data that conform to the
 input type (ranges, booleans, enum symbols, fixed sizes, collections)

---
 titus/datatype.py | 52 ++++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 73a75d7..bfb234d 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1229,28 +1229,30 @@ def checkData(data, avroType):
     elif isinstance(avroType, AvroInt):
         if isinstance(data, str):
             try:
-                data = int(data)
+                out = int(data)
             except ValueError:
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
-        elif isinstance(data, integerTypes):
-            data = int(data)
-        elif isinstance(data, int):
-            return data
+        elif isinstance(data, (int,) + integerTypes) and not isinstance(data, bool):
+            out = int(data)
         else:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
+        if not INT_MIN_VALUE <= out <= INT_MAX_VALUE:
+            raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
+        return out
 
     elif isinstance(avroType, AvroLong):
         if isinstance(data, str):
             try:
-                data = int(data)
+                out = int(data)
             except ValueError:
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
-        elif isinstance(data, integerTypes):
-            data = int(data)
-        elif isinstance(data, int):
-            return data
+        elif isinstance(data, (int,) + integerTypes) and not isinstance(data, bool):
+            out = int(data)
         else:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
+        if not LONG_MIN_VALUE <= out <= LONG_MAX_VALUE:
+            raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
+        return out
 
     elif isinstance(avroType, AvroFloat):
         if isinstance(data, str):
@@ -1260,8 +1262,8 @@ def checkData(data, avroType):
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, floatTypes):
             data = float(data)
-        elif isinstance(data, int):
-            data = float(data)
+        elif isinstance(data, (int,) + integerTypes) and not isinstance(data, bool):
+            return float(data)
         elif isinstance(data, float):
             return data
         else:
@@ -1275,7 +1277,7 @@ def checkData(data, avroType):
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, floatTypes):
             return float(data)
-        elif isinstance(data, int):
+        elif isinstance(data, (int,) + integerTypes) and not isinstance(data, bool):
             return float(data)
         elif isinstance(data, float):
             return data
@@ -1283,27 +1285,27 @@ def checkData(data, avroType):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, (AvroBytes, AvroFixed)):
-        if isinstance(data, bytes):
-            return data
-        elif isinstance(data, str):
-            return stringToBytes(data)
+        if isRawData(data) and (isinstance(avroType, AvroBytes) or len(data) == avroType.size):
+            return data if isinstance(data, bytes) else stringToBytes(data)
         else:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, (AvroString, AvroEnum)):
-        if isinstance(data, str):
-            return data
-        else:
+        if not isinstance(data, str):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
+        elif isinstance(avroType, AvroEnum) and data not in avroType.symbols:
+            raise titus.errors.AvroException("{0} is not a symbol of enum {1}".format(data, ts(avroType)))
+        else:
+            return data
 
     elif isinstance(avroType, AvroArray):
-        if hasattr(data, "__iter__"):
+        if hasattr(data, "__iter__") and not isinstance(data, (str, bytes, dict)):
             return [checkData(x, avroType.items) for x in data]
         else:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, AvroMap):
-        if hasattr(data, "__iter__") and hasattr(data, "__getitem__"):
+        if hasattr(data, "__iter__") and hasattr(data, "__getitem__") and not isinstance(data, (str, bytes, list, tuple)):
             newData = {}
             for key in data:
                 value = checkData(data[key], avroType.values)
@@ -1318,12 +1320,12 @@ def checkData(data, avroType):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, AvroRecord):
-        if hasattr(data, "__iter__") and hasattr(data, "__getitem__"):
+        if hasattr(data, "__iter__") and hasattr(data, "__getitem__") and not isinstance(data, (str, bytes, list, tuple)):
             newData = {}
             for field in avroType.fields:
                 try:
                     value = data[field.name]
-                except KeyError:
+                except (KeyError, IndexError, ValueError):
                     raise TypeError("expecting {0}, couldn't find key {1}".format(ts(avroType), field.name))
                 newData[field.name] = checkData(value, field.avroType)
             return newData
@@ -1345,7 +1347,7 @@ def checkData(data, avroType):
         for tpe in avroType.types:
             try:
                 newData = checkData(data, tpe)
-            except TypeError:
+            except (TypeError, titus.errors.AvroException):
                 pass
             else:
                 if tpe.name == "null":
-- 
2.43.0


From d71fb8ea32f272cb9ed6786bd4a47f22c06a8b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 013/137] fix: take a snapshot of raw data, of cells read from
 a file and of an engine in a wider shared state

---
 titus/genpy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 8e55e13..c1e60ce 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -38,11 +38,13 @@ import titus.reader
 import titus.signature
 import titus.util
 from titus.util import DynamicScope
+from titus.util import bytesToString
 import titus.version
 
 from titus.pfaast import EngineConfig
 from titus.pfaast import Cell as AstCell
 from titus.pfaast import Pool as AstPool
+from titus.pfaast import CellPoolSource
 from titus.pfaast import FcnDef
 from titus.pfaast import FcnRef
 from titus.pfaast import FcnRefFill
@@ -1634,8 +1636,8 @@ class PFAEngine(object):
         Note that you can call ``toJson`` on the ``EngineConfig`` to get a string that can be written to a PFA file.
         """
 
-        newCells = dict((k, AstCell(self.config.cells[k].avroPlaceholder, json.dumps(v.value), v.shared, v.rollback, v.source)) for k, v in list(self.cells.items()))
-        newPools = dict((k, AstPool(self.config.pools[k].avroPlaceholder, dict((kk, json.dumps(vv)) for kk, vv in list(v.value.items())), v.shared, v.rollback, v.source)) for k, v in list(self.pools.items()))
+        newCells = dict((k, AstCell(self.config.cells[k].avroPlaceholder, json.dumps(v.value, default=bytesToString), v.shared, v.rollback, CellPoolSource.EMBEDDED)) for k, v in list(self.cells.items()) if k in self.config.cells)
+        newPools = dict((k, AstPool(self.config.pools[k].avroPlaceholder, dict((kk, json.dumps(vv, default=bytesToString)) for kk, vv in list(v.value.items())), v.shared, v.rollback, CellPoolSource.EMBEDDED)) for k, v in list(self.pools.items()) if k in self.config.pools)
 
         return EngineConfig(
             self.config.name,
-- 
2.43.0


From 84ab8bc86c71f92aff0af5ea5eefa9e1d7fabbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 014/137] fix: a.median and a.ntile recognize floating point
 arrays by the name of the type, not the identity of the string

---
 titus/lib/array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/lib/array.py b/titus/lib/array.py
index 87c6f97..2ed8780 100644
--- a/titus/lib/array.py
+++ b/titus/lib/array.py
@@ -763,7 +763,7 @@ class Median(LibFcn):
 
         if len(sa) % 2:
             return sa[half]
-        if (dataType is "float") or (dataType is "double"):
+        if (dataType == "float") or (dataType == "double"):
             return (sa[half - 1] + sa[half])/2.0
         else:
             return sa[half - 1]
@@ -810,7 +810,7 @@ class NTile(LibFcn):
         k = (len(a) - 1.0)*p
         f = math.floor(k)
         dataType = paramTypes[-1]
-        if (dataType is "float") or (dataType is "double"):
+        if (dataType == "float") or (dataType == "double"):
             c = math.ceil(k)
             if f == c:
                 return sa[int(k)]
-- 
2.43.0


From b708c9ec3d81edf1c3599965800498fee41f388c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:53 +0000
Subject: [PATCH 015/137] fix: make non-finite floating point literals usable

---
 titus/genpy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/titus/genpy.py b/titus/genpy.py
index c1e60ce..ea89253 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1498,6 +1498,9 @@ class PFAEngine(object):
                    "checkData": titus.datatype.checkData,
                    # Python libraries
                    "math": math,
+                   # the representation of non-finite literals
+                   "nan": float("nan"),
+                   "inf": float("inf"),
                    }
 
         exec(code, sandbox)
-- 
2.43.0


From 07246037fc5b8808120f6285da1f6880e040b401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 016/137] fix: find the branch of an untagged union value the
 same way wherever it is compared, and report raw data that do not match

---
 titus/datatype.py | 67 ++++++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 35 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index bfb234d..549f2d8 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -958,7 +958,7 @@ def jsonDecoder(avroType, value):
                 elif isinstance(field.avroType, AvroNull):
                     out[field.name] = None
                 else:
-                    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value), ts(avroType)))
+                    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=bytesToString), ts(avroType)))
             return out
     elif isinstance(avroType, AvroUnion):
         if isinstance(value, dict) and len(value) == 1:
@@ -971,7 +971,7 @@ def jsonDecoder(avroType, value):
             return None
     else:
         raise Exception
-    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value), ts(avroType)))
+    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=bytesToString), ts(avroType)))
 
 def jsonEncoder(avroType, value, tagged=True):
     """Encode an object as JSON, given titus.datatype.AvroType.
@@ -1019,7 +1019,7 @@ def jsonEncoder(avroType, value, tagged=True):
             elif field.default is not None:
                 pass
             else:
-                raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value), ts(avroType)))
+                raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=bytesToString), ts(avroType)))
         return out
     elif isinstance(avroType, AvroUnion) and any(isinstance(t, AvroNull) for t in avroType.types) and value is None:
         return None
@@ -1049,7 +1049,32 @@ def jsonEncoder(avroType, value, tagged=True):
                     return {unionTag(t): out}
                 else:
                     return out
-    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value), ts(avroType)))
+    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=bytesToString), ts(avroType)))
+
+def unionBranch(avroType, value):
+    """Find the branch of a union that a value belongs to, whether the value is tagged or not.
+
+    :type avroType: titus.datatype.AvroUnion
+    :param avroType: the union
+    :type value: Pythonized JSON
+    :param value: the value, with or without the tag of its type
+    :rtype: (integer, titus.datatype.AvroType, Pythonized JSON)
+    :return: index of the branch, its type, and the value without the tag
+    """
+
+    if isinstance(value, dict) and len(value) == 1:
+        tag, = list(value.keys())
+        for index, t in enumerate(avroType.types):
+            if unionTag(t) == tag:
+                return index, t, value[tag]
+    for index, t in enumerate(avroType.types):
+        try:
+            jsonEncoder(t, value)
+        except titus.errors.AvroException:
+            pass
+        else:
+            return index, t, value
+    raise titus.errors.AvroException("{0} does not match schema {1}".format(repr(value), ts(avroType)))
 
 def compare(avroType, x, y):
     """Returns -1, 0, or 1 depending on whether x is less than, equal to, or greater than y, according to the schema.
@@ -1135,36 +1160,8 @@ def compare(avroType, x, y):
                     return comparison
         return 0
     elif isinstance(avroType, AvroUnion):
-        if isinstance(x, dict) and len(x) == 1:
-            (xtag, x), = list(x.items())
-            xtypei, xtype = [(ti, t) for ti, t in enumerate(avroType.types) if unionTag(t) == xtag][0]
-        else:
-            xtypei = None
-            for ti, t in enumerate(avroType.types):
-                try:
-                    jsonEncoder(t, x)
-                except titus.errors.AvroException:
-                    pass
-                else:
-                    xtypei = ti
-                    xtype = t
-            if xtypei is None:
-                raise titus.errors.AvroException()
-        if isinstance(y, dict) and len(y) == 1:
-            (ytag, y), = list(y.items())
-            ytypei, ytype = [(ti, t) for ti, t in enumerate(avroType.types) if unionTag(t) == ytag][0]
-        else:
-            ytypei = None
-            for ti, t in enumerate(avroType.types):
-                try:
-                    jsonEncoder(t, y)
-                except titus.errors.AvroException:
-                    pass
-                else:
-                    ytypei = ti
-                    ytype = t
-            if ytypei is None:
-                raise titus.errors.AvroException()
+        xtypei, xtype, x = unionBranch(avroType, x)
+        ytypei, ytype, y = unionBranch(avroType, y)
         if xtypei == ytypei:
             return compare(xtype, x, y)
         else:
@@ -1176,7 +1173,7 @@ def compare(avroType, x, y):
             else:
                 return 0
     else:
-        raise titus.errors.AvroException("{0} or {1} does not match schema {2}".format(json.dumps(x), json.dumps(y), ts(avroType)))
+        raise titus.errors.AvroException("{0} or {1} does not match schema {2}".format(json.dumps(x, default=bytesToString), json.dumps(y, default=bytesToString), ts(avroType)))
 
 ########################### check data value against type
 
-- 
2.43.0


From f2e371053f7f6c7ae05d6f139c29897952b8fae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 017/137] fix: merge union types without renaming their
 branches, so that tagged values still conform

---
 titus/signature.py | 46 +++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/titus/signature.py b/titus/signature.py
index 41f62e0..77758e1 100644
--- a/titus/signature.py
+++ b/titus/signature.py
@@ -41,6 +41,7 @@ from titus.datatype import AvroMap
 from titus.datatype import AvroRecord
 from titus.datatype import AvroField
 from titus.datatype import AvroUnion
+from titus.datatype import unionTag
 
 class IncompatibleTypes(Exception):
     """An internal Exception raised when signature matching needs to give up and return False.
@@ -171,24 +172,27 @@ class Lifespan(object):
 class LabelData(object):
     """Used internally to carry information about a label in a wildcard and how well it matches a prospective argument type."""
     @staticmethod
-    def distinctTypes(candidates, out = None):
-        if out is None:
-            out = []
+    def distinctTypes(candidates):
+        # members of unions are not widened to other branches: values might be tagged with their names
+        out = []
         for candidate in candidates:
-            if isinstance(candidate, AvroUnion):
-                out = LabelData.distinctTypes(candidate.types, out)
-            elif any(y.accepts(candidate) for y in out):
-                pass
-            else:
-                i = 0
-                for y in out:
-                    if candidate.accepts(y): break
-                    i += 1
-                if i == len(out):
-                    out.append(candidate)
+            inUnion = isinstance(candidate, AvroUnion)
+            for x in (candidate.types if inUnion else [candidate]):
+                if any(y.accepts(x) and (not inUnion or unionTag(y) == unionTag(x)) for y, yInUnion in out):
+                    continue
+                for i, (y, yInUnion) in enumerate(out):
+                    if x.accepts(y) and (not yInUnion or unionTag(y) == unionTag(x)):
+                        out[i] = (x, inUnion or yInUnion)
+                        break
                 else:
-                    out[i] = candidate
-        return out
+                    out.append((x, inUnion))
+        return [x for x, inUnion in out]
+
+    @staticmethod
+    def sameTags(union, candidates):
+        """Check that a union has all the branches that any other union in a set of types has."""
+        tags = set(unionTag(x) for x in union.types)
+        return all(tags.issuperset(set(unionTag(x) for x in candidate.types)) for candidate in candidates if isinstance(candidate, AvroUnion))
 
     @staticmethod
     def broadestType(candidates):
@@ -203,11 +207,15 @@ class LabelData(object):
         realCandidates = [x for x in candidates if not isinstance(x, ExceptionType)]
 
         if len(candidates) == 0:
-            return ValueError("empty list of types")
+            raise ValueError("empty list of types")
         elif len(realCandidates) == 0:
-            return ValueError("list of types consists only of exception type")
+            return candidates[0]
+
+        for x in realCandidates:
+            if isinstance(x, AvroUnion) and all(x.accepts(y) for y in realCandidates) and LabelData.sameTags(x, realCandidates):
+                return x
 
-        elif all(isinstance(x, AvroNull) for x in realCandidates):
+        if all(isinstance(x, AvroNull) for x in realCandidates):
             return realCandidates[0]
         elif all(isinstance(x, AvroBoolean) for x in realCandidates):
             return realCandidates[0]
-- 
2.43.0


From 5efd7ee0ef290382aacbab0e63f3b69fe547c436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 018/137] fix: an index or key that is not there is an error at
 any place of a path, and negative indexes do not count from the end

---
 titus/genpy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index ea89253..2a9ee3e 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -643,6 +643,8 @@ def get(obj, path, arrayErrCode, mapErrCode, fcnName, pos):
 
     while len(path) > 0:
         head, tail = path[0], path[1:]
+        if isinstance(obj, (list, tuple)) and head < 0:
+            raise PFARuntimeException("array index not found", arrayErrCode, fcnName, pos)
         try:
             obj = obj[head]
         except (KeyError, IndexError):
@@ -683,7 +685,7 @@ def update(state, scope, obj, path, to, arrayErrCode, mapErrCode, fcnName, pos):
         head, tail = path[0], path[1:]
 
         if isinstance(obj, dict):
-            if len(tail) > 0 and head not in obj:
+            if head not in obj:
                 raise PFARuntimeException("map key not found", mapErrCode, fcnName, pos)
             out = {}
             for k, v in list(obj.items()):
@@ -694,7 +696,7 @@ def update(state, scope, obj, path, to, arrayErrCode, mapErrCode, fcnName, pos):
             return out
 
         elif isinstance(obj, (list, tuple)):
-            if (len(tail) > 0 and head >= len(obj)) or head < 0:
+            if head >= len(obj) or head < 0:
                 raise PFARuntimeException("array index not found", arrayErrCode, fcnName, pos)
             out = []
             for i, x in enumerate(obj):
-- 
2.43.0


From 0a8300bc0e9b390b67828e0dbbf0a5e8fea25f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 019/137] fix: a time limit cannot be caught by try, and a
 filtered try passes on errors without a code

---
 titus/genpy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 2a9ee3e..0acdc05 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1296,8 +1296,10 @@ def tryCatch(state, scope, exprs, filter):
     """
     try:
         return exprs(state, scope)
+    except PFATimeoutException:
+        raise
     except Exception as err:
-        if filter is None or err.message in filter or err.code in filter:
+        if filter is None or getattr(err, "message", None) in filter or getattr(err, "code", None) in filter:
             return None
         else:
             raise err
-- 
2.43.0


From 652799935495308c261a9fe8e2fffcdbd408133b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 020/137] fix: one set can assign variables of different
 enclosing scopes

---
 titus/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/util.py b/titus/util.py
index f249227..7d30c59 100644
--- a/titus/util.py
+++ b/titus/util.py
@@ -148,7 +148,7 @@ class DynamicScope(object):
             if symbol in self.symbols:
                 self.symbols[symbol] = value
             elif self.parent is not None:
-                self.parent.set(nameExpr)
+                self.parent.set({symbol: value})
             else:
                 raise RuntimeError()
 
-- 
2.43.0


From 7ca0b21b0fa6659bef9f077ebb484c1a03844edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 021/137] fix: cast finds the case of untagged maps, containers
 of untagged values and cases that are unions

---
 titus/genpy.py | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 0acdc05..614d738 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -974,32 +974,29 @@ def cast(state, scope, expr, fromType, cases, partial, parser):
     for name, toType, clause in cases:
         toType = parser.getAvroType(toType)
 
-        if isinstance(fromType, titus.datatype.AvroUnion) and isinstance(expr, dict) and len(expr) == 1:
-            tag, = list(expr.keys())
-            value, = list(expr.values())
-
-            if not ((tag == titus.datatype.unionTag(toType)) or \
-                    (tag == "int" and toType.name in ("long", "float", "double")) or \
-                    (tag == "long" and toType.name in ("float", "double")) or \
-                    (tag == "float" and toType.name == "double")):
+        if isinstance(fromType, titus.datatype.AvroUnion):
+            index, branch, castValue = titus.datatype.unionBranch(fromType, expr)
+            if not toType.accepts(branch):
                 continue
-
+            if isinstance(toType, titus.datatype.AvroUnion) and castValue is not None:
+                castValue = {titus.datatype.unionTag(branch): castValue}
+            elif isinstance(toType, (titus.datatype.AvroFloat, titus.datatype.AvroDouble)):
+                castValue = float(castValue)
         else:
-            value = expr
+            try:
+                castValue = titus.datatype.jsonDecoder(toType, expr)
+            except (AvroException, TypeError):
+                continue
 
-        try:
-            castValue = titus.datatype.jsonDecoder(toType, value)
-        except (AvroException, TypeError):
-            pass
+        clauseScope = DynamicScope(scope)
+        clauseScope.let({name: castValue})
+        out = clause(state, clauseScope)
+
+        if partial:
+            return None
         else:
-            clauseScope = DynamicScope(scope)
-            clauseScope.let({name: castValue})
-            out = clause(state, clauseScope)
+            return out
 
-            if partial:
-                return None
-            else:
-                return out
     return None
             
 def wrapAsUnion(expr, typeName):
-- 
2.43.0


From 4610c40bad678f65fea3eb5398be916f801ae85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:24 +0000
Subject: [PATCH 022/137] fix: EngineConfig.collect and replace visit the merge
 section

They skipped it, so whatever is found or rewritten by collecting over a
document (such as the check for updates within updates) missed the merge
section of a fold engine.
---
 titus/pfaast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index f3159b1..aa89840 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -845,6 +845,7 @@ class EngineConfig(Ast):
                titus.util.flatten(x.collect(pf) for x in self.action) + \
                titus.util.flatten(x.collect(pf) for x in self.end) + \
                titus.util.flatten(x.collect(pf) for x in list(self.fcns.values())) + \
+               titus.util.flatten(x.collect(pf) for x in (self.merge if self.merge is not None else [])) + \
                titus.util.flatten(x.collect(pf) for x in list(self.cells.values())) + \
                titus.util.flatten(x.collect(pf) for x in list(self.pools.values()))
 
@@ -870,7 +871,7 @@ class EngineConfig(Ast):
                                 [x.replace(pf) for x in self.end],
                                 dict((k, v.replace(pf)) for k, v in list(self.fcns.items())),
                                 self.zero,
-                                self.merge,
+                                [x.replace(pf) for x in self.merge] if self.merge is not None else None,
                                 dict((k, v.replace(pf)) for k, v in list(self.cells.items())),
                                 dict((k, v.replace(pf)) for k, v in list(self.pools.items())),
                                 self.randseed,
-- 
2.43.0


From 82894b40ecdbe5e69a7a1d9f5959159068242960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:34 +0000
Subject: [PATCH 023/137] fix: call graph includes calls in attr expressions,
 call names and pool init

attr/attr-to dropped the calls made in the expression they look into,
call dropped those in its name expression and pool-to those in its init,
so a function was reported (and treated) as free of side effects when it
had some.
---
 titus/pfaast.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index aa89840..9806bbd 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -1840,7 +1840,7 @@ class CallUserFcn(Expression):
         scope = symbolTable.newScope(True, True)
         argResults = [x.walk(task, scope, functionTable, engineOptions, version) for x in self.args]
 
-        calls = set("u." + x for x in fcnNames)
+        calls = nameContext.calls.union(set("u." + x for x in fcnNames))
         argTypes = []
         for ctx, res in argResults:
             if isinstance(ctx, ExpressionContext):
@@ -3262,6 +3262,7 @@ class AttrGet(Expression, HasPath):
             raise PFASemanticException("expression is not an array, map, or record", self.pos)
 
         retType, calls, pathResult = self.walkPath(exprContext.retType, task, symbolTable, functionTable, engineOptions, version)
+        calls = calls.union(exprContext.calls)
         context = self.Context(retType, calls.union(set([self.desc])), exprResult, exprContext.retType, pathResult, self.pos)
         return context, task(context, engineOptions)
 
@@ -3374,6 +3375,7 @@ class AttrTo(Expression, HasPath):
             raise PFASemanticException("expression is not an array, map, or record", self.pos)
 
         setType, calls, pathResult = self.walkPath(exprContext.retType, task, symbolTable, functionTable, engineOptions, version)
+        calls = calls.union(exprContext.calls)
 
         toContext, toResult = self.to.walk(task, symbolTable, functionTable, engineOptions, version)
 
@@ -3851,6 +3853,7 @@ class PoolTo(Expression, HasPath):
         toContext, toResult = self.to.walk(task, symbolTable, functionTable, engineOptions, version)
 
         initContext, initResult = self.init.walk(task, symbolTable, functionTable, engineOptions, version)
+        calls = calls.union(initContext.calls)
 
         if not poolType.accepts(initContext.retType):
             raise PFASemanticException("pool has type {0} but attempting to init with type {1}".format(ts(poolType), ts(initContext.retType)), self.pos)
-- 
2.43.0


From e0ffebe67d6391b5e254db69aaa68e61e864ffad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 024/137] fix: refuse every update that can reach another
 update under the lock

The check looked only at direct calls in an inline function, so an update
reached through a function reference, a dynamic call, a pool deletion or a
filled argument was let through and the engine then waited forever for the
lock it was holding.
---
 titus/genpy.py  | 34 +++++++++-------------------------
 titus/pfaast.py |  2 ++
 2 files changed, 11 insertions(+), 25 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 614d738..17f79f5 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1330,34 +1330,18 @@ def checkForDeadlock(engineConfig, engine):
     If any function used as an updator eventually calls some other function that would update state, this function raises titus.errors.PFAInitializationException.
     """
 
-    class WithFcnRef(object):
-        def isDefinedAt(self, ast):
-            return isinstance(ast, (CellTo, PoolTo)) and isinstance(ast.to, (FcnRef, FcnRefFill))
-        def __call__(self, slotTo):
-            if engine.hasSideEffects(slotTo.to.name):
-                raise PFAInitializationException("{0} references function \"{1}\", which has side-effects".format(slotTo.desc, slotTo.to.name))
-    engineConfig.collect(WithFcnRef())
-
-    class CellToOrPoolTo(object):
-        def isDefinedAt(self, ast):
-            return isinstance(ast, (CellTo, PoolTo))
-        def __call__(self, slotTo):
-            raise PFAInitializationException("inline function in cell-to or pool-to invokes a " + slotTo.desc)
-
-    class SideEffectFunction(object):
-        def isDefinedAt(self, ast):
-            return isinstance(ast, Call) and engine.hasSideEffects(ast.name)
-        def __call__(self, call):
-            raise PFAInitializationException("inline function in cell-to or pool-to invokes function \"{0}\", which has side-effects".format(call.name))
+    changesState = set([CellTo.desc, PoolTo.desc, PoolDel.desc])
 
-    class WithFcnDef(object):
+    class WithUpdator(object):
         def isDefinedAt(self, ast):
-            return isinstance(ast, (CellTo, PoolTo)) and isinstance(ast.to, FcnDef)
+            return isinstance(ast, (CellTo, PoolTo)) and isinstance(ast.to, (FcnDef, FcnRef, FcnRefFill))
         def __call__(self, slotTo):
-            for x in slotTo.to.body:
-                x.collect(CellToOrPoolTo())
-                x.collect(SideEffectFunction())
-    engineConfig.collect(WithFcnDef())
+            for x in sorted(slotTo.toCalls):
+                if x in changesState:
+                    raise PFAInitializationException("function in {0} invokes a {1}".format(slotTo.desc, x))
+                elif engine.hasSideEffects(x):
+                    raise PFAInitializationException("function in {0} references function \"{1}\", which has side-effects".format(slotTo.desc, x))
+    engineConfig.collect(WithUpdator())
 
 class PFAEngine(object):
     """Base class for a Titus scoring engine.
diff --git a/titus/pfaast.py b/titus/pfaast.py
index 9806bbd..97da005 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -3608,6 +3608,7 @@ class CellTo(Expression, HasPath):
         setType, calls, pathResult = self.walkPath(cellType, task, symbolTable, functionTable, engineOptions, version)
 
         toContext, toResult = self.to.walk(task, symbolTable, functionTable, engineOptions, version)
+        self.toCalls = toContext.calls
 
         if isinstance(toContext, ExpressionContext):
             if not setType.accepts(toContext.retType):
@@ -3851,6 +3852,7 @@ class PoolTo(Expression, HasPath):
         setType, calls, pathResult = self.walkPath(AvroMap(poolType), task, symbolTable, functionTable, engineOptions, version)
 
         toContext, toResult = self.to.walk(task, symbolTable, functionTable, engineOptions, version)
+        self.toCalls = toContext.calls
 
         initContext, initResult = self.init.walk(task, symbolTable, functionTable, engineOptions, version)
         calls = calls.union(initContext.calls)
-- 
2.43.0


From c21916a0274d5d4827ae2ee1664120f6a5fe1bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 025/137] fix: model.reg.updateChi2 returns a new state and
 keeps DOF an integer

It changed the record that was passed to it, and so the cell or variable
that held it, and stored DOF as a floating point number.
---
 titus/lib/model/reg.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/titus/lib/model/reg.py b/titus/lib/model/reg.py
index 5e2a878..f250453 100644
--- a/titus/lib/model/reg.py
+++ b/titus/lib/model/reg.py
@@ -498,9 +498,7 @@ class UpdateChi2(LibFcn):
             return update(sum([y**2 for y in list(pull.values())]), state_)
 provide(UpdateChi2())
 def update(x, state_):
-    state_["chi2"] = float(state_["chi2"] + x)
-    state_["DOF"]  = float(state_["DOF"] + 1)
-    return state_
+    return dict(state_, chi2=float(state_["chi2"] + x), DOF=state_["DOF"] + 1)
 
 class ReducedChi2(LibFcn):
     name = prefix + "reducedChi2"
-- 
2.43.0


From 8b7ecc3210f4e4556167091de53b44c23de80560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 026/137] fix: references to generic functions and to emit

A reference to a function with generic parameters raised a bare Exception
instead of the semantic error, one to a function with a function parameter
a TypeError, and one to emit an AttributeError.
---
 titus/P.py      | 6 ++++--
 titus/genpy.py  | 3 +++
 titus/pfaast.py | 1 +
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/titus/P.py b/titus/P.py
index 5e534aa..5904e3d 100644
--- a/titus/P.py
+++ b/titus/P.py
@@ -358,9 +358,11 @@ def toType(pat):
     elif isinstance(pat, Record):
         return AvroRecord([AvroField(k, toType(v)) for k, v in list(pat.fields.items())])
 
-    elif isinstance(pat, Fcn): return FcnType([toType(x) for x in pat.params()], toType(pat.ret()))
+    elif isinstance(pat, Fcn): return FcnType([toType(x) for x in pat.params], toType(pat.ret))
 
-    else: raise Exception
+    else:
+        from titus.signature import IncompatibleTypes
+        raise IncompatibleTypes("pattern is not a type: " + repr(pat))
 
 def fromType(t, memo=None):
     """Convert a type to a pattern.
diff --git a/titus/genpy.py b/titus/genpy.py
index 17f79f5..03ffbf6 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1317,6 +1317,9 @@ class FakeEmitForExecution(titus.fcn.Fcn):
     def __init__(self, engine):
         self.engine = engine
 
+    def __call__(self, state, scope, pos, paramTypes, x):
+        self.engine.emit(x)
+
 def genericEmit(x):
     """Generic emit function for use in PFAEngine.emit.
 
diff --git a/titus/pfaast.py b/titus/pfaast.py
index 97da005..5580196 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -349,6 +349,7 @@ class EmitFcn(Fcn):
         """:type outputType: titus.datatype.AvroType
         :param outputType: output type of the PFA document, which is also the signature of the ``emit`` function
         """
+        self.name = "emit"
         self.sig = Sig([{"output": P.fromType(outputType)}], P.Null())
 
     def genpy(self, paramTypes, args, pos=None):
-- 
2.43.0


From 92ae6dc1ba840c115339b6b8b4ee7f6934ed9b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 027/137] fix: obey time limits in recursive functions and in
 callbacks of library functions

---
 titus/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/titus/util.py b/titus/util.py
index 7d30c59..688215c 100644
--- a/titus/util.py
+++ b/titus/util.py
@@ -155,7 +155,7 @@ class DynamicScope(object):
 def callfcn(state, scope, fcn, args):
     """Helper function for calling function callbacks.
 
-    Used in library functions that have been given functions as arguments.
+    Used in library functions that have been given functions as arguments. Calls ``state.checkTime()`` before every call.
 
     :type state: titus.genpy.ExecutionState
     :param state: execution state
@@ -169,6 +169,8 @@ def callfcn(state, scope, fcn, args):
     :return: whatever ``fcn`` returns
     """
 
+    state.checkTime()
+
     if hasattr(fcn, "paramNames"):
         callScope = DynamicScope(scope)
         if isinstance(args, (tuple, list)):
-- 
2.43.0


From 91654639e62c82cc8d663d12f60db3610ccf9a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 028/137] fix: report invalid symbol and function names as
 syntax errors

---
 titus/reader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/titus/reader.py b/titus/reader.py
index 881e38a..9457806 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -724,13 +724,13 @@ def _readArgument(data, dot, avroTypeBuilder):
                     _callArgs = [_readArgument(data[key], dot + " -> " + key, avroTypeBuilder)]
 
         if "foreach" in keys and not validSymbolName(_foreach):
-            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(data[keys]), pos(dot, at))
+            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(_foreach), pos(dot, at))
         if "forkey" in keys and not validSymbolName(_forkey):
-            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(data[keys]), pos(dot, at))
+            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(_forkey), pos(dot, at))
         if "forval" in keys and not validSymbolName(_forval):
-            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(data[keys]), pos(dot, at))
+            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(_forval), pos(dot, at))
         if "fcn" in keys and not validFunctionName(_fcnref):
-            raise PFASyntaxException("\"{0}\" is not a valid function name".format(data[keys]), pos(dot, at))
+            raise PFASyntaxException("\"{0}\" is not a valid function name".format(_fcnref), pos(dot, at))
 
         if keys == set(["int"]):                             return LiteralInt(_int, pos(dot, at))
         elif keys == set(["long"]):                          return LiteralLong(_long, pos(dot, at))
-- 
2.43.0


From 0bd90dc2d6881c5f933813107b5ce0b2e74a51d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 029/137] fix: look up map types as maps, so that unions with
 maps can be cast

---
 titus/datatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 549f2d8..47f244b 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -807,7 +807,7 @@ class ForwardDeclarationParser(object):
             elif description.get("type") == "array" and "items" in description:
                 return AvroArray(self.getAvroType(description["items"]))
             elif description.get("type") == "map" and "values" in description:
-                return AvroArray(self.getAvroType(description["values"]))
+                return AvroMap(self.getAvroType(description["values"]))
             elif description.get("type") in ("fixed", "enum", "record"):
                 if self.names.has_name(description.get("name"), description.get("namespace")):
                     return schemaToAvroType(self.names.get_name(description.get("name"), description.get("namespace")))
-- 
2.43.0


From 0159c102b90427ffa29320d3a3f1e898afbb1add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 030/137] fix: acceptance, equality and printing of types with
 namespaces, null defaults and functions

---
 titus/P.py        |  6 ++++--
 titus/datatype.py | 14 +++++++-------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/titus/P.py b/titus/P.py
index 5904e3d..9ca8504 100644
--- a/titus/P.py
+++ b/titus/P.py
@@ -404,8 +404,10 @@ def fromType(t, memo=None):
             return Record({}, t.name)
         else:
             return Record(dict((f.name, fromType(f.avroType, memo.union(set([t.name])))) for f in t.fields), t.name)
-    elif isinstance(t, FcnType): return Fcn([fromType(x, memo) for x in t.params()], fromType(t.ret(), memo))
-    elif isinstance(t, ExceptionType): raise IncompatibleTypes("exception type cannot be used in argument patterns")
+    elif isinstance(t, FcnType): return Fcn([fromType(x, memo) for x in t.params], fromType(t.ret, memo))
+    elif isinstance(t, ExceptionType):
+        from titus.signature import IncompatibleTypes
+        raise IncompatibleTypes("exception type cannot be used in argument patterns")
 
 def mustBeAvro(t):
     """Raise a ``TypeError`` if a given titus.datatype.Type is not a titus.datatype.AvroType; otherwise, pass through.
diff --git a/titus/datatype.py b/titus/datatype.py
index 47f244b..5cdfa25 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -55,7 +55,7 @@ class FcnType(Type):
         return self._ret
 
     def accepts(self, other):
-        if isinstance(self, FcnType):
+        if isinstance(other, FcnType):
             return len(self.params) == len(other.params) and \
                    all(y.accepts(x) for x, y in zip(self.params, other.params)) and \
                    self.ret.accepts(other.ret)
@@ -192,7 +192,7 @@ class AvroType(Type):
 
     def _recordFieldsOkay(self, other, memo, checkRecord):
         for xf in self.fields:
-            if xf.default is None:
+            if not xf.schema.has_default:
                 if not any(xf.name == yf.name and xf.avroType.accepts(yf.avroType, memo, checkRecord) for yf in other.fields):
                     return False
             else:
@@ -561,7 +561,7 @@ class AvroUnion(AvroType):
         :type types: list of titus.datatype.AvroType
         :param types: possible types for this union in the order of their resolution
         """
-        names = set([x.name for x in types])
+        names = set([unionTag(x) for x in types])
         if len(types) != len(names):
             raise titus.errors.AvroException("duplicate in union: " + ", ".join(map(ts, types)))
         if "union" in names:
@@ -626,7 +626,7 @@ class AvroField(object):
     def jsonNode(self, memo):
         """Get the field as a Python-encoded JSON node."""
         out = {"name": self.name, "type": self.avroType.jsonNode(memo)}
-        if self.default is not None:
+        if self.schema.has_default:
             out["default"] = self.default
         if self.order is not None:
             out["order"] = self.order
@@ -668,13 +668,13 @@ class AvroPlaceholder(object):
         """Represent the resolved type as a JSON string."""
         return json.dumps(self.jsonNode())
 
-    def jsonNode(self, memo=set()):
+    def jsonNode(self, memo=None):
         """Represent the resolved type as a Jackson node.
 
         :type memo: set of strings
         :param memo: used to avoid infinite loops with recursive records
         """
-        return self.avroType.jsonNode(memo)
+        return self.avroType.jsonNode(set() if memo is None else memo)
 
     @property
     def parser(self):
@@ -713,7 +713,7 @@ class ForwardDeclarationParser(object):
 
     @property
     def compiledTypes(self):
-        return [x for x in self.lookupTable if isinstance(x, (AvroFixed, AvroRecord, AvroEnum))]
+        return [x for x in list(self.lookupTable.values()) if isinstance(x, (AvroFixed, AvroRecord, AvroEnum))]
 
     def parse(self, jsonStrings):
         schemae = {}
-- 
2.43.0


From 9f2afc84c00a94211f5627ebe3ac19e5c4aa87ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 031/137] fix: read the JSON text of a type and refuse merging
 two array or map branches

A type given as JSON text raised a parse exception for its characters, and
merging an array or map with a union that holds another one leaked an
AvroException instead of IncompatibleTypes.
---
 titus/datatype.py  | 6 +++++-
 titus/signature.py | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 5cdfa25..28be0bd 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -762,7 +762,11 @@ class ForwardDeclarationParser(object):
 
     def getAvroType(self, description):
         if isinstance(description, str):
-            if self.names.has_name(description, None):
+            try:
+                known = self.names.has_name(description, None)
+            except avro.schema.SchemaParseException:    # not a name: JSON text
+                known = False
+            if known:
                 return schemaToAvroType(self.names.get_name(description, None))
             elif description == "null":
                 return AvroNull()
diff --git a/titus/signature.py b/titus/signature.py
index 77758e1..577dffe 100644
--- a/titus/signature.py
+++ b/titus/signature.py
@@ -286,6 +286,8 @@ class LabelData(object):
                 raise IncompatibleTypes("incompatible fixed types")
             if countEnum > 1:
                 raise IncompatibleTypes("incompatible enum types")
+            if len(set(unionTag(t) for t in types)) != len(types):
+                raise IncompatibleTypes("incompatible types: " + " ".join(map(repr, types)))
 
             return AvroUnion(types)
 
-- 
2.43.0


From 50eca1d08462f6becdf8e4ac338f340bb869b171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 032/137] fix: read aliases, explicit tags and plain scalars of
 YAML documents as they stand, and keep the url of embedded sources

---
 titus/reader.py | 67 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 19 deletions(-)

diff --git a/titus/reader.py b/titus/reader.py
index 9457806..2f64c61 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -122,34 +122,53 @@ def yamlToAst(yamlInput):
     """
     import yaml
 
+    anchors = {}
+
+    def scalar(event):
+        if event.tag == "tag:yaml.org,2002:str" or (event.tag in (None, "!") and not event.implicit[0]):
+            return event.value
+        elif event.value in ("yes", "Yes", "YES", "true", "True", "TRUE", "on", "On", "ON"):
+            return True
+        elif event.value in ("no", "No", "NO", "false", "False", "FALSE", "off", "Off", "OFF"):
+            return False
+        elif event.value in ("null", "Null", "NULL"):
+            return None
+        elif event.value.lower() in (".inf", "+.inf", "-.inf", ".nan"):
+            return float(event.value.replace(".", ""))
+        elif not re.match(r"^[-+]?\.?[0-9]", event.value):       # such as the word "nan"
+            return event.value
+        else:
+            try:
+                return int(event.value)
+            except ValueError:
+                try:
+                    return float(event.value)
+                except ValueError:
+                    return event.value
+
     def read(parser):
         try:
             while True:
                 event = next(parser)
         
-                if isinstance(event, yaml.ScalarEvent):
-                    if not event.implicit[0]:
-                        return event.value
-                    elif event.value in ("yes", "Yes", "YES", "true", "True", "TRUE", "on", "On", "ON"):
-                        return True
-                    elif event.value in ("no", "No", "NO", "false", "False", "FALSE", "off", "Off", "OFF"):
-                        return False
-                    elif event.value in ("null", "Null", "NULL"):
-                        return None
-                    else:
-                        try:
-                            return int(event.value)
-                        except ValueError:
-                            try:
-                                return float(event.value)
-                            except ValueError:
-                                return event.value
+                if isinstance(event, yaml.AliasEvent):
+                    if event.anchor not in anchors:
+                        raise PFASyntaxException("undefined YAML alias \"{0}\"".format(event.anchor), "line {0}".format(event.end_mark.line))
+                    return anchors[event.anchor]
+
+                elif isinstance(event, yaml.ScalarEvent):
+                    out = scalar(event)
+                    if event.anchor is not None:
+                        anchors[event.anchor] = out
+                    return out
 
                 elif isinstance(event, yaml.SequenceStartEvent):
                     out = []
                     while True:
                         item = read(parser)
                         if isinstance(item, yaml.SequenceEndEvent):
+                            if event.anchor is not None:
+                                anchors[event.anchor] = out
                             return out
                         elif isinstance(item, yaml.events.Event):
                             raise PFASyntaxException("malformed YAML", "line {0}".format(event.end_mark.line))
@@ -168,6 +187,8 @@ def yamlToAst(yamlInput):
                             else:
                                 out["@"] = "YAML lines {0}-{1}".format(startLine, endLine)
 
+                            if event.anchor is not None:
+                                anchors[event.anchor] = out
                             return out
 
                         elif isinstance(key, yaml.events.Event):
@@ -901,6 +922,7 @@ def _readCell(data, dot, avroTypeBuilder):
                 def getit(avroType):
                     reader = DataFileReader(urllib.request.urlopen(url), DatumReader())
                     return reader.read()
+                getit.url = url
                 _init = getit
 
             elif _source == "json":
@@ -912,6 +934,7 @@ def _readCell(data, dot, avroTypeBuilder):
                         return urllib.request.urlopen(url).read()
                     else:
                         return open(url).read()
+                getit.url = url
                 _init = getit
                 
             elif _source == "embedded":
@@ -949,12 +972,16 @@ def _readPool(data, dot, avroTypeBuilder):
         keys = set(x for x in list(data.keys()) if x != "@")
         for key in keys:
             if key == "type": _avroType = _readAvroPlaceholder(data[key], dot + " -> " + key, avroTypeBuilder)
-            elif key == "init": _init = _readJsonToStringMap(data[key], dot + " -> " + key)
+            elif key == "init":
+                if data.get("source", "embedded") == "embedded":
+                    _init = _readJsonToStringMap(data[key], dot + " -> " + key)
+                else:
+                    _init = _readJsonToString(data[key], dot + " -> " + key)
             elif key == "shared": _shared = _readBoolean(data[key], dot + " -> " + key)
             elif key == "rollback": _rollback = _readBoolean(data[key], dot + " -> " + key)
             elif key == "source": _source = _readString(data[key], dot + " -> " + key)
 
-        if ("type" not in keys) or (not keys.issubset(set(["type", "init", "shared", "rollback", "source"]))):
+        if ("type" not in keys) or (not keys.issubset(set(["type", "init", "shared", "rollback", "source"]))) or ("init" not in keys and _source != "embedded"):
             raise PFASyntaxException("wrong set of fields for a pool: " + ", ".join(keys), pos(dot, at))
         else:
             if _source == "avro":
@@ -964,6 +991,7 @@ def _readPool(data, dot, avroTypeBuilder):
                 def getit(avroType):
                     reader = DataFileReader(urllib.request.urlopen(url), DatumReader())
                     return reader.read()
+                getit.url = url
                 _init = getit
 
             elif _source == "json":
@@ -975,6 +1003,7 @@ def _readPool(data, dot, avroTypeBuilder):
                         return urllib.request.urlopen(url).read()
                     else:
                         return open(url).read()
+                getit.url = url
                 _init = getit
                 
             elif _source == "embedded":
-- 
2.43.0


From ab4dae5e7cbe1a1d6bef8f04f6b681122410aba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 033/137] fix: write the source of cells and pools back as it
 was read, and start pools from a json source

---
 titus/pfaast.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index 5580196..2cb8d62 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -1197,7 +1197,7 @@ class Cell(Ast):
         """
         out = self.startDict(lineNumbers)
         out["type"] = self.avroPlaceholder.jsonNode(memo)
-        out["init"] = self.initJsonNode
+        out["init"] = self.init.url if hasattr(self.init, "url") else self.initJsonNode
         out["shared"] = self.shared
         out["rollback"] = self.rollback
         if self.source != CellPoolSource.EMBEDDED:
@@ -1232,7 +1232,7 @@ class Pool(Ast):
         if not isinstance(avroPlaceholder, (AvroPlaceholder, AvroType)):
             raise PFASyntaxException("\"avroPlaceholder\" must be an AvroPlaceholder or AvroType", pos)
 
-        if not isinstance(init, dict) or not all(isinstance(x, str) or x is None for x in list(init.values())):
+        if not callable(init) and (not isinstance(init, dict) or not all(isinstance(x, str) or x is None for x in list(init.values()))):
             raise PFASyntaxException("\"init\" must be a string or callable", pos)
 
         if not isinstance(shared, bool):
@@ -1297,7 +1297,7 @@ class Pool(Ast):
         """
         out = self.startDict(lineNumbers)
         out["type"] = self.avroPlaceholder.jsonNode(memo)
-        out["init"] = self.initJsonNode
+        out["init"] = self.init.url if hasattr(self.init, "url") else self.initJsonNode
         out["shared"] = self.shared
         out["rollback"] = self.rollback
         if self.source != CellPoolSource.EMBEDDED:
-- 
2.43.0


From ed45327fd4046c7d2cf4ca7e133ae5d583a0971e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:06 +0000
Subject: [PATCH 034/137] fix: link functions, metrics, kernels and models give
 infinity instead of failing beyond the range of doubles

---
 titus/lib/core.py           |  9 +++++++++
 titus/lib/interp.py         |  3 ++-
 titus/lib/kernel.py         |  6 +++---
 titus/lib/link.py           | 29 +++++++++++------------------
 titus/lib/metric.py         | 12 ++++++------
 titus/lib/model/cluster.py  |  5 +++--
 titus/lib/model/naive.py    |  5 +++--
 titus/lib/model/neighbor.py |  5 +++--
 titus/lib/model/reg.py      |  5 +++--
 titus/lib/stat/pfatest.py   |  5 +++--
 10 files changed, 46 insertions(+), 38 deletions(-)

diff --git a/titus/lib/core.py b/titus/lib/core.py
index f1c0c2c..d21eacb 100644
--- a/titus/lib/core.py
+++ b/titus/lib/core.py
@@ -194,6 +194,15 @@ def powLikeJava(x, y):
                 else:
                     return float("inf")
 
+def expLikeJava(x):
+    try:
+        return math.exp(x)
+    except OverflowError:
+        return float("inf")
+
+def squareLikeJava(x):
+    return x * x
+
 class Pow(LibFcn):
     name = "**"
     sig = Sig([{"x": P.Wildcard("A", anyNumber)}, {"y": P.Wildcard("A")}], P.Wildcard("A"))
diff --git a/titus/lib/interp.py b/titus/lib/interp.py
index 37a7fe7..27edfb2 100644
--- a/titus/lib/interp.py
+++ b/titus/lib/interp.py
@@ -27,6 +27,7 @@ from titus.datatype import *
 from titus.errors import *
 from titus.util import callfcn
 from titus.util import div
+from titus.lib.core import squareLikeJava
 import titus.P as P
 
 def np():
@@ -99,7 +100,7 @@ class Nearest(LibFcn):
                 x = item["x"]
                 if len(x) != len(datum):
                     raise PFARuntimeException("inconsistent dimensionality", self.errcodeBase + 1, self.name, pos)
-                d = sum((x0i - xi)**2 for x0i, xi in zip(datum, x))
+                d = sum(squareLikeJava(x0i - xi) for x0i, xi in zip(datum, x))
                 if one is None or d < oned:
                     one = item
                     oned = d
diff --git a/titus/lib/kernel.py b/titus/lib/kernel.py
index 5eea3c0..3a8fc46 100644
--- a/titus/lib/kernel.py
+++ b/titus/lib/kernel.py
@@ -28,7 +28,7 @@ from titus.errors import *
 from titus.util import callfcn, div
 import titus.P as P
 from titus.lib.array import argLowestN
-from titus.lib.core import powLikeJava
+from titus.lib.core import powLikeJava, expLikeJava, squareLikeJava
 
 provides = {}
 def provide(fcn):
@@ -53,8 +53,8 @@ class RBF(LibFcn):
     def __call__(self, state, scope, pos, paramTypes, x, y, gamma):
         if len(x) != len(y):
             raise PFARuntimeException("arrays must have same length", self.errcodeBase + 0, self.name, pos)
-        diff = [abs(i - j)**2 for i,j in zip(x,y)]
-        return math.exp(-gamma*sum(diff))
+        diff = [squareLikeJava(i - j) for i,j in zip(x,y)]
+        return expLikeJava(-gamma*sum(diff))
 provide(RBF())
 
 class Linear(LibFcn):
diff --git a/titus/lib/link.py b/titus/lib/link.py
index 5fb1311..9c695f9 100644
--- a/titus/lib/link.py
+++ b/titus/lib/link.py
@@ -26,6 +26,7 @@ from titus.signature import Sigs
 from titus.datatype import *
 from titus.errors import *
 from titus.util import callfcn, div
+from titus.lib.core import expLikeJava
 import titus.P as P
 from titus.lib.array import argLowestN
 from titus.lib.prob.dist import Chi2Distribution
@@ -48,23 +49,15 @@ class SoftMax(LibFcn):
             raise PFARuntimeException("empty input", self.errcodeBase + 0, self.name, pos)
         if paramTypes[0]["type"] == "map":
             xx = x.copy()
-            tmp = list(map(abs, list(xx.values())))
-            if list(xx.values())[tmp.index(max(tmp))] >= 0:
-                m = max(xx.values())
-            else:
-                m = min(xx.values())
-            denom = sum([math.exp(v - m) for v in list(x.values())])
+            m = max(xx.values())
+            denom = sum([expLikeJava(v - m) for v in list(x.values())])
             for key in list(x.keys()):
-                xx[key] = float(math.exp(xx[key] - m)/denom)
+                xx[key] = float(expLikeJava(xx[key] - m)/denom)
             return xx
         else:
-            tmp = list(map(abs, x))
-            if x[tmp.index(max(tmp))] >= 0:
-                m = max(x)
-            else:
-                m = min(x)
-            denom = sum([math.exp(v - m) for v in x])
-            return [float(math.exp(val - m)/denom) for val in x]
+            m = max(x)
+            denom = sum([expLikeJava(v - m) for v in x])
+            return [float(expLikeJava(val - m)/denom) for val in x]
 provide(SoftMax())
 
 def unwrapForNorm(x, func):
@@ -88,7 +81,7 @@ class Logit(LibFcn):
                  Sig([{"x": P.Double()}], P.Double())])
     errcodeBase = 25010
     def __call__(self, state, scope, pos, paramTypes, x):
-        return unwrapForNorm(x, lambda y: 1./(1. + math.exp(-y)))
+        return unwrapForNorm(x, lambda y: 1./(1. + expLikeJava(-y)))
 provide(Logit())
 
 class Probit(LibFcn):
@@ -108,7 +101,7 @@ class CLoglog(LibFcn):
                  Sig([{"x": P.Double()}], P.Double())])
     errcodeBase = 25030
     def __call__(self, state, scope, pos, paramTypes, x):
-        return unwrapForNorm(x, lambda y: 1. - math.exp(-math.exp(y)))
+        return unwrapForNorm(x, lambda y: 1. - expLikeJava(-expLikeJava(y)))
 provide(CLoglog())
 
 class LogLog(LibFcn):
@@ -118,7 +111,7 @@ class LogLog(LibFcn):
                  Sig([{"x": P.Double()}], P.Double())])
     errcodeBase = 25040
     def __call__(self, state, scope, pos, paramTypes, x):
-        return unwrapForNorm(x, lambda y: math.exp(-math.exp(y)))
+        return unwrapForNorm(x, lambda y: expLikeJava(-expLikeJava(y)))
 provide(LogLog())
 
 class Cauchit(LibFcn):
@@ -138,7 +131,7 @@ class Softplus(LibFcn):
                  Sig([{"x": P.Double()}], P.Double())])
     errcodeBase = 25060
     def __call__(self, state, scope, pos, paramTypes, x):
-        return unwrapForNorm(x, lambda y: math.log(1.0 + math.exp(y)))
+        return unwrapForNorm(x, lambda y: y if y > 700.0 else math.log(1.0 + expLikeJava(y)))
 provide(Softplus())
 
 class ReLu(LibFcn):
diff --git a/titus/lib/metric.py b/titus/lib/metric.py
index 71aa073..cbe474c 100644
--- a/titus/lib/metric.py
+++ b/titus/lib/metric.py
@@ -28,7 +28,7 @@ from titus.datatype import *
 from titus.errors import *
 from titus.util import callfcn
 from titus.util import div
-from titus.lib.core import powLikeJava
+from titus.lib.core import powLikeJava, expLikeJava, squareLikeJava
 import titus.P as P
 
 provides = {}
@@ -44,7 +44,7 @@ class SimpleEuclidean(LibFcn):
     def __call__(self, state, scope, pos, paramTypes, x, y):
         if len(x) != len(y):
             raise PFARuntimeException("dimensions of vectors do not match", self.errcodeBase + 0, self.name, pos)
-        return math.sqrt(sum(((xi - yi)**2 for xi, yi in zip(x, y))))
+        return math.sqrt(sum((squareLikeJava(xi - yi) for xi, yi in zip(x, y))))
 provide(SimpleEuclidean())
 
 class AbsDiff(LibFcn):
@@ -60,7 +60,7 @@ class GaussianSimilarity(LibFcn):
     sig = Sig([{"x": P.Double()}, {"y": P.Double()}, {"sigma": P.Double()}], P.Double())
     errcodeBase = 28020
     def __call__(self, state, scope, pos, paramTypes, x, y, sigma):
-        return math.exp(div(-math.log(2) * (x - y)**2, sigma**2))
+        return expLikeJava(div(-math.log(2) * squareLikeJava(x - y), squareLikeJava(sigma)))
 provide(GaussianSimilarity())
 
 class MetricWithMissingValues(LibFcn):
@@ -97,9 +97,9 @@ class Euclidean(MetricWithMissingValues):
         ])
     errcodeBase = 28030
     def increment(self, tally, x):
-        return tally + x**2
+        return tally + squareLikeJava(x)
     def finalize(self, x):
-        return math.sqrt(x)
+        return float("nan") if x < 0.0 else math.sqrt(x)
 provide(Euclidean())
 
 class SquaredEuclidean(MetricWithMissingValues):
@@ -110,7 +110,7 @@ class SquaredEuclidean(MetricWithMissingValues):
         ])
     errcodeBase = 28040
     def increment(self, tally, x):
-        return tally + x**2
+        return tally + squareLikeJava(x)
     def finalize(self, x):
         return x
 provide(SquaredEuclidean())
diff --git a/titus/lib/model/cluster.py b/titus/lib/model/cluster.py
index ae2a17f..785abea 100644
--- a/titus/lib/model/cluster.py
+++ b/titus/lib/model/cluster.py
@@ -24,6 +24,7 @@ from titus.signature import Sigs
 from titus.datatype import *
 from titus.errors import *
 from titus.util import callfcn, div
+from titus.lib.core import squareLikeJava
 import titus.P as P
 from titus.lib.array import argLowestN
 
@@ -48,7 +49,7 @@ class Closest(LibFcn):
             metric, = args
             distances = [callfcn(state, scope, metric, [datum, x["center"]]) for x in clusters]
         else:
-            distances = [sum((di - xi)**2 for di, xi in zip(datum, x["center"])) for x in clusters]
+            distances = [sum(squareLikeJava(di - xi) for di, xi in zip(datum, x["center"])) for x in clusters]
         index, = argLowestN(distances, 1, lambda a, b: a < b)
         return clusters[index]
 provide(Closest())
@@ -66,7 +67,7 @@ class ClosestN(LibFcn):
             metric, = args
             distances = [callfcn(state, scope, metric, [datum, x["center"]]) for x in clusters]
         else:
-            distances = [sum((di - xi)**2 for di, xi in zip(datum, x["center"])) for x in clusters]
+            distances = [sum(squareLikeJava(di - xi) for di, xi in zip(datum, x["center"])) for x in clusters]
         indexes = argLowestN(distances, n, lambda a, b: a < b)
         return [clusters[i] for i in indexes]
 provide(ClosestN())
diff --git a/titus/lib/model/naive.py b/titus/lib/model/naive.py
index c26620f..e8ca653 100644
--- a/titus/lib/model/naive.py
+++ b/titus/lib/model/naive.py
@@ -24,6 +24,7 @@ from titus.signature import Sigs
 from titus.datatype import *
 from titus.errors import *
 from titus.util import callfcn, div
+from titus.lib.core import squareLikeJava
 import titus.P as P
 import math
 tiny = 2.2250738585072014e-308
@@ -51,7 +52,7 @@ class Gaussian(LibFcn):
                 if vari <= 0.0:
                     raise PFARuntimeException("variance less than or equal to zero", self.errcodeBase + 1, self.name, pos)
                 ll += -0.5*math.log(2.*math.pi * vari)
-                ll += -0.5*((x - mu)**2 / vari)
+                ll += -0.5*(squareLikeJava(x - mu) / vari)
             return ll
         else:
             datumkeys = list(datum.keys())
@@ -65,7 +66,7 @@ class Gaussian(LibFcn):
                 if vari <= 0.0:
                     raise PFARuntimeException("variance less than or equal to zero", self.errcodeBase + 1, self.name, pos)
                 ll += -0.5*math.log(2.*math.pi * vari)
-                ll += -0.5*((x - mu)**2 / vari)
+                ll += -0.5*(squareLikeJava(x - mu) / vari)
             return ll
 provide(Gaussian())
 
diff --git a/titus/lib/model/neighbor.py b/titus/lib/model/neighbor.py
index 5a6865e..341ef58 100644
--- a/titus/lib/model/neighbor.py
+++ b/titus/lib/model/neighbor.py
@@ -26,6 +26,7 @@ from titus.signature import Sigs
 from titus.datatype import *
 from titus.errors import *
 from titus.util import callfcn, div
+from titus.lib.core import squareLikeJava
 import titus.P as P
 from titus.lib.array import argLowestN
 
@@ -94,7 +95,7 @@ class NearestK(LibFcn):
                 for x in codebook:
                     if len(x) != dimensions:
                         raise PFARuntimeException("inconsistent dimensionality", self.errcodeBase + 1, self.name, pos)
-            distances = [sum((di - xi)**2 for di, xi in zip(datum, x)) for x in codebook]
+            distances = [sum(squareLikeJava(di - xi) for di, xi in zip(datum, x)) for x in codebook]
 
         indexes = argLowestN(distances, k, lambda a, b: a < b)
         return [codebook[i] for i in indexes]
@@ -112,6 +113,6 @@ class BallR(LibFcn):
             metric, = args
             distances = [callfcn(state, scope, metric, [datum, x]) for x in codebook]
         else:
-            distances = [math.sqrt(sum((di - xi)**2 for di, xi in zip(datum, x))) for x in codebook]
+            distances = [math.sqrt(sum(squareLikeJava(di - xi) for di, xi in zip(datum, x))) for x in codebook]
         return [x for x, d in zip(codebook, distances) if d < r]
 provide(BallR())
diff --git a/titus/lib/model/reg.py b/titus/lib/model/reg.py
index f250453..e75caa4 100644
--- a/titus/lib/model/reg.py
+++ b/titus/lib/model/reg.py
@@ -32,6 +32,7 @@ from titus.signature import PFAVersion
 from titus.datatype import *
 from titus.errors import *
 from titus.util import callfcn, div, flatten
+from titus.lib.core import squareLikeJava
 import titus.P as P
 from titus.lib.array import argLowestN
 from titus.lib.prob.dist import Chi2Distribution
@@ -493,9 +494,9 @@ class UpdateChi2(LibFcn):
         if isinstance(pull, float):
             return update(pull*pull, state_)
         elif isinstance(pull, (tuple, list)):
-            return update(sum([y**2 for y in pull]), state_)
+            return update(sum([squareLikeJava(y) for y in pull]), state_)
         else:
-            return update(sum([y**2 for y in list(pull.values())]), state_)
+            return update(sum([squareLikeJava(y) for y in list(pull.values())]), state_)
 provide(UpdateChi2())
 def update(x, state_):
     return dict(state_, chi2=float(state_["chi2"] + x), DOF=state_["DOF"] + 1)
diff --git a/titus/lib/stat/pfatest.py b/titus/lib/stat/pfatest.py
index c96a257..20b6a2e 100644
--- a/titus/lib/stat/pfatest.py
+++ b/titus/lib/stat/pfatest.py
@@ -30,6 +30,7 @@ from titus.signature import Sigs
 from titus.datatype import *
 from titus.errors import *
 from titus.util import div
+from titus.lib.core import squareLikeJava
 from titus.lib.core import INT_MIN_VALUE, INT_MAX_VALUE, LONG_MIN_VALUE, LONG_MAX_VALUE
 import titus.P as P
 from titus.lib.prob.dist import Chi2Distribution
@@ -184,9 +185,9 @@ class UpdateChi2(LibFcn):
         if isinstance(pull, float):
             return dict(state_, chi2=(state_["chi2"] + pull*pull), dof=(state_["dof"] + 1))
         elif isinstance(pull, (tuple, list)):
-            return dict(state_, chi2=(state_["chi2"] + sum([y**2 for y in pull])), dof=(state_["dof"] + 1))
+            return dict(state_, chi2=(state_["chi2"] + sum([squareLikeJava(y) for y in pull])), dof=(state_["dof"] + 1))
         else:
-            return dict(state_, chi2=(state_["chi2"] + sum([y**2 for y in list(pull.values())])), dof=(state_["dof"] + 1))
+            return dict(state_, chi2=(state_["chi2"] + sum([squareLikeJava(y) for y in list(pull.values())])), dof=(state_["dof"] + 1))
 provide(UpdateChi2())
 
 class ReducedChi2(LibFcn):
-- 
2.43.0


From 6edeb9f50f756d319292a27545a371b2dc5ec41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 035/137] fix: numbers of m.* and the arithmetic operators stay
 within their types and give infinity beyond the range of doubles

---
 titus/lib/core.py    |  7 +++++--
 titus/lib/pfamath.py | 39 ++++++++++++++++++++-------------------
 2 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/titus/lib/core.py b/titus/lib/core.py
index d21eacb..c610c9e 100644
--- a/titus/lib/core.py
+++ b/titus/lib/core.py
@@ -55,7 +55,7 @@ def checkForOverflow(paramType, out, code1, code2, fcnName, pos):
         else:
             return out
     else:
-        return out
+        return float(out)
     
 #################################################################### basic arithmetic
 
@@ -99,7 +99,8 @@ class FloorDivide(LibFcn):
         if y == 0:
             raise PFARuntimeException("integer division by zero", self.errcodeBase + 0, self.name, pos)
         else:
-            return int(x / float(y))
+            out = abs(x) // abs(y) if (x < 0) == (y < 0) else -(abs(x) // abs(y))
+            return checkForOverflow(paramTypes[0], out, self.errcodeBase + 1, self.errcodeBase + 2, self.name, pos)
 provide(FloorDivide())
 
 class Negative(LibFcn):
@@ -191,6 +192,8 @@ def powLikeJava(x, y):
             else:
                 if (abs(x) > 1 and y < 0) or (abs(x) < 1 and y > 0):
                     return 0.0
+                elif x < 0 and y % 2 == 1:
+                    return float("-inf")
                 else:
                     return float("inf")
 
diff --git a/titus/lib/pfamath.py b/titus/lib/pfamath.py
index b9e051d..265e468 100644
--- a/titus/lib/pfamath.py
+++ b/titus/lib/pfamath.py
@@ -25,7 +25,7 @@ from titus.signature import Sig
 from titus.signature import Sigs
 from titus.datatype import *
 from titus.errors import *
-from titus.lib.core import checkForOverflow
+from titus.lib.core import checkForOverflow, expLikeJava
 import titus.P as P
 
 provides = {}
@@ -120,7 +120,7 @@ class Ceil(LibFcn):
         if math.isinf(x) or math.isnan(x):
             return x
         else:
-            return math.ceil(x)
+            return float(math.ceil(x))
 provide(Ceil())
 
 class CopySign(LibFcn):
@@ -128,7 +128,7 @@ class CopySign(LibFcn):
     sig = Sig([{"mag": P.Wildcard("A", anyNumber)}, {"sign": P.Wildcard("A")}], P.Wildcard("A"))
     errcodeBase = 27080
     def __call__(self, state, scope, pos, paramTypes, mag, sign):
-        return abs(mag) * (-1 if sign < 0 else 1)
+        return checkForOverflow(paramTypes[-1], abs(mag) * (-1 if sign < 0 else 1), self.errcodeBase + 0, self.errcodeBase + 1, self.name, pos)
 provide(CopySign())
 
 class Cos(LibFcn):
@@ -146,30 +146,30 @@ class CosH(LibFcn):
     name = prefix + "cosh"
     sig = Sig([{"x": P.Double()}], P.Double())
     errcodeBase = 27100
-    def genpy(self, paramTypes, args, pos):
-        return "math.cosh({0})".format(*args)
     def __call__(self, state, scope, pos, paramTypes, x):
-        return math.cosh(x)
+        try:
+            return math.cosh(x)
+        except OverflowError:
+            return float("inf")
 provide(CosH())
 
 class Exp(LibFcn):
     name = prefix + "exp"
     sig = Sig([{"x": P.Double()}], P.Double())
     errcodeBase = 27110
-    def genpy(self, paramTypes, args, pos):
-        return "math.exp({0})".format(*args)
     def __call__(self, state, scope, pos, paramTypes, x):
-        return math.exp(x)
+        return expLikeJava(x)
 provide(Exp())
 
 class ExpM1(LibFcn):
     name = prefix + "expm1"
     sig = Sig([{"x": P.Double()}], P.Double())
     errcodeBase = 27120
-    def genpy(self, paramTypes, args, pos):
-        return "(math.exp({0}) - 1.0)".format(*args)
     def __call__(self, state, scope, pos, paramTypes, x):
-        return math.exp(x) - 1.0
+        try:
+            return math.expm1(x)
+        except OverflowError:
+            return float("inf")
 provide(ExpM1())
 
 class Floor(LibFcn):
@@ -182,7 +182,7 @@ class Floor(LibFcn):
         if math.isinf(x) or math.isnan(x):
             return x
         else:        
-            return math.floor(x)
+            return float(math.floor(x))
 provide(Floor())
 
 class Hypot(LibFcn):
@@ -193,7 +193,7 @@ class Hypot(LibFcn):
         if math.isinf(x) or math.isinf(y):
             return float("inf")
         else:
-            return math.sqrt(x**2 + y**2)
+            return math.hypot(x, y)
 provide(Hypot())
 
 class Ln(LibFcn):
@@ -256,7 +256,7 @@ class Ln1p(LibFcn):
         elif x == -1.0:
             return float("-inf")
         else:
-            return math.log(1 + x)
+            return math.log1p(x)
 provide(Ln1p())
 
 class Round(LibFcn):
@@ -280,7 +280,7 @@ class RInt(LibFcn):
     def __call__(self, state, scope, pos, paramTypes, x):
         if math.isinf(x) or math.isnan(x):
             return x
-        up, down = math.ceil(x), math.floor(x)
+        up, down = float(math.ceil(x)), float(math.floor(x))
         if up - x < x - down:
             return up
         elif up - x > x - down:
@@ -322,10 +322,11 @@ class SinH(LibFcn):
     name = prefix + "sinh"
     sig = Sig([{"x": P.Double()}], P.Double())
     errcodeBase = 27230
-    def genpy(self, paramTypes, args, pos):
-        return "math.sinh({0})".format(*args)
     def __call__(self, state, scope, pos, paramTypes, x):
-        return math.sinh(x)
+        try:
+            return math.sinh(x)
+        except OverflowError:
+            return math.copysign(float("inf"), x)
 provide(SinH())
 
 class Sqrt(LibFcn):
-- 
2.43.0


From ea3bc6b24634b35a835eb74dbccc7b68caf67089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:11 +0000
Subject: [PATCH 036/137] fix: regular expressions end on empty matches, anchor
 at the start only, and see characters of strings and null bytes

---
 titus/lib/regex.py | 122 ++++++++++++++++++++++++++++++---------------
 1 file changed, 81 insertions(+), 41 deletions(-)

diff --git a/titus/lib/regex.py b/titus/lib/regex.py
index c016340..a7b6b2b 100644
--- a/titus/lib/regex.py
+++ b/titus/lib/regex.py
@@ -86,7 +86,7 @@ class Regexer(object):
     Regmatch_t = None
     libc = None
 
-    def __init__(self, haystack, pattern, code, name, pos):
+    def __init__(self, haystack, pattern, utf8, code, name, pos):
         if Regexer.firstTime:
             # get clib regex specs for the wrapper
             Regexer.clibSpecs = RegexSpecs()
@@ -114,12 +114,11 @@ class Regexer(object):
         # haystack and pattern come in as type(haystack) == unicode
         self.haystack = haystack
         # keep track of haystack unicode indexes
-        self.haystack_indices = utf8ByteIndexes(str(haystack))
         # compile pattern into regex_t object
+        self.utf8 = utf8
+        self.locale = Utf8Locale(Regexer.libc if utf8 else None)
         regex_t = Regexer.Regex_t()
-        try:
-            comp = Regexer.libc.regcomp(ctypes.byref(regex_t), pattern.encode("utf-8"), Regexer.clibSpecs.posixExtendedSyntaxFlag)
-        except AttributeError:
+        with self.locale:
             comp = Regexer.libc.regcomp(ctypes.byref(regex_t), pattern, Regexer.clibSpecs.posixExtendedSyntaxFlag)
 
         if (comp != 0):
@@ -131,13 +130,29 @@ class Regexer(object):
         self.indexOffset = 0
 
     def search(self, start):
-        ex = Regexer.libc.regexec(ctypes.byref(self.regex_t), self.haystack[start:],
-                          self.numGroups, self.groupArray, 0)
-        self.indexOffset = start
-        if (ex != 0) or (start >= len(self.haystack)):
+        self.indexOffset = 0
+        if start >= len(self.haystack):
             return False
-        else:
-            return True
+        # REG_STARTEND: the region to search is given by the first match, and may contain null bytes
+        self.groupArray[0].rm_so = start
+        self.groupArray[0].rm_co = len(self.haystack)
+        with self.locale:
+            ex = Regexer.libc.regexec(ctypes.byref(self.regex_t), self.haystack,
+                              self.numGroups, self.groupArray, 4)
+        return ex == 0
+
+    def after(self, region):
+        """Where to search for the match after this one: one character further if it was empty."""
+        start = region.end[0]
+        if region.beg[0] == start:
+            start += 1
+            while self.utf8 and start < len(self.haystack) and (self.haystack[start] & 0xC0) == 0x80:
+                start += 1
+        return start
+
+    def position(self, index):
+        """Byte index as a position in the haystack as the user sees it."""
+        return len(self.haystack[:index].decode("utf-8")) if self.utf8 else index
 
     def groupsFound(self):
         # count results in group array that arent (-1, -1)
@@ -155,6 +170,31 @@ class Regexer(object):
         Regexer.libc.regfree(ctypes.byref(self.regex_t))
 
 # region class (for use similar to joni in scala)
+class Utf8Locale(object):
+    """Lets the C library take bytes for UTF-8 characters, in this thread and for as long as the context lasts."""
+
+    locale = None
+
+    def __init__(self, libc):
+        self.libc = libc
+        if libc is not None and Utf8Locale.locale is None:
+            libc.newlocale.restype = ctypes.c_void_p
+            libc.newlocale.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_void_p]
+            libc.uselocale.restype = ctypes.c_void_p
+            libc.uselocale.argtypes = [ctypes.c_void_p]
+            for name in b"C.UTF-8", b"en_US.UTF-8", b"UTF-8":
+                Utf8Locale.locale = libc.newlocale(1 << 0 if sys.platform.startswith("linux") else 1 << 1, name, None)
+                if Utf8Locale.locale:
+                    break
+
+    def __enter__(self):
+        if self.libc is not None and Utf8Locale.locale:
+            self.previous = self.libc.uselocale(Utf8Locale.locale)
+
+    def __exit__(self, *args):
+        if self.libc is not None and Utf8Locale.locale:
+            self.libc.uselocale(self.previous)
+
 class Region(object):
     def __init__(self, groupArray, indexOffset):
         beg = []
@@ -202,10 +242,10 @@ class Index(LibFcn):
     errcodeBase = 35000
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         if re.search(0):
             region = re.getRegion()
-            out = [region.beg[0], region.end[0]]
+            out = [re.position(region.beg[0]), re.position(region.end[0])]
         else:
             out = []
         re.free()
@@ -220,7 +260,7 @@ class Contains(LibFcn):
     errcodeBase = 35010
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         out = re.search(0)
         re.free()
         return out
@@ -234,16 +274,16 @@ class Count(LibFcn):
     errcodeBase = 35020
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         total = 0
         found = re.search(0)
         region = re.getRegion()
-        start = region.end[0]
+        start = re.after(region)
         while found:
             total += 1
             found = re.search(start)
             region = re.getRegion()
-            start = region.end[0]
+            start = re.after(region)
         re.free()
         return total
 provide(Count())
@@ -256,16 +296,16 @@ class RIndex(LibFcn):
     errcodeBase = 35030
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         found = re.search(0)
         region = re.getRegion()
         start = 0
         if found:
             while found:
                 region = re.getRegion()
-                start = region.end[0]
+                start = re.after(region)
                 found = re.search(start)
-            out = [region.beg[0], region.end[0]]
+            out = [re.position(region.beg[0]), re.position(region.end[0])]
         else:
             out = []
         re.free()
@@ -280,14 +320,14 @@ class Groups(LibFcn):
     errcodeBase = 35040
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         found = re.search(0)
         region = re.getRegion()
         start = region.end[0]
         out = []
         if found:
             for i in range(0, re.groupsFound()):
-                out.append([region.beg[i], region.end[i]])
+                out.append([re.position(region.beg[i]), re.position(region.end[i])])
         else:
             out = []
         re.free()
@@ -302,7 +342,7 @@ class IndexAll(LibFcn):
     errcodeBase = 35050
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         found = re.search(0)
         region = re.getRegion()
         start = region.end[0]
@@ -310,9 +350,9 @@ class IndexAll(LibFcn):
         if found:
             while found:
                 region = re.getRegion()
-                start = region.end[0]
+                start = re.after(region)
                 found = re.search(start)
-                out.append([region.beg[0], region.end[0]])
+                out.append([re.position(region.beg[0]), re.position(region.end[0])])
         else:
             out = []
         re.free()
@@ -327,7 +367,7 @@ class FindAll(LibFcn):
     errcodeBase = 35060
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         found = re.search(0)
         region = re.getRegion()
         start = region.end[0]
@@ -335,7 +375,7 @@ class FindAll(LibFcn):
         if found:
             while found:
                 region = re.getRegion()
-                start = region.end[0]
+                start = re.after(region)
                 out.append(to(haystack[region.beg[0]:region.end[0]]))
                 found = re.search(start)
         else:
@@ -352,7 +392,7 @@ class FindFirst(LibFcn):
     errcodeBase = 35070
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         found = re.search(0)
         if found:
             region = re.getRegion()
@@ -374,7 +414,7 @@ class FindGroupsFirst(LibFcn):
     errcodeBase = 35080
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         start = 0
         found = re.search(start)
         out = []
@@ -396,7 +436,7 @@ class FindGroupsAll(LibFcn):
     errcodeBase = 35090
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         start = 0
         found = re.search(start)
         region = re.getRegion()
@@ -408,7 +448,7 @@ class FindGroupsAll(LibFcn):
                 for i in range(0, re.groupsFound()):
                     groupList.append(to(haystack[region.beg[i]:region.end[i]]))
                 out.append(groupList)
-                start = region.end[0]
+                start = re.after(region)
                 found = re.search(start)
         else:
             out = []
@@ -424,7 +464,7 @@ class GroupsAll(LibFcn):
     errcodeBase = 35100
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         start = 0
         found = re.search(start)
         region = re.getRegion()
@@ -434,9 +474,9 @@ class GroupsAll(LibFcn):
                 region = re.getRegion()
                 groupList = []
                 for i in range(0, re.groupsFound()):
-                    groupList.append([region.beg[i], region.end[i]])
+                    groupList.append([re.position(region.beg[i]), re.position(region.end[i])])
                 out.append(groupList)
-                start = region.end[0]
+                start = re.after(region)
                 found = re.search(start)
         else:
             out = []
@@ -454,7 +494,7 @@ class ReplaceFirst(LibFcn):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
         if isinstance(replacement, bytes):
             replacement = bytesToString(replacement)      
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         found = re.search(0)
         region = re.getRegion()
         if found:
@@ -475,14 +515,14 @@ class ReplaceLast(LibFcn):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
         if isinstance(replacement, bytes):
             replacement = bytesToString(replacement)
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         found = re.search(0)
         region = re.getRegion()
         start = 0
         if found:
             while found:
                 region = re.getRegion()
-                start = region.end[0]
+                start = re.after(region)
                 found = re.search(start)
             out = to(haystack[:region.beg[0]]) + replacement + to(haystack[region.end[0]:])
         else:
@@ -499,7 +539,7 @@ class Split(LibFcn):
     errcodeBase = 35130
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         out = []
         start = 0
         found = re.search(start)
@@ -514,7 +554,7 @@ class Split(LibFcn):
             while found:
                 out.append(to(haystack[beg:end]))
                 beg = region.end[0]
-                found = re.search(beg)
+                found = re.search(re.after(region))
                 region = re.getRegion()
                 end = region.beg[0]
             if beg != len(haystack):
@@ -540,7 +580,7 @@ class ReplaceAll(LibFcn):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
         if isinstance(replacement, bytes):
             replacement = bytesToString(replacement)
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         found = re.search(0)
         region = re.getRegion()
         beg = 0
@@ -550,7 +590,7 @@ class ReplaceAll(LibFcn):
             while found:
                 out = out + to(haystack[beg:end]) + replacement
                 beg = region.end[0]
-                found = re.search(beg)
+                found = re.search(re.after(region))
                 region = re.getRegion()
                 end = region.beg[0]
             if beg != len(haystack):
-- 
2.43.0


From 06c4f3835bb198c92e69ad552b441d7e624f6e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 037/137] fix: la.dot of ragged arrays, la.trace of ragged maps
 and la.eigenBasis of large values failed with Python errors

---
 titus/lib/la.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/titus/lib/la.py b/titus/lib/la.py
index 4e1a0dc..a924775 100644
--- a/titus/lib/la.py
+++ b/titus/lib/la.py
@@ -207,6 +207,8 @@ class Dot(LibFcn):
                 # array matrix-matrix case
                 bad = any(any(math.isnan(z) or math.isinf(z) for z in row) for row in x) or \
                       any(any(math.isnan(z) or math.isinf(z) for z in row) for row in y)
+                if any(len(row) != len(x[0]) for row in x) or any(len(row) != len(y[0]) for row in y):
+                    raise PFARuntimeException("misaligned matrices", self.errcodeBase + 0, self.name, pos)
                 xmat = arraysToMatrix(x)
                 ymat = arraysToMatrix(y)
                 if xmat.shape[0] == 0 or xmat.shape[1] == 0 or ymat.shape[0] == 0 or ymat.shape[1] == 0:
@@ -221,6 +223,8 @@ class Dot(LibFcn):
                 # array matrix-vector case
                 bad = any(any(math.isnan(z) or math.isinf(z) for z in row) for row in x) or \
                       any(math.isnan(z) or math.isinf(z) for z in y)
+                if any(len(row) != len(x[0]) for row in x):
+                    raise PFARuntimeException("misaligned matrices", self.errcodeBase + 0, self.name, pos)
                 xmat = arraysToMatrix(x)
                 ymat = arrayToRowVector(y)
                 if xmat.shape[0] == 0 or xmat.shape[1] == 0 or ymat.shape[0] == 0 or ymat.shape[1] == 0:
@@ -334,7 +338,7 @@ class Trace(LibFcn):
 
         elif isinstance(x, dict) and all(isinstance(x[i], dict) for i in list(x.keys())):
             keys = rowKeys(x).intersection(colKeys(x))
-            return sum(x[i][i] for i in keys)
+            return sum(x[i].get(i, 0.0) for i in keys)
 
 provide(Trace())
 
@@ -415,7 +419,7 @@ class EigenBasis(LibFcn):
 
     errcodeBase = 24110
     def calculate(self, x, size):
-        symm = (x + x.T) * 0.5
+        symm = x * 0.5 + x.T * 0.5
 
         evals, evects = np().linalg.eig(symm)
         evects = np().array(evects)
-- 
2.43.0


From f6f1933099b6ece46c824cf2b774a86eb7ff91b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 038/137] fix: rand.sample of a negative size and
 rand.histogram of tiny probabilities failed with Python errors

---
 titus/lib/rand.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/titus/lib/rand.py b/titus/lib/rand.py
index 892823d..bf6812b 100644
--- a/titus/lib/rand.py
+++ b/titus/lib/rand.py
@@ -114,7 +114,7 @@ class RandomSample(LibFcn):
             raise PFARuntimeException("population must not be empty", self.errcodeBase + 0, self.name, pos)
         if len(population) < size:
             raise PFARuntimeException("population smaller than requested subsample", self.errcodeBase + 1, self.name, pos)
-        return state.rand.sample(population, size)
+        return state.rand.sample(population, max(size, 0))
 provide(RandomSample())
         
 ########################################################### deviates from a histogram
@@ -139,6 +139,7 @@ class RandomHistogram(LibFcn):
         for i, y in enumerate(cumulativeSum):
             if position < y:
                 return i - 1
+        return max(i for i, x in enumerate(distribution) if x > 0)
     def __call__(self, state, scope, pos, paramTypes, distribution):
         if isinstance(paramTypes[-1], dict) and paramTypes[-1].get("type") == "record":
             probs = [x["prob"] for x in distribution]
-- 
2.43.0


From f6402913e817dd57cc1ae858e46a76db245a5b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 039/137] fix: bytes.fromBase64 raised a Python error for
 invalid base64

---
 titus/lib/bytes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/bytes.py b/titus/lib/bytes.py
index 92799e8..75b7299 100644
--- a/titus/lib/bytes.py
+++ b/titus/lib/bytes.py
@@ -251,6 +251,6 @@ class FromBase64(LibFcn):
                 raise TypeError
             out = base64.b64decode(s)
             return bytesToString(out)
-        except TypeError:
+        except (TypeError, ValueError):
             raise PFARuntimeException("invalid base64", self.errcodeBase + 0, self.name, pos)
 provide(FromBase64())
-- 
2.43.0


From 0fd6ae9f04d8aeddc0bfff11b92e5a22ecc57b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 040/137] fix: interp.bin left int or failed with Python errors
 out of range

---
 titus/lib/interp.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/titus/lib/interp.py b/titus/lib/interp.py
index 27edfb2..3d7a081 100644
--- a/titus/lib/interp.py
+++ b/titus/lib/interp.py
@@ -55,8 +55,10 @@ class Bin(LibFcn):
             if math.isnan(x) or x < low or x >= high:
                 raise PFARuntimeException("x out of range", self.errcodeBase + 2, self.name, pos)
 
-            out = int(math.floor(numbins * div((x - low), (high - low))))
-
+            out = numbins * div((x - low), (high - low))
+            if math.isnan(out):
+                raise PFARuntimeException("x out of range", self.errcodeBase + 2, self.name, pos)
+            out = int(math.floor(out))
             if out < 0 or out >= numbins:
                 raise PFARuntimeException("x out of range", self.errcodeBase + 2, self.name, pos)
             return out
@@ -69,7 +71,10 @@ class Bin(LibFcn):
             if math.isnan(x) or math.isinf(x):
                 raise PFARuntimeException("x out of range", self.errcodeBase + 2, self.name, pos)
             else:
-                return int(math.floor(div((x - origin), width)))
+                out = div((x - origin), width)
+                if not -2147483648 <= out < 2147483648:
+                    raise PFARuntimeException("x out of range", self.errcodeBase + 2, self.name, pos)
+                return int(math.floor(out))
 provide(Bin())
     
 class Nearest(LibFcn):
-- 
2.43.0


From a2c9a3f45c3dbbc57e9b6ee06ba1e8a9e52d7e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 041/137] fix: pull, chi2 and reduced chi2 updates failed on
 zero uncertainties and integer pulls

---
 titus/lib/model/reg.py    | 13 +++++--------
 titus/lib/stat/pfatest.py |  2 +-
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/titus/lib/model/reg.py b/titus/lib/model/reg.py
index e75caa4..1c2eebb 100644
--- a/titus/lib/model/reg.py
+++ b/titus/lib/model/reg.py
@@ -429,10 +429,7 @@ class Pull(LibFcn):
                     u = uncertainty[k]
                 except KeyError:
                     raise PFARuntimeException("misaligned uncertainty", self.errcodeBase + 1, self.name, pos)
-                try:
-                    result[k] = (o - p) / u
-                except ZeroDivisionError:
-                    result[k] = float("nan")
+                result[k] = div(o - p, u)
             return result
 
         elif isinstance(observation, (tuple, list)):
@@ -440,10 +437,10 @@ class Pull(LibFcn):
                 raise PFARuntimeException("misaligned prediction", self.errcodeBase + 0, self.name, pos)
             if len(observation) != len(uncertainty):
                 raise PFARuntimeException("misaligned prediction", self.errcodeBase + 0, self.name, pos)
-            return [float((o - p)/u) for o, p, u in zip(observation, prediction, uncertainty)]
+            return [float(div(o - p, u)) for o, p, u in zip(observation, prediction, uncertainty)]
 
         else:
-            return float((observation - prediction)/uncertainty)
+            return div(observation - prediction, uncertainty)
 
 provide(Pull())
 
@@ -491,7 +488,7 @@ class UpdateChi2(LibFcn):
                 Sig([{"pull": P.Map(P.Double())}, {"state_": P.WildRecord("A", {"chi2": P.Double(), "DOF": P.Int()})}], P.Wildcard("A"), Lifespan(None, PFAVersion(0, 7, 2), PFAVersion(0, 9, 0), "use test.updateChi2 instead"))])
     errcodeBase = 31050
     def __call__(self, state, scope, pos, paramTypes, pull, state_):
-        if isinstance(pull, float):
+        if isinstance(pull, (int, float)):
             return update(pull*pull, state_)
         elif isinstance(pull, (tuple, list)):
             return update(sum([squareLikeJava(y) for y in pull]), state_)
@@ -506,7 +503,7 @@ class ReducedChi2(LibFcn):
     sig = Sig([{"state_": P.WildRecord("A", {"chi2": P.Double(), "DOF": P.Int()})}], P.Double(), Lifespan(None, PFAVersion(0, 7, 2), PFAVersion(0, 9, 0), "use test.reducedChi2 instead"))
     errcodeBase = 31060
     def __call__(self, state, scope, pos, paramTypes, state_):
-        return float(state_["chi2"]/state_["DOF"])
+        return div(state_["chi2"], state_["DOF"])
 provide(ReducedChi2())
 
 class Chi2Prob(LibFcn):
diff --git a/titus/lib/stat/pfatest.py b/titus/lib/stat/pfatest.py
index 20b6a2e..ddd9940 100644
--- a/titus/lib/stat/pfatest.py
+++ b/titus/lib/stat/pfatest.py
@@ -182,7 +182,7 @@ class UpdateChi2(LibFcn):
                 Sig([{"pull": P.Map(P.Double())}, {"state": P.WildRecord("A", {"chi2": P.Double(), "dof": P.Int()})}], P.Wildcard("A"))])
     errcodeBase = 38040
     def __call__(self, state, scope, pos, paramTypes, pull, state_):
-        if isinstance(pull, float):
+        if isinstance(pull, (int, float)):
             return dict(state_, chi2=(state_["chi2"] + pull*pull), dof=(state_["dof"] + 1))
         elif isinstance(pull, (tuple, list)):
             return dict(state_, chi2=(state_["chi2"] + sum([squareLikeJava(y) for y in pull])), dof=(state_["dof"] + 1))
-- 
2.43.0


From 24fe1c7016be6521ad01931ffe43e1c236b2a520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 042/137] fix: m.special.nChooseK was inexact and left int

---
 titus/lib/spec.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/titus/lib/spec.py b/titus/lib/spec.py
index a5a799b..3d22e35 100644
--- a/titus/lib/spec.py
+++ b/titus/lib/spec.py
@@ -38,8 +38,12 @@ class NChooseK(LibFcn):
     errcodeBase = 36000
     def __call__(self, state, scope, pos, paramTypes, n, k):
         try:
-            if n == k: raise Exception
-            return int(nChooseK(n, k))
+            if n == k or n < k or k < 0: raise Exception
+            out = 1
+            for i in range(1, min(k, n - k) + 1):
+                out = out * (n - i + 1) // i
+                if out > 2147483647: raise Exception
+            return out
         except:
             raise PFARuntimeException("domain error", self.errcodeBase + 0, self.name, pos)
 provide(NChooseK())
-- 
2.43.0


From eef7f0ecdf7aeaaa2a4c92e112419f8554b13508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 043/137] fix: time.makeTimestamp declared int but returned
 fractions of seconds

---
 titus/lib/pfatime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/pfatime.py b/titus/lib/pfatime.py
index 0aa4859..1c9f356 100644
--- a/titus/lib/pfatime.py
+++ b/titus/lib/pfatime.py
@@ -127,7 +127,7 @@ provide(SecondOfMinute())
 
 class MakeTimestamp(LibFcn):
     name = prefix + "makeTimestamp"
-    sig = Sig([{"year": P.Int()}, {"month": P.Int()}, {"day": P.Int()}, {"hour": P.Int()}, {"minute": P.Int()}, {"second": P.Int()}, {"millisecond": P.Int()}, {"zone": P.String()}], P.Int())
+    sig = Sig([{"year": P.Int()}, {"month": P.Int()}, {"day": P.Int()}, {"hour": P.Int()}, {"minute": P.Int()}, {"second": P.Int()}, {"millisecond": P.Int()}, {"zone": P.String()}], P.Double())
     epoch = datetime.datetime(1970, 1, 1, 0, 0, 0, 0, UTC())
     errcodeBase = 40080
     def __call__(self, state, scope, pos, paramTypes, year, month, day, hour, minute, second, millisecond, zone):
-- 
2.43.0


From 1332e5c5ea79e0e1e0ab171c77572f1d0278e96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 044/137] fix: a.combinations of more items than there are ran
 out of memory

---
 titus/lib/array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/titus/lib/array.py b/titus/lib/array.py
index 2ed8780..f980768 100644
--- a/titus/lib/array.py
+++ b/titus/lib/array.py
@@ -1171,6 +1171,8 @@ class Combinations(LibFcn):
         if size < 1:
             raise PFARuntimeException("size < 1", self.errcodeBase + 0, self.name, pos)
         out = []
+        if size > len(a):
+            return out
         i = 0
         for combination in itertools.combinations(a, size):
             i += 1
-- 
2.43.0


From 66b17083a06f9c232029604400e0b2a3101a9f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:05 +0000
Subject: [PATCH 045/137] fix: stat.sample.fillHistogram took an infinite or
 nan low edge

---
 titus/lib/stat/sample.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/titus/lib/stat/sample.py b/titus/lib/stat/sample.py
index ad73f7a..214d4ff 100644
--- a/titus/lib/stat/sample.py
+++ b/titus/lib/stat/sample.py
@@ -531,6 +531,8 @@ class FillHistogram(LibFcn):
 
             if binsize <= 0.0 or math.isnan(binsize) or math.isinf(binsize):
                 raise PFARuntimeException("bad histogram scale", self.errcodeBase + 2, self.name, pos)
+            if math.isnan(low) or math.isinf(low):
+                raise PFARuntimeException("bad histogram range", self.errcodeBase + 1, self.name, pos)
 
             if hasInfflow and math.isinf(x):
                 underflow, overflow, nanflow, infflow = False, False, False, True
-- 
2.43.0


From 7766108651ceba4073c53ab1738e448ad5202abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:05 +0000
Subject: [PATCH 046/137] fix: model.reg.mahalanobis let misaligned covariance
 matrices through

---
 titus/lib/model/reg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/model/reg.py b/titus/lib/model/reg.py
index 1c2eebb..91c902c 100644
--- a/titus/lib/model/reg.py
+++ b/titus/lib/model/reg.py
@@ -455,7 +455,7 @@ class Mahalanobis(LibFcn):
                 raise PFARuntimeException("too few rows/cols", self.errcodeBase + 0, self.name, pos)
             if (len(observation) != len(prediction)):
                 raise PFARuntimeException("misaligned prediction", self.errcodeBase + 1, self.name, pos)
-            if (not all(len(i)==len(covariance[0]) for i in covariance)) and (len(covariance) != len(covariance[0])):
+            if len(covariance) != len(observation) or any(len(row) != len(observation) for row in covariance):
                 raise PFARuntimeException("misaligned covariance", self.errcodeBase + 2, self.name, pos)
             x = np().array([(o - p) for o, p in zip(observation, prediction)])
             C = np().array(covariance)
-- 
2.43.0


From bf9c430efffcc8d379430a1f5b0271ca5db59564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:05 +0000
Subject: [PATCH 047/137] fix: hypergeometric and binomial densities lost their
 last value; hypergeometricQF did not end

---
 titus/lib/prob/dist.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/titus/lib/prob/dist.py b/titus/lib/prob/dist.py
index 6dd22e6..5923b05 100644
--- a/titus/lib/prob/dist.py
+++ b/titus/lib/prob/dist.py
@@ -597,7 +597,7 @@ class BinomialPDF(LibFcn):
             raise PFARuntimeException("invalid input", self.errcodeBase + 1, self.name, pos)
         elif x < 0:
             return 0.0
-        elif x >= size:
+        elif x > size:
             return 0.0
         else:
             return BinomialDistribution(size, prob, self.errcodeBase + 0, self.name, pos).PDF(x)
@@ -1575,7 +1575,7 @@ class HypergeometricDistribution(object):
         # compute nchoosek(n_white,x)
         if x == 0:
             nchoosek1 = 1.0
-        elif (x < 0) or (x >= self.n_white):
+        elif (x < 0) or (x > self.n_white):
             nchoosek1 = 0.0
         else:
             nchoosek1 = nChooseK(self.n_white, x)
@@ -1616,7 +1616,7 @@ class HypergeometricDistribution(object):
             # step through CDFs until we find the right one
             x = 0
             p0 = 0.0
-            while (p0 <= p):
+            while (p0 <= p and x <= self.n_drawn):
                 p0 = p0 + self.PDF(x)
                 x += 1
             return x - 1
-- 
2.43.0


From 340e2bfc509658d5291790ebd4092601bb788794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:42 +0000
Subject: [PATCH 048/137] fix: the second operand of arithmetic could be of any
 type

---
 titus/signature.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/titus/signature.py b/titus/signature.py
index 577dffe..4ed2120 100644
--- a/titus/signature.py
+++ b/titus/signature.py
@@ -296,6 +296,7 @@ class LabelData(object):
 
     def __init__(self):
         self.members = []
+        self.oneOf = None
         self.expectedFields = None
 
     def add(self, t):
@@ -303,6 +304,9 @@ class LabelData(object):
 
     def determineAssignment(self):
         out = LabelData.broadestType(self.members)
+
+        if self.oneOf is not None and out not in self.oneOf:
+            raise IncompatibleTypes("{0} is not one of {1}".format(out, ", ".join(map(repr, self.oneOf))))
         if self.expectedFields is not None:
             if isinstance(out, AvroRecord):
                 if self.expectedFields != tuple(x.name for x in out.fields):
@@ -535,6 +539,8 @@ class Sig(Signature):
                 if not pat.label in labelData:
                     labelData[pat.label] = LabelData()
                 labelData[pat.label].add(arg)
+                if pat.oneOf is not None:
+                    labelData[pat.label].oneOf = pat.oneOf
                 return True
             else:
                 return False
-- 
2.43.0


From 6b5d5a1a29c7898a3d06defba9111a56dbe229b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:51 +0000
Subject: [PATCH 049/137] fix: function arguments with parameters too narrow
 for what they are given were accepted

---
 titus/signature.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/titus/signature.py b/titus/signature.py
index 4ed2120..8781a21 100644
--- a/titus/signature.py
+++ b/titus/signature.py
@@ -388,6 +388,13 @@ class Sig(Signature):
                     assignments = dict((l, ld.determineAssignment()) for l, ld in list(labelData.items()))
                     assignedParams = [self.assign(list(p.values())[0], a, assignments) for p, a in zip(self.params, args)]
                     assignedRet = self.assignRet(self.ret, assignments)
+                    for p, a in zip(self.params, args):
+                        pat = list(p.values())[0]
+                        if isinstance(pat, P.Fcn) and isinstance(a, FcnType):
+                            if not all(x.accepts(self.assignRet(y, assignments)) for x, y in zip(a.params, pat.params)):
+                                return None
+                            if not self.assignRet(pat.ret, assignments).accepts(a.ret):
+                                return None
                     return (self, assignedParams, assignedRet)
                 except IncompatibleTypes:
                     return None
@@ -531,7 +538,8 @@ class Sig(Signature):
                     return False
 
         elif isinstance(pat, P.Fcn) and isinstance(arg, FcnType):
-            return all(self.check(p, a, labelData, strict, True) for p, a in zip(pat.params, arg.params)) and \
+            return len(pat.params) == len(arg.params) and \
+                   all(self.check(p, a, labelData, strict, True) for p, a in zip(pat.params, arg.params)) and \
                    self.check(pat.ret, arg.ret, labelData, strict, False)
 
         elif isinstance(pat, P.Wildcard):
-- 
2.43.0


From 0a6655ed0119f22b42cc3c2a1058cf3efd7d492b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:50 +0000
Subject: [PATCH 050/137] fix: the types of filled arguments of function
 references were not checked

---
 titus/pfaast.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index 2cb8d62..bdaf178 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -1733,6 +1733,13 @@ class FcnRefFill(Argument):
             if not fillNames.issubset(set(originalParamNames)):
                 raise PFASemanticException("fill argument names (\"{0}\") are not a subset of function \"{1}\" parameter names (\"{2}\")".format("\", \"".join(sorted(fillNames)), self.name, "\", \"".join(originalParamNames)), self.pos)
 
+            for p in params:
+                pname, pat = list(p.items())[0]
+                if pname in fillNames:
+                    fillType = argTypeResult[pname][0]
+                    if fcnsig.accepts([fillType if x is p else P.toType(list(x.values())[0]) for x in params], version) is None:
+                        raise PFASemanticException("fill argument \"{0}\" of function \"{1}\" has type {2}".format(pname, self.name, ts(fillType)), self.pos)
+
             fcnType = FcnType([P.mustBeAvro(P.toType(list(p.values())[0])) for p in params if list(p.keys())[0] not in fillNames], P.mustBeAvro(P.toType(ret)))
         except IncompatibleTypes:
             raise PFASemanticException("only one-signature functions without constraints can be referenced (wrap \"{0}\" in a function definition with the desired signature)".format(self.name), self.pos)
-- 
2.43.0


From 59ca402bd718718eb8cbee7c9adb2d85a73584e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:00 +0000
Subject: [PATCH 051/137] fix: logging bytes failed

---
 titus/genpy.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 03ffbf6..906b7da 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1307,10 +1307,13 @@ def genericLog(message, namespace):
     Just prints out the message (with namespace if not ``None``).
     """
 
+    # runtime values of bytes and fixed types are Python bytes
+    dumps = lambda x: json.dumps(x, default=lambda b: b.decode("latin-1"))
+
     if namespace is None:
-        print(" ".join(map(json.dumps, message)))
+        print(" ".join(map(dumps, message)))
     else:
-        print(namespace + ": " + " ".join(map(json.dumps, message)))
+        print(namespace + ": " + " ".join(map(dumps, message)))
     
 class FakeEmitForExecution(titus.fcn.Fcn):
     """Placeholder so that the ``emit`` function looks like any other function to PFA."""
-- 
2.43.0


From 6cbbf43c0863c585a41bb94ad550413a8721ed64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:40 +0000
Subject: [PATCH 052/137] fix: bad formats of pack and unpack ended in a
 NameError

---
 titus/pfaast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index bdaf178..9d80e40 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -5701,9 +5701,9 @@ class BinaryFormatter(object):
             if output:
                 return BinaryFormatter.DeclareRaw(value)
             else:
-                raise PFASemanticException("cannot read from unsized \"raw\" in binary formatter", self.pos)
+                raise PFASemanticException("cannot read from unsized \"raw\" in binary formatter", pos)
         else:
-            raise PFASemanticException("unrecognized formatter \"{0}\" found in unpack's \"format\"".format(f), self.pos)
+            raise PFASemanticException("unrecognized formatter \"{0}\" found in unpack's \"format\"".format(f), pos)
 
 @titus.util.case
 class Pack(Expression):
-- 
2.43.0


From 8f89be66ef928f14b09e4472becb787be53284fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:40 +0000
Subject: [PATCH 053/137] fix: unpacking bytes represented as str failed

---
 titus/genpy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/titus/genpy.py b/titus/genpy.py
index 906b7da..23f85b2 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1223,6 +1223,9 @@ def unpack(state, scope, byte_s, format, thenClause):
     :return: nothing
     """
 
+    if isinstance(byte_s, str):
+        byte_s = byte_s.encode("latin-1")
+
     thenScope = DynamicScope(scope)
     try:
         for s, f, l in format:
@@ -1251,6 +1254,9 @@ def unpackElse(state, scope, byte_s, format, thenClause, elseClause):
     :return: if there was no titus.genpy.MisalignedPacking exception, returns result of ``thenClause``, otherwise, returns result of ``elseClause``
     """
 
+    if isinstance(byte_s, str):
+        byte_s = byte_s.encode("latin-1")
+
     thenScope = DynamicScope(scope)
     try:
         for s, f, l in format:
-- 
2.43.0


From b965ef89b4acd5d26e54514db0df9572806f3a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:40 +0000
Subject: [PATCH 054/137] fix: arithmetic on functions ended in a TypeError
 instead of being refused

---
 titus/datatype.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/titus/datatype.py b/titus/datatype.py
index 28be0bd..854b4c2 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -68,6 +68,9 @@ class FcnType(Type):
         else:
             return False
 
+    def __hash__(self):
+        return hash((tuple(self.params), self.ret))
+
     def __repr__(self):
         return '{{"type": "function", "params": [{params}], "ret": {ret}}}'.format(
             params=",".join(repr(x) for x in self.params),
-- 
2.43.0


From ab3a7ecd1153bae55e5c11b3b883f28ec6365e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:13 +0000
Subject: [PATCH 055/137] fix: equal PFA versions did not compare as equal

---
 titus/signature.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/titus/signature.py b/titus/signature.py
index 8781a21..5243d01 100644
--- a/titus/signature.py
+++ b/titus/signature.py
@@ -94,14 +94,12 @@ class PFAVersion(object):
             return (self.minor >= other.minor)
         else:
             return (self.major >= other.major)     
-    def __cmp__(self, other):
-        """Strict ordering on PFAVersions: check major number first, then minor, then release."""
-        if self.major == other.major and self.minor == other.minor:
-            return ((self.release > other.release) - (self.release < other.release))
-        elif self.major == other.major:
-            return ((self.minor > other.minor) - (self.minor < other.minor))
-        else:
-            return ((self.major > other.major) - (self.major < other.major))
+    def __eq__(self, other):
+        return isinstance(other, PFAVersion) and (self.major, self.minor, self.release) == (other.major, other.minor, other.release)
+    def __ne__(self, other):
+        return not self.__eq__(other)
+    def __hash__(self):
+        return hash((self.major, self.minor, self.release))
     @staticmethod
     def fromString(x):
         """Create a ``PFAVersion`` from a dotted string.
-- 
2.43.0


From 3b09d4c0233adfa257cebccf837c24f6c36ceb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:20 +0000
Subject: [PATCH 056/137] fix: wildcards for enums and fixed types accepted
 arguments of any type

---
 titus/signature.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/signature.py b/titus/signature.py
index 5243d01..31b767a 100644
--- a/titus/signature.py
+++ b/titus/signature.py
@@ -563,13 +563,13 @@ class Sig(Signature):
             else:
                 return False
 
-        elif isinstance(pat, P.WildEnum):
+        elif isinstance(pat, P.WildEnum) and isinstance(arg, AvroEnum):
             if not pat.label in labelData:
                 labelData[pat.label] = LabelData()
             labelData[pat.label].add(arg)
             return True
 
-        elif isinstance(pat, P.WildFixed):
+        elif isinstance(pat, P.WildFixed) and isinstance(arg, AvroFixed):
             if not pat.label in labelData:
                 labelData[pat.label] = LabelData()
             labelData[pat.label].add(arg)
-- 
2.43.0


From ac71fce7926d10629963b75f19a99a708e3d6d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:34 +0000
Subject: [PATCH 057/137] fix: library functions passed as arguments were
 called without their types, so that their errors ended in a TypeError

---
 titus/genpy.py  |  9 +++++++++
 titus/pfaast.py | 10 ++++------
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 23f85b2..6d92841 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -307,19 +307,28 @@ class GeneratePython(titus.pfaast.Task):
             return "labeledFcn(lambda state, scope: do(" + ", ".join(context.exprs) + "), [" + ", ".join(map(repr, context.paramNames)) + "])"
 
         elif isinstance(context, FcnRef.Context):
+            if isinstance(context.fcn, titus.fcn.LibFcn):
+                paramNames = ["$" + str(i) for i in range(len(context.fcnType.params))]
+                paramTypes = context.fcnType.params + [context.fcnType.ret]
+                return "labeledFcn(lambda state, scope: " + context.fcn.genpy(paramTypes, ["scope.get(" + repr(x) + ")" for x in paramNames], None) + ", " + repr(paramNames) + ")"
             return "self.f[" + repr(context.fcn.name) + "]"
 
         elif isinstance(context, FcnRefFill.Context):
             reducedArgs = ["\"$" + str(x) + "\"" for x in range(len(context.fcnType.params))]
             j = 0
             args = []
+            paramTypes = []
             for name in context.originalParamNames:
                 if name in context.argTypeResult:
                     args.append(context.argTypeResult[name][1])
+                    paramTypes.append(context.argTypeResult[name][0])
                 else:
                     args.append("scope.get(\"$" + str(j) + "\")")
+                    paramTypes.append(context.fcnType.params[j])
                     j += 1
 
+            if isinstance(context.fcn, titus.fcn.LibFcn):
+                return "labeledFcn(lambda state, scope: " + context.fcn.genpy(paramTypes + [context.fcnType.ret], args, None) + ", [" + ", ".join(reducedArgs) + "])"
             return "labeledFcn(lambda state, scope: call(state, DynamicScope(scope), self.f[" + repr(context.fcn.name) + "], [" + ", ".join(args) + "]), [" + ", ".join(reducedArgs) + "])"
 
         elif isinstance(context, CallUserFcn.Context):
diff --git a/titus/pfaast.py b/titus/pfaast.py
index 9d80e40..1a7cd3c 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -1733,12 +1733,10 @@ class FcnRefFill(Argument):
             if not fillNames.issubset(set(originalParamNames)):
                 raise PFASemanticException("fill argument names (\"{0}\") are not a subset of function \"{1}\" parameter names (\"{2}\")".format("\", \"".join(sorted(fillNames)), self.name, "\", \"".join(originalParamNames)), self.pos)
 
-            for p in params:
-                pname, pat = list(p.items())[0]
-                if pname in fillNames:
-                    fillType = argTypeResult[pname][0]
-                    if fcnsig.accepts([fillType if x is p else P.toType(list(x.values())[0]) for x in params], version) is None:
-                        raise PFASemanticException("fill argument \"{0}\" of function \"{1}\" has type {2}".format(pname, self.name, ts(fillType)), self.pos)
+            accepted = fcnsig.accepts([argTypeResult[name][0] if name in fillNames else P.toType(list(p.values())[0]) for name, p in zip(originalParamNames, params)], version)
+            if accepted is None:
+                raise PFASemanticException("fill arguments of function \"{0}\" have the wrong types: {1}".format(self.name, ", ".join("\"{0}\" has type {1}".format(name, ts(argTypeResult[name][0])) for name in originalParamNames if name in fillNames)), self.pos)
+            argTypeResult = dict((name, (t, argTypeResult[name][1])) for name, t in zip(originalParamNames, accepted[1]) if name in fillNames)
 
             fcnType = FcnType([P.mustBeAvro(P.toType(list(p.values())[0])) for p in params if list(p.keys())[0] not in fillNames], P.mustBeAvro(P.toType(ret)))
         except IncompatibleTypes:
-- 
2.43.0


From c41f66f6ce3c0f1a021a3007635ada96ebd327c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:36 +0000
Subject: [PATCH 058/137] fix: a branch order that failed to match left its
 types to the wildcards of a union pattern

---
 titus/signature.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/titus/signature.py b/titus/signature.py
index 31b767a..fff1818 100644
--- a/titus/signature.py
+++ b/titus/signature.py
@@ -297,6 +297,13 @@ class LabelData(object):
         self.oneOf = None
         self.expectedFields = None
 
+    def copy(self):
+        out = LabelData()
+        out.members = list(self.members)
+        out.oneOf = self.oneOf
+        out.expectedFields = self.expectedFields
+        return out
+
     def add(self, t):
         self.members.append(t)
 
@@ -465,8 +472,7 @@ class Sig(Signature):
             return self.check(pat.values, arg.values, labelData, strict, reversed)
         elif isinstance(pat, P.Union) and isinstance(arg, AvroUnion):
             found = False
-            originalLabelData = dict(labelData)
-            labelData2 = dict(labelData)
+            labelData2 = dict((label, data.copy()) for label, data in list(labelData.items()))
             atypesPermutations = itertools.permutations(arg.types)
 
             atypesPermutations_isEmpty = False
@@ -494,9 +500,10 @@ class Sig(Signature):
                         found = True
 
                     if not found:
-                        labelData2 = dict(originalLabelData)
+                        labelData2 = dict((label, data.copy()) for label, data in list(labelData.items()))
 
-            labelData.update(labelData2)
+            if found:
+                labelData.update(labelData2)
             return found
             
         elif isinstance(pat, P.Union) and isinstance(arg, AvroType):
-- 
2.43.0


From fae528388f510186f7b1b5c57a8a148ce14d67a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:38 +0000
Subject: [PATCH 059/137] fix: signatures with wildcards could not be shown,
 which ended their deprecation warnings in a TypeError

---
 titus/signature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/signature.py b/titus/signature.py
index fff1818..8dae99a 100644
--- a/titus/signature.py
+++ b/titus/signature.py
@@ -779,7 +779,7 @@ def toText(p, alreadyLabeled=None):
         return p.label
     elif isinstance(p, P.Wildcard):
         alreadyLabeled.add(p.label)
-        if len(p.oneOf) == 0:
+        if p.oneOf is None or len(p.oneOf) == 0:
             return "any " + p.label
         else:
             return "any " + p.label + " of {" + ", ".join(toTextType(x) for x in p.oneOf) + "}"
-- 
2.43.0


From 62b5d8ef755ab52abdbf05e21c16eb1c846f455f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:38 +0000
Subject: [PATCH 060/137] fix: calls with null, true, or false among the field
 defaults of their types ended in a NameError

---
 titus/genpy.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 6d92841..f393719 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -96,6 +96,12 @@ from titus.pfaast import ArrayIndex
 from titus.pfaast import MapIndex
 from titus.pfaast import RecordIndex
 
+class ParamTypes(list):
+    """List of types that represents itself as Python code, rather than as JSON (whose null, true, and false are not Python names)."""
+
+    def __repr__(self):
+        return repr([json.loads(repr(x)) for x in self])
+
 class GeneratePython(titus.pfaast.Task):
     """A ``titus.pfaast.Task`` for turning PFA into executable Python."""
 
@@ -310,7 +316,7 @@ class GeneratePython(titus.pfaast.Task):
             if isinstance(context.fcn, titus.fcn.LibFcn):
                 paramNames = ["$" + str(i) for i in range(len(context.fcnType.params))]
                 paramTypes = context.fcnType.params + [context.fcnType.ret]
-                return "labeledFcn(lambda state, scope: " + context.fcn.genpy(paramTypes, ["scope.get(" + repr(x) + ")" for x in paramNames], None) + ", " + repr(paramNames) + ")"
+                return "labeledFcn(lambda state, scope: " + context.fcn.genpy(ParamTypes(paramTypes), ["scope.get(" + repr(x) + ")" for x in paramNames], None) + ", " + repr(paramNames) + ")"
             return "self.f[" + repr(context.fcn.name) + "]"
 
         elif isinstance(context, FcnRefFill.Context):
@@ -328,14 +334,14 @@ class GeneratePython(titus.pfaast.Task):
                     j += 1
 
             if isinstance(context.fcn, titus.fcn.LibFcn):
-                return "labeledFcn(lambda state, scope: " + context.fcn.genpy(paramTypes + [context.fcnType.ret], args, None) + ", [" + ", ".join(reducedArgs) + "])"
+                return "labeledFcn(lambda state, scope: " + context.fcn.genpy(ParamTypes(paramTypes + [context.fcnType.ret]), args, None) + ", [" + ", ".join(reducedArgs) + "])"
             return "labeledFcn(lambda state, scope: call(state, DynamicScope(scope), self.f[" + repr(context.fcn.name) + "], [" + ", ".join(args) + "]), [" + ", ".join(reducedArgs) + "])"
 
         elif isinstance(context, CallUserFcn.Context):
             return "call(state, DynamicScope(None), self.f['u.' + " + context.name + "], [" + ", ".join(context.args) + "])"
 
         elif isinstance(context, Call.Context):
-            return context.fcn.genpy(context.paramTypes + [context.retType], context.args, context.pos)
+            return context.fcn.genpy(ParamTypes(context.paramTypes + [context.retType]), context.args, context.pos)
 
         elif isinstance(context, Ref.Context):
             return "scope.get({0})".format(repr(context.name))
-- 
2.43.0


From 93821782f3cabe97f6cdccdbbdce4993ba7036a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:30 +0000
Subject: [PATCH 061/137] fix: functions were accepted in place of values, and
 ended in exceptions

---
 titus/signature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/signature.py b/titus/signature.py
index 8dae99a..696f430 100644
--- a/titus/signature.py
+++ b/titus/signature.py
@@ -547,7 +547,7 @@ class Sig(Signature):
                    all(self.check(p, a, labelData, strict, True) for p, a in zip(pat.params, arg.params)) and \
                    self.check(pat.ret, arg.ret, labelData, strict, False)
 
-        elif isinstance(pat, P.Wildcard):
+        elif isinstance(pat, P.Wildcard) and isinstance(arg, AvroType):
             if pat.oneOf is None or arg in pat.oneOf:
                 if not pat.label in labelData:
                     labelData[pat.label] = LabelData()
-- 
2.43.0


From 59514afafeda61b7aa0c87546139bf123697999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:01 +0000
Subject: [PATCH 062/137] fix: malformed documents ended in UnboundLocalError,
 AttributeError, and the like rather than syntax errors

---
 titus/reader.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/titus/reader.py b/titus/reader.py
index 2f64c61..5f63a3b 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -313,10 +313,10 @@ def _stripAtSigns(data):
         return data
 
 def _readEngineConfig(data, avroTypeBuilder):
-    at = data.get("@")
-
     if not isinstance(data, dict):
-        raise PFASyntaxException("PFA engine must be a JSON object, not " + _trunc(repr(data)), at)
+        raise PFASyntaxException("PFA engine must be a JSON object, not " + _trunc(repr(data)), None)
+
+    at = data.get("@")
 
     keys = set(x for x in list(data.keys()) if x != "@")
 
@@ -461,7 +461,7 @@ def _readStringExpressionPairs(data, dot, avroTypeBuilder):
             out.extend(list(pair.items()))
         return out
     else:
-        return PFASyntaxException("expected array of {string: expression} pairs, found " + _trunc(repr(data)), dot)
+        raise PFASyntaxException("expected array of {string: expression} pairs, found " + _trunc(repr(data)), dot)
 
 def _readStringPairs(data, dot):
     if isinstance(data, (list, tuple)):
@@ -515,7 +515,10 @@ def _readStringOrInt(data, dot):
 
 def _readBase64(data, dot):
     if isinstance(data, str):
-        return bytesToString(base64.b64decode(data))
+        try:
+            return bytesToString(base64.b64decode(data))
+        except ValueError:
+            raise PFASyntaxException("expected base64 data, not " + _trunc(repr(data)), dot)
     else:
         raise PFASyntaxException("expected base64 data, not " + _trunc(repr(data)), dot)
 
@@ -553,6 +556,8 @@ def _readCastCase(data, dot, avroTypeBuilder):
                     _body = [_readExpression(data[key], dot + " -> " + key, avroTypeBuilder)]
             else:
                 raise PFASyntaxException("unexpected field in cast-case: {0}".format(key), pos(dot, at))
+    else:
+        raise PFASyntaxException("expected cast-case, not " + _trunc(repr(data)), dot)
 
     if "named" in keys and not validSymbolName(_named):
         raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(_named), pos(dot, at))
@@ -690,7 +695,7 @@ def _readArgument(data, dot, avroTypeBuilder):
 
             elif key == "cond":
                 _cond = _readExpressionArray(data[key], dot + " -> " + key, avroTypeBuilder)
-                if any(x.elseClause is not None for x in _cond):
+                if any(not isinstance(x, If) or x.elseClause is not None for x in _cond):
                     raise PFASyntaxException("cond expression must only contain else-less if expressions", pos(dot, at))
 
             elif key == "cases": _cases = _readCastCaseArray(data[key], dot + " -> " + key, avroTypeBuilder)
@@ -820,7 +825,7 @@ def _readArgument(data, dot, avroTypeBuilder):
         elif keys == set(["call", "args"]):                  return CallUserFcn(_callwith, _callwithargs, pos(dot, at))
 
         elif len(keys) == 1 and list(keys)[0] not in \
-             set(["args", "as", "attr", "base64", "call", "cases", "cast", "cell", "code", "cond", "do", "doc", "double", "else",
+             set(["args", "as", "attr", "base64", "call", "cases", "cast", "cell", "code", "cond", "del", "do", "doc", "double", "else",
                   "error", "fcn", "fill", "filter", "float", "for", "foreach", "forkey", "format", "forval", "if", "ifnotnull", "in", "init",
                   "int", "let", "log", "long", "namespace", "new", "pack", "params", "partial", "path", "pool", "ret", "seq",
                   "set", "step", "string", "then", "to", "try", "type", "unpack", "until", "upcast", "value", "while"]):
@@ -839,7 +844,7 @@ def _readFcnDefMap(data, dot, avroTypeBuilder):
                 raise PFASyntaxException("\"{0}\" is not a valid function name".format(k), pos(dot, at))
         return dict((k, _readFcnDef(v, dot + " -> " + k, avroTypeBuilder)) for k, v in list(data.items()) if k != "@")
     else:
-        raise PFASyntaxException("expected map of function definitions, not " + _trunc(repr(data)), pos(dot, at))
+        raise PFASyntaxException("expected map of function definitions, not " + _trunc(repr(data)), dot)
 
 def _readFcnDef(data, dot, avroTypeBuilder):
     if isinstance(data, dict):
@@ -863,7 +868,7 @@ def _readFcnDef(data, dot, avroTypeBuilder):
         else:
             return FcnDef(_params, _ret, _body, pos(dot, at))
     else:
-        raise PFASyntaxException("expected function definition, not " + _trunc(repr(data)), pos(dot, at))
+        raise PFASyntaxException("expected function definition, not " + _trunc(repr(data)), dot)
 
 def _readParams(data, dot, avroTypeBuilder):
     if isinstance(data, (list, tuple)):
@@ -879,12 +884,12 @@ def _readParam(data, dot, avroTypeBuilder):
             raise PFASyntaxException("function parameter name-type map should have only one pair", pos(dot, at))
         n = list(keys)[0]
         if not validSymbolName(n):
-            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(n))
+            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(n), pos(dot, at))
 
         t = _readAvroPlaceholder(data[n], dot + " -> " + n, avroTypeBuilder)
         return {n: t}
     else:
-        raise PFASyntaxException("expected function parameter name-type singleton map, not " + _trunc(repr(data)), pos(dot, at))
+        raise PFASyntaxException("expected function parameter name-type singleton map, not " + _trunc(repr(data)), dot)
 
 def _readCells(data, dot, avroTypeBuilder):
     if isinstance(data, dict):
@@ -894,7 +899,7 @@ def _readCells(data, dot, avroTypeBuilder):
                 raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(k), pos(dot, at))
         return dict((k, _readCell(data[k], dot, avroTypeBuilder)) for k, v in list(data.items()) if k != "@")
     else:
-        raise PFASyntaxException("expected map of cells, not " + _trunc(repr(data)), pos(dot, at))
+        raise PFASyntaxException("expected map of cells, not " + _trunc(repr(data)), dot)
 
 def _readCell(data, dot, avroTypeBuilder):
     if isinstance(data, dict):
@@ -1021,4 +1026,4 @@ def _readPool(data, dot, avroTypeBuilder):
 
             return Pool(_avroType, _init, _shared, _rollback, _source, pos(dot, at))
     else:
-        raise PFASyntaxException("expected pool, not " + _trunc(repr(data)), pos(dot, at))
+        raise PFASyntaxException("expected pool, not " + _trunc(repr(data)), dot)
-- 
2.43.0


From 78ca1b76f6a82243496c00563b5ff2fb47996934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:01 +0000
Subject: [PATCH 063/137] fix: true and false were accepted as numbers in the
 syntax of a document

---
 titus/reader.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/titus/reader.py b/titus/reader.py
index 5f63a3b..1494c2d 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -418,7 +418,7 @@ def _readBoolean(data, dot):
         raise PFASyntaxException("expected boolean, not " + _trunc(repr(data)), dot)
 
 def _readInt(data, dot):
-    if isinstance(data, int):
+    if isinstance(data, int) and not isinstance(data, bool):
         if -2147483648 <= data <= 2147483647:
             return data
         else:
@@ -427,7 +427,7 @@ def _readInt(data, dot):
         raise PFASyntaxException("expected int, not " + _trunc(repr(data)), dot)
 
 def _readLong(data, dot):
-    if isinstance(data, int):
+    if isinstance(data, int) and not isinstance(data, bool):
         if -9223372036854775808 <= data <= 9223372036854775807:
             return data
         else:
@@ -436,13 +436,13 @@ def _readLong(data, dot):
         raise PFASyntaxException("expected long, not " + _trunc(repr(data)), dot)
 
 def _readFloat(data, dot):
-    if isinstance(data, (int, float)):
+    if isinstance(data, (int, float)) and not isinstance(data, bool):
         return float(data)
     else:
         raise PFASyntaxException("expected float, not " + _trunc(repr(data)), dot)
 
 def _readDouble(data, dot):
-    if isinstance(data, (int, float)):
+    if isinstance(data, (int, float)) and not isinstance(data, bool):
         return float(data)
     else:
         raise PFASyntaxException("expected double, not " + _trunc(repr(data)), dot)
@@ -508,7 +508,7 @@ def _readString(data, dot):
         raise PFASyntaxException("expected string, not " + _trunc(repr(data)), dot)
 
 def _readStringOrInt(data, dot):
-    if isinstance(data, (str, int)):
+    if isinstance(data, (str, int)) and not isinstance(data, bool):
         return data
     else:
         raise PFASyntaxException("expected string or int, not " + _trunc(repr(data)), dot)
-- 
2.43.0


From 489a57694d1ac437f4e72df419724b2957060583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:01 +0000
Subject: [PATCH 064/137] fix: names with a trailing newline were accepted

---
 titus/pfaast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index 1a7cd3c..02a38d9 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -112,7 +112,7 @@ def validSymbolName(test):
     :rtype: bool
     :return: ``True`` if valid; ``False`` otherwise
     """
-    return re.match("^[A-Za-z_][A-Za-z0-9_]*$", test) is not None
+    return re.match("^[A-Za-z_][A-Za-z0-9_]*\\Z", test) is not None
 
 class SymbolTable(object):
     """Represents the symbols (variables) and their data types in a lexical scope."""
@@ -311,7 +311,7 @@ def validFunctionName(test):
     :rtype: bool
     :return: ``True`` if valid; ``False`` otherwise
     """
-    return re.match("^[A-Za-z_]([A-Za-z0-9_]|\\.[A-Za-z][A-Za-z0-9_]*)*$", test) is not None
+    return re.match("^[A-Za-z_]([A-Za-z0-9_]|\\.[A-Za-z][A-Za-z0-9_]*)*\\Z", test) is not None
 
 class UserFcn(Fcn):
     """Represents a user-defined function."""
-- 
2.43.0


From af4505dee854ea2a79a95f3c4b714817ae693009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:01 +0000
Subject: [PATCH 065/137] fix: two parameters, or a key and a value, of the
 same name were accepted

---
 titus/pfaast.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index 02a38d9..557af78 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -1508,6 +1508,9 @@ class FcnDef(Argument):
         if len(self.paramsPlaceholder) > 22:
             raise PFASemanticException("function can have at most 22 parameters", self.pos)
 
+        if len(self.paramsDict) != len(self.paramsPlaceholder):
+            raise PFASemanticException("function has more than one parameter with the same name", self.pos)
+
         scope = symbolTable.newScope(True, False)
         for name, avroType in list(self.paramsDict.items()):
             if not validSymbolName(name):
@@ -4927,6 +4930,9 @@ class Forkeyval(Expression):
         if symbolTable.get(self.forval) is not None:
             raise PFASemanticException("symbol \"{0}\" may not be redeclared or shadowed".format(self.forval), self.pos)
 
+        if self.forkey == self.forval:
+            raise PFASemanticException("symbol \"{0}\" may not be redeclared or shadowed".format(self.forval), self.pos)
+
         if not validSymbolName(self.forkey):
             raise PFASemanticException("\"{0}\" is not a valid symbol name".format(self.forkey), self.pos)
         if not validSymbolName(self.forval):
-- 
2.43.0


From 2dba0d55add08a2e678272f51484ae0fa219474a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:02 +0000
Subject: [PATCH 066/137] fix: binary formats were read by their beginnings, so
 that int64 was taken for int

---
 titus/pfaast.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index 557af78..e6b6a60 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -5686,22 +5686,22 @@ class BinaryFormatter(object):
         :return: format declarer
         """
 
-        if re.match(BinaryFormatter.formatPad, f):             return BinaryFormatter.DeclarePad(value)
-        elif re.match(BinaryFormatter.formatBoolean, f):       return BinaryFormatter.DeclareBoolean(value)
-        elif re.match(BinaryFormatter.formatByte, f):          return BinaryFormatter.DeclareByte(value, False)
-        elif re.match(BinaryFormatter.formatUnsignedByte, f):  return BinaryFormatter.DeclareByte(value, True)
-        elif re.match(BinaryFormatter.formatShort, f):         return BinaryFormatter.DeclareShort(value, "<" in f or "little" in f, False)
-        elif re.match(BinaryFormatter.formatUnsignedShort, f): return BinaryFormatter.DeclareShort(value, "<" in f or "little" in f, True)
-        elif re.match(BinaryFormatter.formatInt, f):           return BinaryFormatter.DeclareInt(value, "<" in f or "little" in f, False)
-        elif re.match(BinaryFormatter.formatUnsignedInt, f):   return BinaryFormatter.DeclareInt(value, "<" in f or "little" in f, True)
-        elif re.match(BinaryFormatter.formatLong, f):          return BinaryFormatter.DeclareLong(value, "<" in f or "little" in f, False)
-        elif re.match(BinaryFormatter.formatUnsignedLong, f):  return BinaryFormatter.DeclareLong(value, "<" in f or "little" in f, True)
-        elif re.match(BinaryFormatter.formatFloat, f):         return BinaryFormatter.DeclareFloat(value, "<" in f or "little" in f)
-        elif re.match(BinaryFormatter.formatDouble, f):        return BinaryFormatter.DeclareDouble(value, "<" in f or "little" in f)
-        elif re.match(BinaryFormatter.formatRawSize, f):       return BinaryFormatter.DeclareRawSize(value, int(re.match(BinaryFormatter.formatRawSize, f).group(1)))
-        elif re.match(BinaryFormatter.formatToNull, f):        return BinaryFormatter.DeclareToNull(value)
-        elif re.match(BinaryFormatter.formatPrefixed, f):      return BinaryFormatter.DeclarePrefixed(value)
-        elif re.match(BinaryFormatter.formatRaw, f):
+        if re.fullmatch(BinaryFormatter.formatPad, f):             return BinaryFormatter.DeclarePad(value)
+        elif re.fullmatch(BinaryFormatter.formatBoolean, f):       return BinaryFormatter.DeclareBoolean(value)
+        elif re.fullmatch(BinaryFormatter.formatByte, f):          return BinaryFormatter.DeclareByte(value, False)
+        elif re.fullmatch(BinaryFormatter.formatUnsignedByte, f):  return BinaryFormatter.DeclareByte(value, True)
+        elif re.fullmatch(BinaryFormatter.formatShort, f):         return BinaryFormatter.DeclareShort(value, "<" in f or "little" in f, False)
+        elif re.fullmatch(BinaryFormatter.formatUnsignedShort, f): return BinaryFormatter.DeclareShort(value, "<" in f or "little" in f, True)
+        elif re.fullmatch(BinaryFormatter.formatInt, f):           return BinaryFormatter.DeclareInt(value, "<" in f or "little" in f, False)
+        elif re.fullmatch(BinaryFormatter.formatUnsignedInt, f):   return BinaryFormatter.DeclareInt(value, "<" in f or "little" in f, True)
+        elif re.fullmatch(BinaryFormatter.formatLong, f):          return BinaryFormatter.DeclareLong(value, "<" in f or "little" in f, False)
+        elif re.fullmatch(BinaryFormatter.formatUnsignedLong, f):  return BinaryFormatter.DeclareLong(value, "<" in f or "little" in f, True)
+        elif re.fullmatch(BinaryFormatter.formatFloat, f):         return BinaryFormatter.DeclareFloat(value, "<" in f or "little" in f)
+        elif re.fullmatch(BinaryFormatter.formatDouble, f):        return BinaryFormatter.DeclareDouble(value, "<" in f or "little" in f)
+        elif re.fullmatch(BinaryFormatter.formatRawSize, f):       return BinaryFormatter.DeclareRawSize(value, int(re.fullmatch(BinaryFormatter.formatRawSize, f).group(1)))
+        elif re.fullmatch(BinaryFormatter.formatToNull, f):        return BinaryFormatter.DeclareToNull(value)
+        elif re.fullmatch(BinaryFormatter.formatPrefixed, f):      return BinaryFormatter.DeclarePrefixed(value)
+        elif re.fullmatch(BinaryFormatter.formatRaw, f):
             if output:
                 return BinaryFormatter.DeclareRaw(value)
             else:
-- 
2.43.0


From 7be06a9d9a5371d521d3f4ba71c17bde2aaf789a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:02 +0000
Subject: [PATCH 067/137] fix: ill-formed Avro types ended in KeyError and
 TypeError

---
 titus/datatype.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/titus/datatype.py b/titus/datatype.py
index 854b4c2..05e6cf1 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -740,6 +740,9 @@ class ForwardDeclarationParser(object):
                         except avro.schema.SchemaParseException as err:
                             self.names = avro.schema.Names(names = oldnames)
                             errorMessages[jsonString] = str(err)
+                        except (AttributeError, KeyError, TypeError, ValueError) as err:   # required attributes missing or ill-formed
+                            self.names = avro.schema.Names(names = oldnames)
+                            errorMessages[jsonString] = "{0}: {1}".format(err.__class__.__name__, err)
                         else:
                             schemae[jsonString] = gotit
 
-- 
2.43.0


From f878c902db56087b876c77b771ded0d7f6536e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:02 +0000
Subject: [PATCH 068/137] fix: options that are no numbers were accepted or
 ended in a TypeError

---
 titus/options.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/titus/options.py b/titus/options.py
index 29127b2..1a5ce35 100644
--- a/titus/options.py
+++ b/titus/options.py
@@ -35,9 +35,11 @@ class EngineOptions(object):
 
         def longOpt(name, default):
             out = combinedOptions.get(name, default)
+            if isinstance(out, bool):
+                raise PFAInitializationException(name + " must be an integral number")
             try:
                 return int(out)
-            except ValueError:
+            except (TypeError, ValueError):
                 raise PFAInitializationException(name + " must be an integral number")
 
         self.timeout = longOpt("timeout", -1)
-- 
2.43.0


From 3ecf6091feaa3d60232c45c9e656e745702f9315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:02 +0000
Subject: [PATCH 069/137] fix: while and do-until loops without any statement
 were accepted

---
 titus/pfaast.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index e6b6a60..9fd9d0b 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -4335,6 +4335,9 @@ class While(Expression):
         if not isinstance(body, (list, tuple)) or not all(isinstance(x, Expression) for x in body):
             raise PFASyntaxException("\"body\" must be XXX", pos)
 
+        if len(self.body) < 1:
+            raise PFASyntaxException("\"do\" must contain at least one statement", pos)
+
     def collect(self, pf):
         """Walk over tree applying a partial function, returning a list of results in its domain.
 
@@ -4443,6 +4446,9 @@ class DoUntil(Expression):
         if not isinstance(predicate, Expression):
             raise PFASyntaxException("\"predicate\" must be an Expression", pos)
 
+        if len(self.body) < 1:
+            raise PFASyntaxException("\"do\" must contain at least one statement", pos)
+
     def collect(self, pf):
         """Walk over tree applying a partial function, returning a list of results in its domain.
 
-- 
2.43.0


From d7f219a3a781914f08de2f0a7efcd5bbe80cde3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 070/137] fix: an index after a call in a PrettyPFA operation
 applied to the whole operation

---
 titus/prettypfa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index dbe7ff3..fa5d55f 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -1633,7 +1633,8 @@ class Parser(object):
                       ("left", "PLUS", "MINUS"),
                       ("left", "TIMES", "FDIV", "IDIV", "MOD", "REM"),
                       ("right", "UMINUS", "BITNOT"),
-                      ("left", "POW")]
+                      ("left", "POW"),
+                      ("left", "LBRACKET")]
 
         def p_expression_replacement(p):
             r'''expression : REPLACEMENT'''
-- 
2.43.0


From bc7c3c7101d6637dbd1fe71001bac3bcfb7754e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 071/137] fix: PrettyPFA integers beyond int were read as ints

---
 titus/prettypfa.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index fa5d55f..fe529ec 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -495,7 +495,12 @@ class MiniNumber(MiniAst):
         return "MiniNumber({0})".format(repr(self.value))
     def asExpr(self, state):
         if isinstance(self.value, int):
-            return LiteralInt(self.value, self.pos)
+            if -2147483648 <= self.value <= 2147483647:
+                return LiteralInt(self.value, self.pos)
+            elif -9223372036854775808 <= self.value <= 9223372036854775807:
+                return LiteralLong(self.value, self.pos)
+            else:
+                raise PrettyPfaException("integer out of range: {0} at {1}".format(self.value, self.pos))
         else:
             return LiteralDouble(self.value, self.pos)
     def asJson(self):
-- 
2.43.0


From b262dc61b346334ba573f49949f650ad1894f3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 072/137] fix: PrettyPFA subtraction without spaces was refused

---
 titus/prettypfa.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index fe529ec..6e91f33 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -1274,7 +1274,7 @@ class Parser(object):
             return t
 
         def t_NUMBER(t):
-            r"-?(0|[1-9][0-9]*)(\.[0-9]*)?([eE][-+]?[0-9]+)?"
+            r"(0|[1-9][0-9]*)(\.[0-9]*)?([eE][-+]?[0-9]+)?"
             try:
                 t.value = Token("NUMBER", int(t.value), t.lexer.lineno)
             except ValueError:
@@ -1653,7 +1653,10 @@ class Parser(object):
         def p_expression_uminus(p):
             r'''expression : MINUS expression %prec UMINUS'''
             op, expr = p[1:]
-            p[0] = MiniCall("u-", [expr], op.lineno, op.lineno)
+            if isinstance(expr, MiniNumber) and not str(expr.value).startswith("-"):
+                p[0] = MiniNumber(-expr.value, op.lineno)
+            else:
+                p[0] = MiniCall("u-", [expr], op.lineno, op.lineno)
 
         def p_expression_bitnot(p):
             r'''expression : BITNOT expression'''
@@ -1796,18 +1799,19 @@ class Parser(object):
                 r'''cellpool : DOTNAME LPAREN arguments RPAREN "=" block
                              | DOTNAME LPAREN arguments RPAREN "=" bracketedargs
                              | DOTNAME LPAREN arguments RPAREN "=" NUMBER
+                             | DOTNAME LPAREN arguments RPAREN "=" MINUS NUMBER
                              | DOTNAME LPAREN arguments RPAREN "=" STRING
                              | DOTNAME LPAREN arguments RPAREN "=" RAWSTRING
                              | DOTNAME LPAREN arguments RPAREN "=" DOTNAME
                              | DOTNAME LPAREN arguments RPAREN "=" REPLACEMENT'''
                 name = p[1].v
-                token = p[6]
+                token = p[len(p) - 1]
                 if isinstance(token, (Subs, ResolvedSubs)):
                     init = token
                     high = token.lineno
                 elif isinstance(token, Token):
                     if token.t == "NUMBER":
-                        init = MiniNumber(token.v, token.lineno)
+                        init = MiniNumber(token.v if len(p) == 7 else -token.v, token.lineno)
                     elif token.t == "STRING":
                         init = MiniString(token.v, token.lineno)
                     elif token.t == "RAWSTRING":
-- 
2.43.0


From f1b6a3c341252238f2f876a1b28bf90d646cbea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 073/137] fix: PrettyPFA syntax errors on the last line ended
 in an IndexError

---
 titus/prettypfa.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index 6e91f33..bb3b559 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -1244,8 +1244,8 @@ class Parser(object):
 
         literals = [",", ";", ":", "=", "@"]
 
-        def insertArrow(lines, which):
-            lines[which] = lines[which] + "     <----"
+        def insertArrow(lines):
+            lines[0] = lines[0] + "     <----"
             return lines
 
         def t_COMMENT(t):
@@ -1452,7 +1452,7 @@ class Parser(object):
             if len(lines) < 2:
                 raise PrettyPfaException("Tokenizing syntax error: \"{0}\" at PrettyPFA line {1}: {2}".format(t.value[0], lineno, self.text))
             else:
-                offendingLine = "\n".join(insertArrow(lines[(lineno - 1):(lineno + 2)], 1))
+                offendingLine = "\n".join(insertArrow(lines[(lineno - 1):(lineno + 2)]))
                 raise PrettyPfaException("Tokenizing syntax error: \"{0}\" at PrettyPFA line {1}:\n{2}".format(t.value[0], lineno, offendingLine))
 
         self.lexer = lex.lex()
@@ -2112,7 +2112,7 @@ class Parser(object):
                 if len(lines) < 2:
                     raise PrettyPfaException("Parsing syntax error on line {0}: {1}".format(p.lineno, self.text))
                 else:
-                    offendingLine = "\n".join(insertArrow(lines[(lineno - 1):(lineno + 2)], 1))
+                    offendingLine = "\n".join(insertArrow(lines[(lineno - 1):(lineno + 2)]))
                     raise PrettyPfaException("Parsing syntax error on line {0}:\n{1}".format(p.lineno, offendingLine))
 
         self.yacc = yacc.yacc(debug=False, write_tables=False)
-- 
2.43.0


From ef4509a8b680c713c7b00d8fbc937648082b4e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 074/137] fix: PrettyPFA sections of texts with CRLF line ends
 were not recognized

---
 titus/prettypfa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index bb3b559..da64053 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -1261,7 +1261,7 @@ class Parser(object):
             def t_SECTION_HEADER(t):
                 r"(\r\n?|\n)+[a-z]+:"
                 t.lexer.lineno += len(re.findall(r"(\r\n?|\n)", t.value))
-                t.value = Token("SECTION_HEADER", t.value.lstrip("\n")[:-1], t.lexer.lineno)
+                t.value = Token("SECTION_HEADER", t.value.lstrip("\r\n")[:-1], t.lexer.lineno)
                 return t
 
         def t_DOTNAME(t):
-- 
2.43.0


From c4aaa4eecc5e7d044cfb7db8a014de6fb3f3e3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 075/137] fix: ill-formed PrettyPFA sections ended in TypeError
 and AttributeError

---
 titus/prettypfa.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index da64053..e4946fa 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -175,6 +175,17 @@ class Section(object):
     def __repr__(self):
         return "Section({0}, {1} at {2})".format(self.name, self.content, self.pos)
 
+    def items(self):
+        """Contents of the section as a list, even if it consists of only one item."""
+        return self.content if isinstance(self.content, (list, tuple)) else [self.content]
+
+    def engineName(self):
+        """Contents of the section as an engine name."""
+        items = self.items()
+        if len(items) != 1 or not isinstance(items[0], MiniDotName):
+            raise PrettyPfaException("name must be a single name at PrettyPFA line {0}".format(self.lineno))
+        return items[0].name
+
     def input(self, state):
         if isinstance(self.content, (list, tuple)):
             if len(self.content) == 1:
@@ -192,10 +203,10 @@ class Section(object):
         return state.avroTypeBuilder.makePlaceholder(jsonlib.dumps(self.content.asType(state)), state.avroTypeMemo)
 
     def cells(self, state):
-        return dict(x.asCell(state) for x in self.content)
+        return dict(x.asCell(state) for x in self.items())
 
     def pools(self, state):
-        return dict(x.asPool(state) for x in self.content)
+        return dict(x.asPool(state) for x in self.items())
 
     def method(self):
         if isinstance(self.content, (list, tuple)):
@@ -232,7 +243,7 @@ class Section(object):
         return [x.asExpr(state) for x in self.content]
 
     def fcns(self, state):
-        return dict(x.asFcn(state) for x in self.content)
+        return dict(x.asFcn(state) for x in self.items())
 
     def zero(self):
         if isinstance(self.content, (list, tuple)):
@@ -311,7 +322,7 @@ class MiniAst(object):
         raise PrettyPfaException("{0} ({1}) is not a type specification at {2}".format(self, type(self), self.pos))
     def asJson(self):
         raise PrettyPfaException("{0} ({1}) is not JSON at {2}".format(self, type(self), self.pos))
-    def asFcn(self):
+    def asFcn(self, state):
         raise PrettyPfaException("{0} ({1}) is not a function definition at {2}".format(self, type(self), self.pos))
     def asCell(self, state):
         raise PrettyPfaException("{0} ({1}) is not a cell definition at {2}".format(self, type(self), self.pos))
@@ -1483,7 +1494,7 @@ class Parser(object):
                 _options = {}
 
                 if "name" in keys:
-                    _name = sectionDict["name"].content.name
+                    _name = sectionDict["name"].engineName()
                 else:
                     _name = titus.util.uniqueEngineName()
 
@@ -1505,7 +1516,7 @@ class Parser(object):
                     _pools = sectionDict["pools"].pools(state)
 
                 if "fcns" in keys:
-                    for x in sectionDict["fcns"].content:
+                    for x in sectionDict["fcns"].items():
                         if isinstance(x, MiniNamedFcnDef):
                             state.functionNames.add("u." + x.name)
                 state.cellNames = set(_cells.keys())
-- 
2.43.0


From 14653801a599fe2ab6ba036ab973b4053145ee1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 076/137] fix: ill-formed PrettyPFA arguments ended in
 ValueError and AttributeError

---
 titus/prettypfa.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index e4946fa..2d8162d 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -547,6 +547,20 @@ class MiniCall(MiniAst):
     def __repr__(self):
         return "MiniCall({0}, [{1}])".format(self.name, ", ".join(map(repr, self.args)))
 
+    def decoded(self, value):
+        """Decode a base64-encoded literal."""
+        try:
+            return bytesToString(base64.b64decode(value))
+        except (TypeError, ValueError):
+            raise PrettyPfaException("{0} is not base64-encoded at {1}".format(value, self.pos))
+
+    def number(self, convert):
+        """Convert the argument of a numeric literal."""
+        try:
+            return convert(self.args[0].asJson())
+        except (TypeError, ValueError, OverflowError):
+            raise PrettyPfaException("{0} function argument must be a number, not {1}, at {2}".format(self.name, self.args[0], self.pos))
+
     def asExpr(self, state):
         if self.name == "json":
             if len(self.args) != 2:
@@ -566,29 +580,29 @@ class MiniCall(MiniAst):
             elif td == "string":
                 return LiteralString(v, self.pos)
             elif td == "bytes":
-                return LiteralBase64(bytesToString(base64.b64decode(v)), self.pos)
+                return LiteralBase64(self.decoded(v), self.pos)
             else:
                 return Literal(state.avroTypeBuilder.makePlaceholder(jsonlib.dumps(td), state.avroTypeMemo), jsonlib.dumps(v), self.pos)
 
         elif self.name == "int":
             if len(self.args) != 1:
                 raise PrettyPfaException("int function must have 1 argument, not {0}, at {1}".format(len(self.args), self.pos))
-            return LiteralInt(int(self.args[0].asJson()), self.pos)
+            return LiteralInt(self.number(int), self.pos)
 
         elif self.name == "long":
             if len(self.args) != 1:
                 raise PrettyPfaException("long function must have 1 argument, not {0}, at {1}".format(len(self.args), self.pos))
-            return LiteralLong(int(self.args[0].asJson()), self.pos)
+            return LiteralLong(self.number(int), self.pos)
 
         elif self.name == "float":
             if len(self.args) != 1:
                 raise PrettyPfaException("float function must have 1 argument, not {0}, at {1}".format(len(self.args), self.pos))
-            return LiteralFloat(float(self.args[0].asJson()), self.pos)
+            return LiteralFloat(self.number(float), self.pos)
 
         elif self.name == "double":
             if len(self.args) != 1:
                 raise PrettyPfaException("double function must have 1 argument, not {0}, at {1}".format(len(self.args), self.pos))
-            return LiteralDouble(float(self.args[0].asJson()), self.pos)
+            return LiteralDouble(self.number(float), self.pos)
 
         elif self.name == "string":
             if len(self.args) != 1:
@@ -598,8 +612,7 @@ class MiniCall(MiniAst):
         elif self.name == "bytes":
             if len(self.args) != 1:
                 raise PrettyPfaException("bytes function must have 1 argument, not {0}, at {1}".format(len(self.args), self.pos))
-            b64decodedString = bytesToString(base64.b64decode(self.args[0].asJson()))
-            return LiteralBase64(b64decodedString, self.pos)
+            return LiteralBase64(self.decoded(self.args[0].asJson()), self.pos)
 
         elif self.name == "do":
             return Do([x.asExpr(state) for x in self.args])
@@ -656,7 +669,7 @@ class MiniCall(MiniAst):
             elif len(params) == 1:
                 if params[0].name != "code":
                     raise PrettyPfaException("error function has only 1 optional parameter, \"code\", not {0}, at {1}".format(params[0].name, self.pos))
-                if not isinstance(params[0].typeExpr, MiniNumber) and not isinstance(params[0].typeExpr.value, int):
+                if not isinstance(params[0].typeExpr, MiniNumber) or not isinstance(params[0].typeExpr.value, int):
                     raise PrettyPfaException("error function has optional parameter \"code\" must be an integer, not {0}, at {1}".format(params[0].typeExpr, self.pos))
                 code = params[0].typeExpr.value
             else:
@@ -782,8 +795,10 @@ class MiniCall(MiniAst):
             elif len(others) == 1:
                 if isinstance(others[0], ResolvedSubs):
                     namespace, name = split(others[0].value)
-                else:
+                elif isinstance(others[0], MiniDotName):
                     namespace, name = split(others[0].name)
+                else:
+                    raise PrettyPfaException("record name should be an identifier, not {0}, at {1}".format(others[0], self.pos))
             else:
                 raise PrettyPfaException("apart from the field specifiers (which have colons), record type takes 0 or 1 argument, not {0} at {1}".format(len(others), self.pos))
 
-- 
2.43.0


From 45c05fc848dd697d7299ef3c960200a0a4dfbfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 077/137] fix: a parenthesized PrettyPFA if without else was
 merged with the if around it

---
 titus/prettypfa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index 2d8162d..f73ccaa 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -1760,6 +1760,7 @@ class Parser(object):
         def p_expression_group(p):
             r'''expression : LPAREN expression RPAREN'''
             p[0] = p[2]
+            p[0].grouped = True
 
         def p_rettype(p):
             r'''rettype : RARROW expression'''
@@ -1918,7 +1919,7 @@ class Parser(object):
                 elseClause = None
                 high = thenClause.high
 
-            if isinstance(elseClause, MiniIf):
+            if isinstance(elseClause, MiniIf) and not getattr(elseClause, "grouped", False):
                 p[0] = MiniIf([(predicate, thenClause)] + elseClause.pairs, elseClause.elseClause, p[1].lineno, high)
             else:
                 p[0] = MiniIf([(predicate, thenClause)], elseClause, p[1].lineno, high)
-- 
2.43.0


From c8eb8eee1095bcbfe8e7a3fcecd0e123210a791b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 078/137] fix: unresolved PrettyPFA substitutions in types
 ended in a TypeError

---
 titus/pfaast.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index 9fd9d0b..0a0e9ea 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -635,9 +635,12 @@ class Subs(Ast):
         return self
 
     def asType(self, state):
-        """Mini-AST method for representing as a type."""
-        self.context = "type"
-        return self
+        """Mini-AST method for representing as a type (raises a syntax exception because types can't be substituted later)."""
+        raise PFASyntaxException("Unresolved substitution \"{0}\"".format(self.name), self.pos)
+
+    def asJson(self):
+        """Mini-AST method for representing as JSON (raises a syntax exception because values can't be substituted later)."""
+        raise PFASyntaxException("Unresolved substitution \"{0}\"".format(self.name), self.pos)
 
     def walk(self, task, version):
         """Raises a syntax exception because unresolved substitutions are not allowed in valid PFA."""
-- 
2.43.0


From 311eca50a519cb981fcb3bf869b41dcba91b9141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 079/137] fix: PrettyPFA substitutions could not be left for
 later within expressions

---
 titus/pfaast.py | 98 ++++++++++++++++++++++++-------------------------
 1 file changed, 49 insertions(+), 49 deletions(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index 0a0e9ea..34b259f 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -608,55 +608,6 @@ class Ast(object):
         else:
             return OrderedDict()
 
-class Subs(Ast):
-    """Represents an unresolved substitution in the abstract syntax tree.
-
-    PrettyPFA can make substitutions with ``<<French quotes>>``.
-
-    A PFA document is not valid if it contains any unresolved substitutions.
-    """
-
-    def __init__(self, name, lineno=None):
-        """:type name: string
-        :param name: key for substitution
-        :type lineno: integer or ``None``
-        :param lineno: line number
-        """
-        self.name = name
-        self.pos = "Substitution at line " + str(lineno)
-        self.lineno = lineno
-        self.low = lineno
-        self.high = lineno
-        self.context = None
-
-    def asExpr(self, state):
-        """Mini-AST method for representing as an expression."""
-        self.context = "expr"
-        return self
-
-    def asType(self, state):
-        """Mini-AST method for representing as a type (raises a syntax exception because types can't be substituted later)."""
-        raise PFASyntaxException("Unresolved substitution \"{0}\"".format(self.name), self.pos)
-
-    def asJson(self):
-        """Mini-AST method for representing as JSON (raises a syntax exception because values can't be substituted later)."""
-        raise PFASyntaxException("Unresolved substitution \"{0}\"".format(self.name), self.pos)
-
-    def walk(self, task, version):
-        """Raises a syntax exception because unresolved substitutions are not allowed in valid PFA."""
-        raise PFASyntaxException("Unresolved substitution \"{0}\"".format(self.name), self.pos)
-
-    def toJson(self, lineNumbers=True):
-        """Raises a syntax exception because unresolved substitutions are not allowed in valid PFA."""
-        raise PFASyntaxException("Unresolved substitution \"{0}\"".format(self.name), self.pos)
-
-    def jsonNode(self, lineNumbers, memo):
-        """Inserts ``self`` into the Pythonized JSON, which would make it unserializable."""
-        return self
-
-    def __repr__(self):
-        return "<<" + self.name + ">>"
-        
 class Method(object):
     """PFA execution method may be "map", "emit", or "fold"."""
     MAP = "map"
@@ -1319,6 +1270,55 @@ class Expression(Argument):
     """Trait for all PFA expressions, which resolve to Avro-typed values."""
     pass
 
+class Subs(Expression):
+    """Represents an unresolved substitution in the abstract syntax tree.
+
+    PrettyPFA can make substitutions with ``<<French quotes>>``.
+
+    A PFA document is not valid if it contains any unresolved substitutions.
+    """
+
+    def __init__(self, name, lineno=None):
+        """:type name: string
+        :param name: key for substitution
+        :type lineno: integer or ``None``
+        :param lineno: line number
+        """
+        self.name = name
+        self.pos = "Substitution at line " + str(lineno)
+        self.lineno = lineno
+        self.low = lineno
+        self.high = lineno
+        self.context = None
+
+    def asExpr(self, state):
+        """Mini-AST method for representing as an expression."""
+        self.context = "expr"
+        return self
+
+    def asType(self, state):
+        """Mini-AST method for representing as a type (raises a syntax exception because types can't be substituted later)."""
+        raise PFASyntaxException("Unresolved substitution \"{0}\"".format(self.name), self.pos)
+
+    def asJson(self):
+        """Mini-AST method for representing as JSON (raises a syntax exception because values can't be substituted later)."""
+        raise PFASyntaxException("Unresolved substitution \"{0}\"".format(self.name), self.pos)
+
+    def walk(self, task, symbolTable, functionTable, engineOptions, version):
+        """Raises a syntax exception because unresolved substitutions are not allowed in valid PFA."""
+        raise PFASyntaxException("Unresolved substitution \"{0}\"".format(self.name), self.pos)
+
+    def toJson(self, lineNumbers=True):
+        """Raises a syntax exception because unresolved substitutions are not allowed in valid PFA."""
+        raise PFASyntaxException("Unresolved substitution \"{0}\"".format(self.name), self.pos)
+
+    def jsonNode(self, lineNumbers, memo):
+        """Inserts ``self`` into the Pythonized JSON, which would make it unserializable."""
+        return self
+
+    def __repr__(self):
+        return "<<" + self.name + ">>"
+        
 class LiteralValue(Expression):
     """Trait for all PFA literal values, which are known constants at compile-time."""
     pass
-- 
2.43.0


From fe7ac343f5e32367faa6c6974e5e6875df55db02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 080/137] fix: a key-value pair as a PrettyPFA expression ended
 in an AttributeError

---
 titus/prettypfa.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index f73ccaa..e11c3b3 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -854,7 +854,8 @@ class MiniParam(MiniAst):
         super(MiniParam, self).__init__(low, high)
     def __repr__(self):
         return "MiniParam({0}, {1})".format(self.name, repr(self.typeExpr))
-    def asExpr(self, state):
+    def asParam(self, state):
+        """Representation as a function parameter (a "key: value" pair is not an expression)."""
         return {self.name: state.avroTypeBuilder.makePlaceholder(jsonlib.dumps(self.typeExpr.asType(state)), state.avroTypeMemo)}
 
 class MiniFcnDef(MiniAst):
@@ -867,7 +868,7 @@ class MiniFcnDef(MiniAst):
     def __repr__(self):
         return "MiniFcnDef({0}, {1}, {2})".format(", ".join(map(repr, self.parameters)), repr(self.retType), ", ".join(map(repr, self.definition)))
     def asExpr(self, state):
-        return FcnDef([x.asExpr(state) for x in self.parameters],
+        return FcnDef([x.asParam(state) for x in self.parameters],
                       state.avroTypeBuilder.makePlaceholder(jsonlib.dumps(self.retType.asType(state)), state.avroTypeMemo),
                       [x.asExpr(state) for x in self.definition])
 
@@ -882,7 +883,7 @@ class MiniNamedFcnDef(MiniAst):
     def __repr__(self):
         return "MiniNamedFcnDef({0}, {1}, {2}, {3})".format(self.name, ", ".join(map(repr, self.parameters)), repr(self.retType), ", ".join(map(repr, self.definition)))
     def asFcn(self, state):
-        return (self.name, FcnDef([x.asExpr(state) for x in self.parameters],
+        return (self.name, FcnDef([x.asParam(state) for x in self.parameters],
                                   state.avroTypeBuilder.makePlaceholder(jsonlib.dumps(self.retType.asType(state)), state.avroTypeMemo),
                                   [x.asExpr(state) for x in self.definition]))
 
-- 
2.43.0


From 509c606593a61cadccf2aba8d10831cc9f8cc51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:08 +0000
Subject: [PATCH 081/137] fix: powers of integers beyond 2^53 were rounded

---
 titus/lib/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/titus/lib/core.py b/titus/lib/core.py
index c610c9e..aabf330 100644
--- a/titus/lib/core.py
+++ b/titus/lib/core.py
@@ -211,7 +211,12 @@ class Pow(LibFcn):
     sig = Sig([{"x": P.Wildcard("A", anyNumber)}, {"y": P.Wildcard("A")}], P.Wildcard("A"))
     errcodeBase = 18080
     def __call__(self, state, scope, pos, paramTypes, x, y):
-        out = powLikeJava(x, y)
+        if paramTypes[-1] in ("int", "long") and (y >= 0 or abs(x) == 1):
+            # powers of integers are exact (those that can't be in range are not worked out)
+            out = x**abs(y) if abs(x) <= 1 or y < 64 else LONG_MAX_VALUE + 1
+            out = max(min(out, LONG_MAX_VALUE + 1), LONG_MIN_VALUE - 1)
+        else:
+            out = powLikeJava(x, y)
         if paramTypes[-1] == "int":
             if math.isnan(out) or out < INT_MIN_VALUE or out > INT_MAX_VALUE:
                 raise PFARuntimeException("int overflow", self.errcodeBase + 0, self.name, pos)
-- 
2.43.0


From d9bb2a6fde597116862bd352b12f6975cb403a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:08 +0000
Subject: [PATCH 082/137] fix: m.round rounded 0.49999999999999994 up and large
 odd doubles to their neighbors

---
 titus/lib/pfamath.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/titus/lib/pfamath.py b/titus/lib/pfamath.py
index 265e468..dc56231 100644
--- a/titus/lib/pfamath.py
+++ b/titus/lib/pfamath.py
@@ -269,7 +269,9 @@ class Round(LibFcn):
         if math.isinf(x) or math.isnan(x):
             out = x
         else:
-            out = math.floor(x + 0.5)
+            out = math.floor(x)
+            if x - out >= 0.5:
+                out += 1
         return int(checkForOverflow(paramTypes[-1], out, self.errcodeBase + 0, self.errcodeBase + 1, self.name, pos))
 provide(Round())
 
-- 
2.43.0


From d717e9aac49b9aa5621b6fdd1814299650a81617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:08 +0000
Subject: [PATCH 083/137] fix: the remainder %% of large integers was computed
 in floating point

---
 titus/lib/core.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/titus/lib/core.py b/titus/lib/core.py
index aabf330..358c8a6 100644
--- a/titus/lib/core.py
+++ b/titus/lib/core.py
@@ -135,17 +135,12 @@ class Remainder(LibFcn):
                 raise PFARuntimeException("integer division by zero", self.errcodeBase + 0, self.name, pos)
             else:
                 return float("nan")
+        elif isinstance(x, int) and isinstance(y, int):
+            return abs(x) % abs(y) * (-1 if x < 0 else 1)
+        elif math.isinf(x):
+            return float("nan")
         else:
-            if not math.isnan(x) and not math.isinf(x) and math.isinf(y):
-                return x
-            else:
-                out = x % y
-                if x < 0 and out > 0:
-                    return out - abs(y)
-                elif x > 0 and out < 0:
-                    return out + abs(y)
-                else:
-                    return out
+            return math.fmod(x, y)
 provide(Remainder())
 
 def powLikeJava(x, y):
-- 
2.43.0


From ebf95e5a7b7963a49d7477fc0448084d4ba260af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:08 +0000
Subject: [PATCH 084/137] fix: map.zipmap refused maps of the same keys in
 another order

---
 titus/lib/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/lib/map.py b/titus/lib/map.py
index 8c99cd9..deb4a23 100644
--- a/titus/lib/map.py
+++ b/titus/lib/map.py
@@ -504,7 +504,7 @@ class ZipMap(LibFcn):
         maps = args[:-1]
         keys = list(maps[0].keys())
         for m in maps:
-            if keys != list(m.keys()):
+            if set(keys) != set(m.keys()):
                 raise PFARuntimeException("misaligned maps", self.errcodeBase + 0, self.name, pos)
         out = {}
         for k in keys:
@@ -523,7 +523,7 @@ class ZipMapWithKey(LibFcn):
         maps = args[:-1]
         keys = list(maps[0].keys())
         for m in maps:
-            if keys != list(m.keys()):
+            if set(keys) != set(m.keys()):
                 raise PFARuntimeException("misaligned maps", self.errcodeBase + 0, self.name, pos)
         out = {}
         for k in keys:
-- 
2.43.0


From d33987b38191219e3a90e428012765199bf71e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:08 +0000
Subject: [PATCH 085/137] fix: tests of the encoding of bytes made by functions
 ended in a TypeError

---
 titus/lib/bytes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/titus/lib/bytes.py b/titus/lib/bytes.py
index 75b7299..f305cf1 100644
--- a/titus/lib/bytes.py
+++ b/titus/lib/bytes.py
@@ -83,6 +83,8 @@ class Tester(LibFcn):
     def __call__(self, state, scope, pos, paramTypes, x):
         if paramTypes[0] == "bytes" or paramTypes[0] == {"type": "bytes"}:
             try:
+                if isinstance(x, str):
+                    x = stringToBytes(x)
                 codecs.decode(x, self.codec, "strict")
             except UnicodeDecodeError:
                 return False
-- 
2.43.0


From b566dee77a7ad12b1fff7b45db6e939d3e2cae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:08 +0000
Subject: [PATCH 086/137] fix: cast.int and cast.long rounded
 0.49999999999999994 up and large odd doubles to their neighbors

---
 titus/lib/cast.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/titus/lib/cast.py b/titus/lib/cast.py
index 5910d7d..830f6c5 100644
--- a/titus/lib/cast.py
+++ b/titus/lib/cast.py
@@ -102,7 +102,9 @@ class ToInt(LibFcn):
                 if math.isnan(x):
                     raise OverflowError
                 else:
-                    out = int(math.floor(x + 0.5))
+                    out = int(math.floor(x))
+                    if x - out >= 0.5:
+                        out += 1
             else:
                 out = x
             if INT_MIN_VALUE <= out <= INT_MAX_VALUE:
@@ -126,7 +128,9 @@ class ToLong(LibFcn):
                 if math.isnan(x):
                     raise OverflowError
                 else:
-                    out = int(math.floor(x + 0.5))
+                    out = int(math.floor(x))
+                    if x - out >= 0.5:
+                        out += 1
             else:
                 out = x
             if LONG_MIN_VALUE <= out <= LONG_MAX_VALUE:
-- 
2.43.0


From a76d7ac4eba1706b26805e510451c35ef0c3a1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:08 +0000
Subject: [PATCH 087/137] fix: cast.avro and sets failed for bytes, fixed and
 unions within records, arrays and maps

---
 titus/datatype.py | 31 +++++++++++++++++++++++--------
 titus/lib/cast.py |  6 +++---
 titus/lib/map.py  |  2 +-
 3 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 05e6cf1..abce0f1 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -983,7 +983,20 @@ def jsonDecoder(avroType, value):
         raise Exception
     raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=bytesToString), ts(avroType)))
 
-def jsonEncoder(avroType, value, tagged=True):
+def avroEncoder(avroType, value):
+    """Prepare an object for the Avro library's DatumWriter, given titus.datatype.AvroType: unions are untagged and bytes are Python ``bytes``, on all levels.
+
+    :type avroType: titus.datatype.AvroType
+    :param avroType: type of this object
+    :type value: dicts, lists, strings, numbers, ``True``, ``False``, ``None``
+    :param value: an object of this type, as used by PFA functions
+    :rtype: dicts, lists, strings, bytes, numbers, ``True``, ``False``, ``None``
+    :return: the datum
+    """
+
+    return jsonEncoder(avroType, value, False, lambda x: x if isinstance(x, bytes) else stringToBytes(x))
+
+def jsonEncoder(avroType, value, tagged=True, encodeRaw=lambda x: bytesToString(x) if isinstance(x, bytes) else x):
     """Encode an object as JSON, given titus.datatype.AvroType.
 
     :type avroType: titus.datatype.AvroType
@@ -992,6 +1005,8 @@ def jsonEncoder(avroType, value, tagged=True):
     :param value: the object returned from PFAEngine.action
     :type tagged: bool
     :param tagged: if True, represent unions as ``{tag: value}``; if False, represent them simply as ``value``.
+    :type encodeRaw: callable
+    :param encodeRaw: function applied to the data of bytes and fixed (``bytes`` or strings of characters up to 255)
     :rtype: dicts, lists, strings, numbers, ``True``, ``False``, ``None``
     :return: the JSON object in Python encoding
     """
@@ -1009,23 +1024,23 @@ def jsonEncoder(avroType, value, tagged=True):
     elif isinstance(avroType, AvroDouble) and isinstance(value, (int, float)) and value is not True and value is not False:
         return float(value)
     elif isinstance(avroType, AvroBytes) and isRawData(value):
-        return bytesToString(value) if isinstance(value, bytes) else value
+        return encodeRaw(value)
     elif isinstance(avroType, AvroFixed) and isRawData(value):
         if len(value) == avroType.size:
-            return bytesToString(value) if isinstance(value, bytes) else value
+            return encodeRaw(value)
     elif isinstance(avroType, AvroString) and isinstance(value, str):
         return value
     elif isinstance(avroType, AvroEnum) and isinstance(value, str) and value in avroType.symbols:
         return value
     elif isinstance(avroType, AvroArray) and isinstance(value, (list, tuple)):
-        return [jsonEncoder(avroType.items, x, tagged) for x in value]
+        return [jsonEncoder(avroType.items, x, tagged, encodeRaw) for x in value]
     elif isinstance(avroType, AvroMap) and isinstance(value, dict):
-        return dict((k, jsonEncoder(avroType.values, v, tagged)) for k, v in list(value.items()))
+        return dict((k, jsonEncoder(avroType.values, v, tagged, encodeRaw)) for k, v in list(value.items()))
     elif isinstance(avroType, AvroRecord) and isinstance(value, dict):
         out = {}
         for field in avroType.fields:
             if field.name in value:
-                out[field.name] = jsonEncoder(field.avroType, value[field.name], tagged)
+                out[field.name] = jsonEncoder(field.avroType, value[field.name], tagged, encodeRaw)
             elif field.default is not None:
                 pass
             else:
@@ -1041,7 +1056,7 @@ def jsonEncoder(avroType, value, tagged=True):
                 if unionTag(t) != tag:
                     continue
                 try:
-                    out = jsonEncoder(t, val, tagged)
+                    out = jsonEncoder(t, val, tagged, encodeRaw)
                 except titus.errors.AvroException:
                     pass
                 else:
@@ -1051,7 +1066,7 @@ def jsonEncoder(avroType, value, tagged=True):
                         return out
         for t in avroType.types:
             try:
-                out = jsonEncoder(t, value, tagged)
+                out = jsonEncoder(t, value, tagged, encodeRaw)
             except titus.errors.AvroException:
                 pass
             else:
diff --git a/titus/lib/cast.py b/titus/lib/cast.py
index 830f6c5..6d33b76 100644
--- a/titus/lib/cast.py
+++ b/titus/lib/cast.py
@@ -24,7 +24,7 @@ import json
 import avro.schema
 from avro.io import BinaryEncoder, DatumWriter
 
-from titus.util import untagUnion, bytesToString
+from titus.util import bytesToString
 from titus.datatype import schemaToAvroType
 from titus.datatype import jsonNodeToAvroType
 from titus.fcn import Fcn
@@ -41,7 +41,7 @@ from titus.lib.core import FLOAT_MIN_VALUE
 from titus.lib.core import FLOAT_MAX_VALUE
 from titus.lib.core import DOUBLE_MIN_VALUE
 from titus.lib.core import DOUBLE_MAX_VALUE
-from titus.datatype import jsonEncoder
+from titus.datatype import avroEncoder, jsonEncoder
 import titus.P as P
 
 provides = {}
@@ -279,7 +279,7 @@ class CastAvro(LibFcn):
     errcodeBase = 17110
     def __call__(self, state, scope, pos, paramTypes, x):
         schema = avro.schema.Parse(json.dumps(paramTypes[0]))
-        x = untagUnion(x, paramTypes[0])
+        x = avroEncoder(jsonNodeToAvroType(paramTypes[0]), x)
         bytes_io = io.BytesIO()
         writer = DatumWriter(schema)
         writer.write(x, BinaryEncoder(bytes_io))
diff --git a/titus/lib/map.py b/titus/lib/map.py
index deb4a23..030a085 100644
--- a/titus/lib/map.py
+++ b/titus/lib/map.py
@@ -41,7 +41,7 @@ prefix = "map."
 
 class ObjKey(object):
     def toKey(self, x, avroType):
-        x = jsonEncoder(avroType, x, False)
+        x = avroEncoder(avroType, x)
         bytes = io.BytesIO()
         writer = DatumWriter(avroType.schema)
         writer.write(x, BinaryEncoder(bytes))
-- 
2.43.0


From 54ece589ba20ed3243dfe483765b5ca1ccdaf297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:08 +0000
Subject: [PATCH 088/137] fix: regular expressions on bytes depended on the
 locale of the process

---
 titus/lib/regex.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/titus/lib/regex.py b/titus/lib/regex.py
index a7b6b2b..5169fba 100644
--- a/titus/lib/regex.py
+++ b/titus/lib/regex.py
@@ -116,7 +116,7 @@ class Regexer(object):
         # keep track of haystack unicode indexes
         # compile pattern into regex_t object
         self.utf8 = utf8
-        self.locale = Utf8Locale(Regexer.libc if utf8 else None)
+        self.locale = CharLocale(Regexer.libc, utf8)
         regex_t = Regexer.Regex_t()
         with self.locale:
             comp = Regexer.libc.regcomp(ctypes.byref(regex_t), pattern, Regexer.clibSpecs.posixExtendedSyntaxFlag)
@@ -170,29 +170,30 @@ class Regexer(object):
         Regexer.libc.regfree(ctypes.byref(self.regex_t))
 
 # region class (for use similar to joni in scala)
-class Utf8Locale(object):
-    """Lets the C library take bytes for UTF-8 characters, in this thread and for as long as the context lasts."""
+class CharLocale(object):
+    """Lets the C library take bytes for UTF-8 characters or each for a character of its own, in this thread and for as long as the context lasts."""
 
-    locale = None
+    locales = {}
 
-    def __init__(self, libc):
+    def __init__(self, libc, utf8):
         self.libc = libc
-        if libc is not None and Utf8Locale.locale is None:
+        if utf8 not in CharLocale.locales:
             libc.newlocale.restype = ctypes.c_void_p
             libc.newlocale.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_void_p]
             libc.uselocale.restype = ctypes.c_void_p
             libc.uselocale.argtypes = [ctypes.c_void_p]
-            for name in b"C.UTF-8", b"en_US.UTF-8", b"UTF-8":
-                Utf8Locale.locale = libc.newlocale(1 << 0 if sys.platform.startswith("linux") else 1 << 1, name, None)
-                if Utf8Locale.locale:
+            for name in [b"C.UTF-8", b"en_US.UTF-8", b"UTF-8"] if utf8 else [b"C"]:
+                CharLocale.locales[utf8] = libc.newlocale(1 << 0 if sys.platform.startswith("linux") else 1 << 1, name, None)
+                if CharLocale.locales[utf8]:
                     break
+        self.locale = CharLocale.locales[utf8]
 
     def __enter__(self):
-        if self.libc is not None and Utf8Locale.locale:
-            self.previous = self.libc.uselocale(Utf8Locale.locale)
+        if self.locale:
+            self.previous = self.libc.uselocale(self.locale)
 
     def __exit__(self, *args):
-        if self.libc is not None and Utf8Locale.locale:
+        if self.locale:
             self.libc.uselocale(self.previous)
 
 class Region(object):
-- 
2.43.0


From 1c0f13ec8d30cebfe9c21fd4c2cce582403b80df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:36 +0000
Subject: [PATCH 089/137] fix: time.isWorkHours counted the weekend

---
 titus/lib/pfatime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/pfatime.py b/titus/lib/pfatime.py
index 1c9f356..8dcf5cd 100644
--- a/titus/lib/pfatime.py
+++ b/titus/lib/pfatime.py
@@ -239,5 +239,5 @@ class IsWorkHours(LibFcn):
         dt = tz(datetime.datetime.fromtimestamp(tscheck(ts, self.errcodeBase + 1, self.name, pos), UTC()), zone, self.errcodeBase + 0, self.name, pos)
         day = dt.weekday()
         hour = dt.hour
-        return (day != 5 or day != 6) and (hour >= 9 and hour < 17)
+        return day != 5 and day != 6 and (hour >= 9 and hour < 17)
 provide(IsWorkHours())
-- 
2.43.0


From d40c417443ffcbceb5128f06a3587edecd1dbc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:36 +0000
Subject: [PATCH 090/137] fix: local times beyond the range of dates ended in
 an OverflowError

---
 titus/lib/pfatime.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/titus/lib/pfatime.py b/titus/lib/pfatime.py
index 8dcf5cd..f4f9a5e 100644
--- a/titus/lib/pfatime.py
+++ b/titus/lib/pfatime.py
@@ -55,6 +55,8 @@ def tz(dt, zone, code, name, pos):
             return dt.astimezone(pytz().timezone(zone))
         except pytz().exceptions.UnknownTimeZoneError:
             raise PFARuntimeException("unrecognized timezone string", code, name, pos)
+        except OverflowError:
+            raise PFARuntimeException("timestamp out of range", code + 1, name, pos)
 
 def tscheck(ts, code, name, pos):
     if math.isnan(ts) or ts < -62135596800 or ts > 253402300799:
@@ -139,10 +141,10 @@ class MakeTimestamp(LibFcn):
                 dt = pytz().timezone(zone).localize(datetime.datetime(year, month, day, hour, minute, second, microsecond))
         except pytz().exceptions.UnknownTimeZoneError:
             raise PFARuntimeException("unrecognized timezone string", self.errcodeBase + 0, self.name, pos)
-        except ValueError:
+        except (ValueError, OverflowError):
             raise PFARuntimeException("timestamp undefined for given parameters", self.errcodeBase + 1, self.name, pos)
         else:
-            return (dt.astimezone(UTC()) - self.epoch).total_seconds()
+            return (dt - self.epoch).total_seconds()
 provide(MakeTimestamp())
 
 class IsSecondOfMinute(LibFcn):
-- 
2.43.0


From 9c68dda07021c3693705a067b684fc9dcec8e146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:36 +0000
Subject: [PATCH 091/137] fix: stat.sample.fillHistogram and fillHistogram2d
 failed for values just below the upper edge and for very wide ranges

---
 titus/lib/stat/sample.py | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/titus/lib/stat/sample.py b/titus/lib/stat/sample.py
index 214d4ff..91edc09 100644
--- a/titus/lib/stat/sample.py
+++ b/titus/lib/stat/sample.py
@@ -434,6 +434,16 @@ class ForecastHoltWinters(LibFcn):
 
 provide(ForecastHoltWinters())
 
+def binIndex(x, low, high, numbins):
+    """Index of the bin that contains x, which is at least low and less than high."""
+    width = high - low
+    if math.isinf(width):
+        fraction = (x/2.0 - low/2.0) / (high/2.0 - low/2.0)
+    else:
+        fraction = (x - low) / width
+    # rounding can bring a value just below high to the upper edge
+    return min(int(math.floor(fraction * numbins)), numbins - 1)
+
 class FillHistogram(LibFcn):
     name = prefix + "fillHistogram"
     sig = Sigs([Sig([{"x": P.Double()}, {"w": P.Double()}, {"histogram": P.WildRecord("A", {"numbins": P.Int(), "low": P.Double(), "high": P.Double(), "values": P.Array(P.Double())})}], P.Wildcard("A")),
@@ -507,18 +517,7 @@ class FillHistogram(LibFcn):
                 underflow, overflow, nanflow, infflow = False, False, False, False
 
             if not underflow and not overflow and not nanflow and not infflow:
-                try:
-                    indexFloat = math.floor((x - low) / (high - low) * numbins)
-                except ZeroDivisionError:
-                    index = 0
-                else:
-                    if math.isinf(indexFloat):
-                        if indexFloat > 0:
-                            index = INT_MAX_VALUE
-                        else:
-                            index = INT_MIN_VALUE
-                    else:
-                        index = int(indexFloat)
+                index = binIndex(x, low, high, numbins)
                 newValues = list(values)
                 newValues[index] = newValues[index] + w
             else:
@@ -675,14 +674,8 @@ class FillHistogram2d(LibFcn):
             underunderflow, undermidflow, underoverflow, midunderflow, midoverflow, overunderflow, overmidflow, overoverflow, nanflow, infflow = False, False, False, False, False, False, False, False, False, False
 
         if not underunderflow and not undermidflow and not underoverflow and not midunderflow and not midoverflow and not overunderflow and not overmidflow and not overoverflow and not nanflow and not infflow:
-            try:
-                xindex = int(math.floor((x - xlow) / (xhigh - xlow) * xnumbins))
-            except ZeroDivisionError:
-                xindex = 0
-            try:
-                yindex = int(math.floor((y - ylow) / (yhigh - ylow) * ynumbins))
-            except ZeroDivisionError:
-                yindex = 0
+            xindex = binIndex(x, xlow, xhigh, xnumbins)
+            yindex = binIndex(y, ylow, yhigh, ynumbins)
             newValues = [list(x) for x in values]
             newValues[xindex][yindex] = newValues[xindex][yindex] + w
         else:
-- 
2.43.0


From a1d71d78961846eaf1a3d58cf64358abde26b721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:36 +0000
Subject: [PATCH 092/137] fix: stat.sample.fillHistogram counted everything in
 the first bin of a growing histogram without bins

---
 titus/lib/stat/sample.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/titus/lib/stat/sample.py b/titus/lib/stat/sample.py
index 91edc09..accfde7 100644
--- a/titus/lib/stat/sample.py
+++ b/titus/lib/stat/sample.py
@@ -545,11 +545,7 @@ class FillHistogram(LibFcn):
                 underflow, overflow, nanflow, infflow = False, False, False, False
                 
             if not underflow and not overflow and not nanflow and not infflow:
-                currentHigh = low + binsize * len(values)
-                try:
-                    index = int(math.floor((x - low) / (currentHigh - low) * len(values)))
-                except ZeroDivisionError:
-                    index = 0
+                index = int(math.floor((x - low) / binsize))
                 if index < len(values):
                     newValues = list(values)
                     newValues[index] = newValues[index] + w
-- 
2.43.0


From 3ba53215b2e004ed5455ba00bd1a1c405fe27860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:36 +0000
Subject: [PATCH 093/137] fix: stat.change.zValue failed with a raw
 ZeroDivisionError for a count of one

---
 titus/lib/stat/change.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/titus/lib/stat/change.py b/titus/lib/stat/change.py
index ba0ad2b..a1393f3 100644
--- a/titus/lib/stat/change.py
+++ b/titus/lib/stat/change.py
@@ -78,10 +78,12 @@ class ZValue(LibFcn):
         else:
             unbiased, = args
             count = meanVariance["count"]
-            if count / (count - 1.0) >= 0.0:
-                correction = math.sqrt((count) / (count - 1.0))
+            ratio = div(count, count - 1.0)
+            if ratio >= 0.0:
+                correction = math.sqrt(ratio)
             else:
                 correction = float("nan")
+
             if unbiased:
                 return div(x - mean, sigma) * correction
             else:
-- 
2.43.0


From ea1311ea33c9c6a594ee231db18758867412ecbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:36 +0000
Subject: [PATCH 094/137] fix: stat.test.kolmogorov saw a distance between
 samples that differ only in their repetitions

---
 titus/lib/stat/pfatest.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/titus/lib/stat/pfatest.py b/titus/lib/stat/pfatest.py
index ddd9940..69a17cd 100644
--- a/titus/lib/stat/pfatest.py
+++ b/titus/lib/stat/pfatest.py
@@ -60,14 +60,18 @@ class KSTwoSample(LibFcn):
                 d1 = x[j1]
                 d2 = y[j2]
                 if d1 <= d2:
-                    j1 += 1
+                    while j1 < n1 and x[j1] == d1:
+                        j1 += 1
                     fn1 = float(j1)/n1
                 if d2 <= d1:
-                    j2 += 1
+                    while j2 < n2 and y[j2] == d2:
+                        j2 += 1
                     fn2 = float(j2)/n2
                 dt = abs(fn2 - fn1)
                 if dt > d:
                     d = dt
+            if d == 0.0:
+                return 1.0
             en = math.sqrt((n1 * n2)/float(n1 + n2))
             stat = (en + 0.12 + 0.11/en)*d
             return 1.0 - kolomogorov_cdf(stat)
-- 
2.43.0


From 3dcdf8c22215ba9decb272d2ddaa881b736d68b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:32 +0000
Subject: [PATCH 095/137] fix: cart scored numerical splits that cannot be made
 and counted one record too many on their upper side

---
 titus/producer/cart.py | 79 ++++++++++++++++++++++++------------------
 1 file changed, 46 insertions(+), 33 deletions(-)

diff --git a/titus/producer/cart.py b/titus/producer/cart.py
index 76238d1..09bf2dc 100644
--- a/titus/producer/cart.py
+++ b/titus/producer/cart.py
@@ -307,6 +307,10 @@ class TreeNode(object):
                 else:
                     raise RuntimeError
 
+                # all of the data have the same value in this field
+                if gainTerm is None:
+                    continue
+
                 # the gainTerm functions don't include this constant (n-times-variance of the unsplit node)
                 gainTerm += self.nTimesVariance
 
@@ -339,6 +343,10 @@ class TreeNode(object):
                 else:
                     raise RuntimeError
 
+                # all of the data have the same value in this field
+                if gainTerm is None:
+                    continue
+
                 # the gainTerm functions don't include this constant (entropy of the unsplit node)
                 gainTerm += self.entropy
 
@@ -352,6 +360,10 @@ class TreeNode(object):
         else:
             raise RuntimeError
 
+        # there is no field to split
+        if self.field is None:
+            return
+
         # construct a new dataset by splitting the best field, best split
         if self.field.tpe == numbers.Real:
             passSelection = self.field.data <= self.split
@@ -375,6 +387,31 @@ class TreeNode(object):
             self.passBranch = TreeNode(passDataset, passPredictand, self.maxSubsetSize)
             self.failBranch = TreeNode(failDataset, failPredictand, self.maxSubsetSize)
 
+    @staticmethod
+    def bestCut(values, gains):
+        """Find the best numerical cut.
+
+        :type values: 1-d Numpy array
+        :param values: values of the predictor in ascending order
+        :type gains: 1-d Numpy array
+        :param gains: gain terms of the splits after each index
+        :rtype: (number, number) or (``None``, ``None``)
+        :return: (best gain term, best cut value), with ``None`` for both if all values are equal
+        """
+
+        # only consider cuts between unequal values
+        cuts = numpy.nonzero(values[:-1] < values[1:])[0]
+        if len(cuts) == 0:
+            return None, None
+
+        # find the highest gain, preferring larger indexes if there's a tie
+        # (that's why we reverse the order of the list with [::-1] and then correct for the index for the reversal)
+        maxGainIndex = cuts[len(cuts) - 1 - numpy.argmax(gains[cuts][::-1])]
+
+        # for niceness, put the cut between the best index (assuming the cut is "<=") and the next one,
+        # so that the cut could equivalently be "<"
+        return gains[maxGainIndex], (values[maxGainIndex] + values[maxGainIndex + 1]) / 2.0
+
     def numericalEntropyGainTerm(self, field):
         """Split a numerical predictor in such a way that maximizes entropic gain above and below the threshold of the split."""
 
@@ -387,7 +424,7 @@ class TreeNode(object):
         
         # for normalizing
         numInSelection = numpy.arange(1, self.datasetSize + 1, dtype=numpy.dtype(float))
-        numNotInSelection = numpy.arange(self.datasetSize, 0, -1, dtype=numpy.dtype(float))
+        numNotInSelection = self.datasetSize - numInSelection
 
         # sum over the values array using Numpy iteration
         selectionEntropy = numpy.zeros(self.datasetSize, dtype=numpy.dtype(float))
@@ -416,24 +453,10 @@ class TreeNode(object):
 
             antiSelectionEntropy -= selectionEntropyTerm
 
-        # calculate gain for all possible index splits
-        # (even if some are not unique--- it's faster to just have Numpy scan over them than to try to skip them)
+        # calculate gain for all index splits
         gains = -(numInSelection/self.datasetSize)*selectionEntropy - (numNotInSelection/self.datasetSize)*antiSelectionEntropy
 
-        # find the highest gain, preferring larger indexes if there's a tie
-        # (that's why we reverse the order of the list with [::-1] and then correct for the index for the reversal)
-        maxGainIndex = len(gains) - 1 - numpy.argmax(gains[::-1])
-        gainTerm = gains[maxGainIndex]
-
-        # for niceness, put the cut between the best index (assuming the cut is "<=") and the next one,
-        # so that the cut could equivalently be "<"
-        # (the next higher should be exactly one higher because we picked the larger indexes in a tie above)
-        nextHigher = maxGainIndex
-        while nextHigher < self.datasetSize - 1 and values[nextHigher] == values[maxGainIndex]:
-            nextHigher += 1
-        cutValue = (values[maxGainIndex] + values[nextHigher]) / 2.0
-
-        return gainTerm, cutValue
+        return self.bestCut(values, gains)
 
     def categoricalEntropyGainTerm(self, field, maxSubsetSize=None):
         """Split a categorical predictor in such a way that maximizes entropic gain inside and outside of a subset of predictor values.
@@ -474,6 +497,8 @@ class TreeNode(object):
         # we will iterate over (N choose k) for all k from 1 to the highest informative k (half of N, rounding up)
         # or a user-supplied maxSubsetSize (to avoid very long calculations)
         maxInformativeSubset = int(math.ceil(len(remainingPredictorCategories) / 2.0))
+        if len(remainingPredictorCategories) < 2:
+            return None, None
         if maxSubsetSize is None:
             maxSubsetSize = maxInformativeSubset
         else:
@@ -546,24 +571,10 @@ class TreeNode(object):
         nTimesVarianceInSelection = sumxxsel[:-1] - (sumxsel[:-1]**2/sum1sel[:-1])
         nTimesVarianceInAntiselection = sumxxantisel[:-1] - (sumxantisel[:-1]**2/sum1antisel[:-1])
 
-        # calculate gain for all possible index splits
-        # (even if some are not unique--- it's faster to just have Numpy scan over them than to try to skip them)
+        # calculate gain for all index splits
         gains = -nTimesVarianceInSelection - nTimesVarianceInAntiselection
 
-        # find the highest gain, preferring larger indexes if there's a tie
-        # (that's why we reverse the order of the list with [::-1] and then correct for the index for the reversal)
-        maxGainIndex = len(gains) - 1 - numpy.argmax(gains[::-1])
-        gainTerm = gains[maxGainIndex]
-
-        # for niceness, put the cut between the best index (assuming the cut is "<=") and the next one,
-        # so that the cut could equivalently be "<"
-        # (the next higher should be exactly one higher because we picked the larger indexes in a tie above)
-        nextHigher = maxGainIndex
-        while nextHigher < self.datasetSize - 1 and values[nextHigher] == values[maxGainIndex]:
-            nextHigher += 1
-        cutValue = (values[maxGainIndex] + values[nextHigher]) / 2.0
-
-        return gainTerm, cutValue
+        return self.bestCut(values, gains)
 
     def categoricalNVarianceGainTerm(self, field, maxSubsetSize=None):
         """Split a categorical predictor in such a way that maximizes n-times-variance gain inside and outside of a subset of predictor values.
@@ -600,6 +611,8 @@ class TreeNode(object):
         # we will iterate over (N choose k) for all k from 1 to the highest informative k (half of N, rounding up)
         # or a user-supplied maxSubsetSize (to avoid very long calculations)
         maxInformativeSubset = int(math.ceil(len(fieldUniques) / 2.0))
+        if len(fieldUniques) < 2:
+            return None, None
         if maxSubsetSize is None:
             maxSubsetSize = maxInformativeSubset
         else:
-- 
2.43.0


From d2f228b7c48e51ff28ffe162efa37fb3b439153a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:32 +0000
Subject: [PATCH 096/137] fix: regression trees of cart split below the root by
 the wrong categories

---
 titus/producer/cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/cart.py b/titus/producer/cart.py
index 09bf2dc..10904c7 100644
--- a/titus/producer/cart.py
+++ b/titus/producer/cart.py
@@ -643,7 +643,7 @@ class TreeNode(object):
                 # find the best one
                 if bestGainTerm is None or gainTerm > bestGainTerm:
                     bestGainTerm = gainTerm
-                    bestCombination = categorySet
+                    bestCombination = tuple(int(fieldUniques[k]) for k in categorySet)
 
         return bestGainTerm, bestCombination
 
-- 
2.43.0


From ed162103db70c1a453f69a3d527abc6f4aa194cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:32 +0000
Subject: [PATCH 097/137] fix: cart kept splitting nodes that have only one
 category left

---
 titus/producer/cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/cart.py b/titus/producer/cart.py
index 10904c7..ad56c1f 100644
--- a/titus/producer/cart.py
+++ b/titus/producer/cart.py
@@ -270,7 +270,7 @@ class TreeNode(object):
         if self.predictand.tpe == numbers.Real:
             return len(self.predictandUnique) > 1
         elif self.predictand.tpe == str:
-            return numpy.count_nonzero(self.predictandDistribution) > 0
+            return numpy.count_nonzero(self.predictandDistribution) > 1
         else:
             raise RuntimeError
 
-- 
2.43.0


From ef4c1c8ed31994e6732463c7911bc3f01f29148d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:32 +0000
Subject: [PATCH 098/137] fix: trees of cart over integer fields could not be
 written

---
 titus/producer/cart.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/titus/producer/cart.py b/titus/producer/cart.py
index ad56c1f..3f1cf78 100644
--- a/titus/producer/cart.py
+++ b/titus/producer/cart.py
@@ -708,7 +708,8 @@ class TreeNode(object):
                 if self.dataset.fields[fieldIndex].tpe == numbers.Real:
                     if field["type"] not in ("int", "long", "float", "double"):
                         raise TypeError("dataType field \"{0}\" must be a numeric type, since this was a numeric type in the dataset training".format(field["name"]))
-                    dataFieldTypes.append(field["type"])
+                    # cuts lie between the values of the training dataset, which need not be integers
+                    dataFieldTypes.append("double")
                 elif self.dataset.fields[fieldIndex].tpe == str:
                     if field["type"] != "string":
                         raise TypeError("dataType field \"{0}\" must be a string, since this was a string in the dataset training".format(field["name"]))
@@ -860,7 +861,10 @@ class TreeNode(object):
             if valueType is None:
                 valueType = self.pfaValueType(dataType)
             if isinstance(valueType, AvroUnion):
-                specificType, = [x["type"] for x in dataType["fields"] if x["name"] == fieldName]
+                if self.field.tpe == numbers.Real:
+                    specificType = "double"
+                else:
+                    specificType, = [x["type"] for x in dataType["fields"] if x["name"] == fieldName]
                 if operator == "in" or operator == "notIn":
                     specificType = {"type": "array", "items": specificType}
                 if isinstance(specificType, dict):
-- 
2.43.0


From 86345e427e80a47e5ac39043c277396adab0b687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:32 +0000
Subject: [PATCH 099/137] fix: tree walks stopped at the root of trees whose
 nodes have a namespace

---
 titus/lib/model/tree.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/titus/lib/model/tree.py b/titus/lib/model/tree.py
index 6022d22..701cada 100644
--- a/titus/lib/model/tree.py
+++ b/titus/lib/model/tree.py
@@ -200,12 +200,19 @@ class SurrogateTest(LibFcn):
         raise PFARuntimeException("no successful surrogate", self.errcodeBase + 0, self.name, pos)
 provide(SurrogateTest())
 
+def fullName(schema):
+    """The name by which a record is tagged in unions."""
+    if schema.get("namespace"):
+        return schema["namespace"] + "." + schema["name"]
+    else:
+        return schema["name"]
+
 class SimpleWalk(LibFcn):
     name = prefix + "simpleWalk"
     sig = Sig([{"datum": P.WildRecord("D", {})}, {"treeNode": P.WildRecord("T", {"pass": P.Union([P.WildRecord("T", {}), P.Wildcard("S")]), "fail": P.Union([P.WildRecord("T", {}), P.Wildcard("S")])})}, {"test": P.Fcn([P.WildRecord("D", {}), P.WildRecord("T", {})], P.Boolean())}], P.Wildcard("S"))
     errcodeBase = 32040
     def __call__(self, state, scope, pos, paramTypes, datum, treeNode, test):
-        treeNodeTypeName = paramTypes[1]["name"]
+        treeNodeTypeName = fullName(paramTypes[1])
         node = treeNode
         while True:
             if callfcn(state, scope, test, [datum, node]):
@@ -227,7 +234,7 @@ class MissingWalk(LibFcn):
     sig = Sig([{"datum": P.WildRecord("D", {})}, {"treeNode": P.WildRecord("T", {"pass": P.Union([P.WildRecord("T", {}), P.Wildcard("S")]), "fail": P.Union([P.WildRecord("T", {}), P.Wildcard("S")]), "missing": P.Union([P.WildRecord("T", {}), P.Wildcard("S")])})}, {"test": P.Fcn([P.WildRecord("D", {}), P.WildRecord("T", {})], P.Union([P.Null(), P.Boolean()]))}], P.Wildcard("S"))
     errcodeBase = 32050
     def __call__(self, state, scope, pos, paramTypes, datum, treeNode, test):
-        treeNodeTypeName = paramTypes[1]["name"]
+        treeNodeTypeName = fullName(paramTypes[1])
         node = treeNode
         while True:
             result = callfcn(state, scope, test, [datum, node])
@@ -252,7 +259,7 @@ class SimpleTree(LibFcn):
     sig = Sig([{"datum": P.WildRecord("D", {})}, {"treeNode": P.WildRecord("T", {"field": P.EnumFields("F", "D"), "operator": P.String(), "value": P.Wildcard("V"), "pass": P.Union([P.WildRecord("T", {}), P.Wildcard("S")]), "fail": P.Union([P.WildRecord("T", {}), P.Wildcard("S")])})}], P.Wildcard("S"))
     errcodeBase = 32060
     def __call__(self, state, scope, pos, paramTypes, datum, treeNode):
-        treeNodeTypeName = paramTypes[1]["name"]
+        treeNodeTypeName = fullName(paramTypes[1])
         node = treeNode
         while True:
             if simpleComparison(paramTypes, datum, node, True, state.parser, self.errcodeBase + 1, self.errcodeBase + 0, self.name, pos):
-- 
2.43.0


From 9d62d3df116e6d076e796a9dd0c39791ff5cd320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:39 +0000
Subject: [PATCH 100/137] fix: model.naive.multinomial did not normalize the
 probabilities of a map

---
 titus/lib/model/naive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/model/naive.py b/titus/lib/model/naive.py
index e8ca653..da665d2 100644
--- a/titus/lib/model/naive.py
+++ b/titus/lib/model/naive.py
@@ -104,7 +104,7 @@ class Multinomial(LibFcn):
             raise PFARuntimeException("datum and classModel misaligned", self.errcodeBase + 0, self.name, pos)
         for d in datumkeys:
             p = classModel[d]/normalizing + tiny
-            ll += datum[d]*math.log(classModel[d])
+            ll += datum[d]*math.log(p)
         return ll
 
     def __call__(self, state, scope, pos, paramTypes, datum, classModel):
-- 
2.43.0


From 8bb39c489c35be95db60a601385c9b12fa8e2634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:39 +0000
Subject: [PATCH 101/137] fix: model.neighbor.mean failed with a raw
 ZeroDivisionError when all weights are zero

---
 titus/lib/model/neighbor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/model/neighbor.py b/titus/lib/model/neighbor.py
index 341ef58..0bfb41b 100644
--- a/titus/lib/model/neighbor.py
+++ b/titus/lib/model/neighbor.py
@@ -69,7 +69,7 @@ class Mean(LibFcn):
                 denom[i] += w
 
         for i in range(dimensions):
-            numer[i] /= denom[i]
+            numer[i] = div(numer[i], denom[i])
         return numer
 provide(Mean())
 
-- 
2.43.0


From ad8739e36f39bd3409a32c678600d42d614be5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:39 +0000
Subject: [PATCH 102/137] fix: model.reg.gaussianProcess ignored its
 krigingWeight

---
 titus/lib/model/reg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/titus/lib/model/reg.py b/titus/lib/model/reg.py
index 91c902c..98abd20 100644
--- a/titus/lib/model/reg.py
+++ b/titus/lib/model/reg.py
@@ -188,10 +188,11 @@ class GaussianProcess(LibFcn):
     def getbeta(self, krigingWeight, pos):
         if isinstance(krigingWeight, dict):
             beta = krigingWeight["double"]
-            if math.isnan(beta) or math.isinf(beta):
-                raise PFARuntimeException("krigingWeight is not finite", self.errcodeBase + 7, self.name, pos)
         else:
             beta = krigingWeight
+        if beta is not None and (math.isnan(beta) or math.isinf(beta)):
+            raise PFARuntimeException("krigingWeight is not finite", self.errcodeBase + 7, self.name, pos)
+        return beta
 
     def getnoutputs(self, x, table, paramTypes, pos):
         if isinstance(paramTypes[-1], dict) and paramTypes[-1].get("type") == "array":
-- 
2.43.0


From 15ed2493323471c9ab947cd0ef4906202b861bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:39 +0000
Subject: [PATCH 103/137] fix: model.reg.gaussianProcess failed with a
 NameError for a matrix that is not positive definite

---
 titus/lib/model/reg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/model/reg.py b/titus/lib/model/reg.py
index 98abd20..4cdc812 100644
--- a/titus/lib/model/reg.py
+++ b/titus/lib/model/reg.py
@@ -333,7 +333,7 @@ class GaussianProcess(LibFcn):
 
         try:
             C = np().linalg.cholesky(R)
-        except numpy.linalg.linalg.LinAlgError:
+        except np().linalg.LinAlgError:
             raise PFARuntimeException("matrix of kernel results is not positive definite", self.errcodeBase + 8, self.name, pos)
 
         F = np().array([[1.0]] * len(X))
-- 
2.43.0


From e55b1bf0233811ff5b641f678093cac4bc874e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:39 +0000
Subject: [PATCH 104/137] fix: model.reg.residual let misaligned arrays through

---
 titus/lib/model/reg.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/titus/lib/model/reg.py b/titus/lib/model/reg.py
index 4cdc812..052ef9a 100644
--- a/titus/lib/model/reg.py
+++ b/titus/lib/model/reg.py
@@ -397,11 +397,9 @@ class Residual(LibFcn):
             return result
 
         elif isinstance(observation, (tuple, list)):
-            try:
-                result = [float(o - p) for o, p in zip(observation, prediction)]
-            except:
+            if len(observation) != len(prediction):
                 raise PFARuntimeException("misaligned prediction", self.errcodeBase + 0, self.name, pos)
-            return result
+            return [float(o - p) for o, p in zip(observation, prediction)]
 
         else:
             return float(observation - prediction)
-- 
2.43.0


From 749503279eca56aab741f28e27b41324141e222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:39 +0000
Subject: [PATCH 105/137] fix: model.reg.pull reported misaligned uncertainties
 as misaligned predictions

---
 titus/lib/model/reg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/model/reg.py b/titus/lib/model/reg.py
index 052ef9a..fe42a8f 100644
--- a/titus/lib/model/reg.py
+++ b/titus/lib/model/reg.py
@@ -435,7 +435,7 @@ class Pull(LibFcn):
             if len(observation) != len(prediction):
                 raise PFARuntimeException("misaligned prediction", self.errcodeBase + 0, self.name, pos)
             if len(observation) != len(uncertainty):
-                raise PFARuntimeException("misaligned prediction", self.errcodeBase + 0, self.name, pos)
+                raise PFARuntimeException("misaligned uncertainty", self.errcodeBase + 1, self.name, pos)
             return [float(div(o - p, u)) for o, p, u in zip(observation, prediction, uncertainty)]
 
         else:
-- 
2.43.0


From 8d21cf07f279243361a39d8c9fa4bd11ef216201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:39 +0000
Subject: [PATCH 106/137] fix: la.transpose failed with a KeyError for ragged
 maps whose rows have the same length

---
 titus/lib/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/la.py b/titus/lib/la.py
index a924775..03209ea 100644
--- a/titus/lib/la.py
+++ b/titus/lib/la.py
@@ -77,7 +77,7 @@ def raggedArray(x):
     return max(collens) != min(collens)
 
 def raggedMap(x):
-    return len(set(len(xi) for xi in list(x.values()))) != 1
+    return len(set(frozenset(xi.keys()) for xi in list(x.values()))) != 1
 
 class MapApply(LibFcn):
     name = prefix + "map"
-- 
2.43.0


From e18bddbbea1ecc01c8f6cf59d913c5358b025b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 107/137] fix: prob.dist.gammaCDF was 1 below zero for
 degenerate parameters

---
 titus/lib/prob/dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/prob/dist.py b/titus/lib/prob/dist.py
index 5923b05..27ddbce 100644
--- a/titus/lib/prob/dist.py
+++ b/titus/lib/prob/dist.py
@@ -334,7 +334,7 @@ class GammaCDF(LibFcn):
         elif math.isinf(x) or math.isnan(x):
             raise PFARuntimeException("invalid input", self.errcodeBase + 1, self.name, pos)
         elif shape == 0 or scale == 0:
-            if x != 0:
+            if x > 0:
                 return 1.0
             else:
                 return 0.0
-- 
2.43.0


From e415ede5940ffbf1b56dcfa29a8dbcca1838842b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 108/137] fix: prob.dist.negativeBinomialCDF was 0 above zero
 for size zero

---
 titus/lib/prob/dist.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/titus/lib/prob/dist.py b/titus/lib/prob/dist.py
index 27ddbce..8ff77b9 100644
--- a/titus/lib/prob/dist.py
+++ b/titus/lib/prob/dist.py
@@ -839,12 +839,10 @@ class NegativeBinomialCDF(LibFcn):
             raise PFARuntimeException("invalid parameterization", self.errcodeBase + 0, self.name, pos)
         elif math.isinf(x) or math.isnan(x):
             raise PFARuntimeException("invalid input", self.errcodeBase + 1, self.name, pos)
-        elif x == 0 and size == 0:
-            return 1.0
-        elif size == 0:
-            return 0.0
         elif x < 0:
             return 0.0
+        elif size == 0:
+            return 1.0
         else:
             return NegativeBinomialDistribution(size, prob, self.errcodeBase + 0, self.name, pos).CDF(x)
 provide(NegativeBinomialCDF())
-- 
2.43.0


From 258e8fc644a44294d8d3c11f8500903625b4c9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 109/137] fix: rand.string without a population could give a
 surrogate code point, which is not a character

---
 titus/lib/rand.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/rand.py b/titus/lib/rand.py
index bf6812b..3261b77 100644
--- a/titus/lib/rand.py
+++ b/titus/lib/rand.py
@@ -160,7 +160,7 @@ class RandomString(LibFcn):
     def __call__(self, state, scope, pos, paramTypes, size, *args):
         if size <= 0: raise PFARuntimeException("size must be positive", self.errcodeBase + 0, self.name, pos)
         if len(args) == 0:
-            return "".join(chr(state.rand.randint(1, 0xD800)) for x in range(size))
+            return "".join(chr(state.rand.randint(1, 0xD7FF)) for x in range(size))
         elif len(args) == 1:
             if len(args[0]) == 0:
                 raise PFARuntimeException("population must be non-empty", self.errcodeBase + 3, self.name, pos)
-- 
2.43.0


From 6a8f97a629fddf1f3f81a5cea32add4e0afca893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 110/137] fix: rand.double between bounds further apart than
 the largest double was infinite or not a number

---
 titus/lib/rand.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/titus/lib/rand.py b/titus/lib/rand.py
index 3261b77..624ef67 100644
--- a/titus/lib/rand.py
+++ b/titus/lib/rand.py
@@ -65,13 +65,20 @@ class RandomLong(LibFcn):
             return state.rand.randint(args[0], args[1] - 1)  # Python's randint has an inclusive upper bound
 provide(RandomLong())
 
+def uniform(rand, low, high):
+    """Uniform variate between low and high, also when the distance between finite bounds is too large for a double."""
+    if math.isinf(high - low) and not math.isinf(low) and not math.isinf(high):
+        fraction = rand.random()
+        return low*(1.0 - fraction) + high*fraction
+    return rand.uniform(low, high)
+
 class RandomFloat(LibFcn):
     name = prefix + "float"
     sig = Sig([{"low": P.Float()}, {"high": P.Float()}], P.Float())
     errcodeBase = 34020
     def __call__(self, state, scope, pos, paramTypes, low, high):
         if high <= low: raise PFARuntimeException("high must be greater than low", self.errcodeBase + 0, self.name, pos)
-        return state.rand.uniform(low, high)
+        return uniform(state.rand, low, high)
 provide(RandomFloat())
 
 class RandomDouble(LibFcn):
@@ -80,7 +87,7 @@ class RandomDouble(LibFcn):
     errcodeBase = 34030
     def __call__(self, state, scope, pos, paramTypes, low, high):
         if high <= low: raise PFARuntimeException("high must be greater than low", self.errcodeBase + 0, self.name, pos)
-        return state.rand.uniform(low, high)
+        return uniform(state.rand, low, high)
 provide(RandomDouble())
 
 ########################################################### items from arrays
-- 
2.43.0


From 8c824eef5b86a0be6bcb005232b6a51e56c00ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 111/137] fix: a chain in which a named type was used more than
 once could not be built

---
 titus/producer/chain.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 9fc1ac0..99f7427 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -350,17 +350,18 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             return {"type": "map", "values": rename(i, avroType.values, memo)}
         elif isinstance(avroType, AvroUnion):
             return [rename(i, t, memo) for t in avroType.types]
-        elif isinstance(avroType, AvroFixed):
-            ns, n = split(originalNameToNewName[i][avroType.fullName])
-            out = {"type": "fixed", "name": n, "size": avroType.size}
-            if ns is not None:
-                out["namespace"] = ns
-            return out
-        elif isinstance(avroType, AvroEnum):
-            ns, n = split(originalNameToNewName[i][avroType.fullName])
-            out = {"type": "enum", "name": n, "symbols": avroType.symbols}
+        elif isinstance(avroType, (AvroFixed, AvroEnum)):
+            newName = originalNameToNewName[i][avroType.fullName]
+            if newName in memo:
+                return memo[newName]
+            ns, n = split(newName)
+            if isinstance(avroType, AvroFixed):
+                out = {"type": "fixed", "name": n, "size": avroType.size}
+            else:
+                out = {"type": "enum", "name": n, "symbols": avroType.symbols}
             if ns is not None:
                 out["namespace"] = ns
+            memo[newName] = join(ns, n)
             return out
         elif isinstance(avroType, AvroRecord):
             newName = originalNameToNewName[i][avroType.fullName]
@@ -385,8 +386,9 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
 
     avroTypeBuilder = AvroTypeBuilder()
     memo = {}
+    renamed = {}     # a named type may only be written out in full once; after that, it's referred to by name
     def newPlaceholder(i, oldAvroType):
-        newAvroType = rename(i, oldAvroType, {})
+        newAvroType = rename(i, oldAvroType, renamed)
         return avroTypeBuilder.makePlaceholder(jsonlib.dumps(newAvroType), memo)
             
     # combined name, if not explicitly set
-- 
2.43.0


From d5d23d44c09c3551c0e6a3ae1ba7c8f77423a223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 112/137] fix: chains whose types contain a record twice or
 recursively were refused, and chains whose second union lacks one of the
 first's types were accepted

---
 titus/producer/chain.py | 74 ++++++++++++++++-------------------------
 1 file changed, 29 insertions(+), 45 deletions(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 99f7427..b9651fb 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -285,63 +285,47 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
 
     # ensure that chained types match and will be given the same names
     if verbose: sys.stderr.write(time.asctime() + " Verifying that input/output schemas match along the chain\n")
+    # (memo maps the full names of second's types to the full names of first's types that they've been matched with)
     def chainPair(i, first, second, memo):
-        if isinstance(first, AvroNull) and isinstance(second, AvroNull):
-            return True
-        elif isinstance(first, AvroBoolean) and isinstance(second, AvroBoolean):
-            return True
-        elif isinstance(first, AvroInt) and isinstance(second, AvroInt):
-            return True
-        elif isinstance(first, AvroLong) and isinstance(second, AvroLong):
-            return True
-        elif isinstance(first, AvroFloat) and isinstance(second, AvroFloat):
-            return True
-        elif isinstance(first, AvroDouble) and isinstance(second, AvroDouble):
-            return True
-        elif isinstance(first, AvroBytes) and isinstance(second, AvroBytes):
-            return True
-        elif isinstance(first, AvroFixed) and isinstance(second, AvroFixed):
-            if first.size == second.size:
-                originalNameToNewName[i + 1][second.fullName] = originalNameToNewName[i][first.fullName]
-                return True
+        if isinstance(first, (AvroFixed, AvroEnum, AvroRecord)) and second.__class__ == first.__class__:
+            if second.fullName in memo:
+                return memo[second.fullName] == first.fullName
+            memo[second.fullName] = first.fullName
+            if isinstance(first, AvroFixed):
+                return first.size == second.size
+            elif isinstance(first, AvroEnum):
+                return first.symbols == second.symbols
             else:
-                return False
-        elif isinstance(first, AvroString) and isinstance(second, AvroString):
-            return True
-        elif isinstance(first, AvroEnum) and isinstance(second, AvroEnum):
-            if first.symbols == second.symbols:
-                originalNameToNewName[i + 1][second.fullName] = originalNameToNewName[i][first.fullName]
-                return True
-            else:
-                return False
+                return len(first.fields) == len(second.fields) and \
+                       all(f1.name == f2.name and chainPair(i, f1.avroType, f2.avroType, memo) for f1, f2 in zip(first.fields, second.fields))
         elif isinstance(first, AvroArray) and isinstance(second, AvroArray):
             return chainPair(i, first.items, second.items, memo)
         elif isinstance(first, AvroMap) and isinstance(second, AvroMap):
             return chainPair(i, first.values, second.values, memo)
-        elif isinstance(first, AvroRecord) and isinstance(second, AvroRecord):
-            if first.fullName not in memo:
-                memo.add(first.fullName)
-                if len(first.fields) != len(second.fields):
-                    return False
-                for f1, f2 in zip(first.fields, second.fields):
-                    if f1.name != f2.name:
-                        return False
-                    elif not chainPair(i, f1.avroType, f2.avroType, memo):
-                        return False
-                originalNameToNewName[i + 1][second.fullName] = originalNameToNewName[i][first.fullName]
-                return True
         elif isinstance(first, AvroUnion) and isinstance(second, AvroUnion):
-            for yt in second.types:
-                if not any(chainPair(i, xt, yt, memo) for xt in first.types):
-                    return False
-            return True
+            return len(first.types) == len(second.types) and chainUnion(i, first.types, second.types, memo)
         else:
-            return False
+            return first.__class__ == second.__class__
+
+    # each type in one union must match exactly one type in the other
+    def chainUnion(i, firsts, seconds, memo):
+        if len(firsts) == 0:
+            return True
+        for index, second in enumerate(seconds):
+            attempt = dict(memo)
+            if chainPair(i, firsts[0], second, attempt) and chainUnion(i, firsts[1:], seconds[:index] + seconds[index + 1:], attempt):
+                memo.update(attempt)
+                return True
+        return False
+
     for i in range(len(pfas) - 1):
         first = pfas[i].output
         second = pfas[i + 1].input
-        if not chainPair(i, first, second, set()):
+        matched = {}
+        if not chainPair(i, first, second, matched):
             raise PFAChainError("output of engine {0}: {1} not compatible with input of engine {2}: {3}".format(i + 1, ts(first), i + 2, ts(second)))
+        for secondName, firstName in matched.items():
+            originalNameToNewName[i + 1][secondName] = originalNameToNewName[i][firstName]
 
     def rename(i, avroType, memo):
         if isinstance(avroType, AvroArray):
-- 
2.43.0


From 5700dc86397ae4d1723ed42fb5f85541b8831089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 113/137] fix: the begin (or end) sections of different steps
 of a chain shared their symbols

---
 titus/producer/chain.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index b9651fb..0e3142e 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -517,7 +517,8 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             else:
                 return genericReplacer(expr, beginReplacer)
         beginReplacer.isDefinedAt = lambda x: isinstance(x, Ref) or genericReplacer.isDefinedAt(x)
-        begin.extend([x.replace(beginReplacer) for x in pfa.begin])
+        if len(pfa.begin) > 0:
+            begin.append(Do([x.replace(beginReplacer) for x in pfa.begin]))    # its own scope: symbols of different steps may have the same names
 
         # add statements to end
         def endReplacer(expr):
@@ -529,7 +530,8 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             else:
                 return genericReplacer(expr, endReplacer)
         endReplacer.isDefinedAt = lambda x: isinstance(x, Ref) or genericReplacer.isDefinedAt(x)
-        end.extend([x.replace(endReplacer) for x in pfa.end])
+        if len(pfa.end) > 0:
+            end.append(Do([x.replace(endReplacer) for x in pfa.end]))
 
         # convert the action into a user function
         def actionReplacer(expr):
-- 
2.43.0


From 856fb2fba6b7687d4b157c932863508204a98d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 114/137] fix: a reference to emit in a step of a chain passed
 its results around the later steps

---
 titus/producer/chain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 0e3142e..39b9df8 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -441,7 +441,10 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                               [x.replace(lazyFcnReplacer) for x in expr.body],     # this is the one place where we should pass down fcnReplacer rather than self
                               expr.pos)
             elif isinstance(expr, FcnRef):
-                return FcnRef(prefixFcnRef(i, pfa, expr.name), expr.pos)
+                if pfa.method == Method.EMIT and i + 1 < len(pfas) and expr.name == "emit":
+                    return FcnRef("u." + nextActionFcnName, expr.pos)
+                else:
+                    return FcnRef(prefixFcnRef(i, pfa, expr.name), expr.pos)
             elif isinstance(expr, FcnRefFill):
                 return FcnRefFill(prefixFcnRef(i, pfa, expr.name),
                                   dict((k, v.replace(self)) for k, v in list(expr.fill.items())),
-- 
2.43.0


From 8a907d3283472db849628d527c22fb76aa4d3489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 115/137] fix: a chain with a pool deletion referred to a pool
 that doesn't exist

---
 titus/producer/chain.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 39b9df8..6013ed5 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -69,6 +69,7 @@ from titus.pfaast import CellGet
 from titus.pfaast import CellTo
 from titus.pfaast import PoolGet
 from titus.pfaast import PoolTo
+from titus.pfaast import PoolDel
 from titus.pfaast import CastCase
 from titus.pfaast import Upcast
 
@@ -493,6 +494,10 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                               expr.to.replace(self),
                               expr.init.replace(self),
                               expr.pos)
+            elif isinstance(expr, PoolDel):
+                return PoolDel(prefixPool(i, pfa, expr.pool),
+                               expr.dell.replace(self),
+                               expr.pos)
             elif isinstance(expr, CastCase):
                 return CastCase(newPlaceholder(i, expr.avroType),
                                 expr.named,
@@ -502,7 +507,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                 return Upcast(expr.expr.replace(self),
                               newPlaceholder(i, expr.avroType),
                               expr.pos)
-        genericReplacer.isDefinedAt = lambda x: isinstance(x, (FcnDef, FcnRef, FcnRefFill, CallUserFcn, Call, Literal, NewObject, CellGet, CellTo, PoolGet, PoolTo, CastCase, Upcast))
+        genericReplacer.isDefinedAt = lambda x: isinstance(x, (FcnDef, FcnRef, FcnRefFill, CallUserFcn, Call, Literal, NewObject, CellGet, CellTo, PoolGet, PoolTo, PoolDel, CastCase, Upcast))
 
         def fcnReplacer(expr):
             return genericReplacer(expr, fcnReplacer)
-- 
2.43.0


From fbeb825ef7d92d7c558ada440d94413e328cbb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 116/137] fix: new arrays in a chain referred to the types by
 their old names

---
 titus/producer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 6013ed5..3eaf2d7 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -507,7 +507,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                 return Upcast(expr.expr.replace(self),
                               newPlaceholder(i, expr.avroType),
                               expr.pos)
-        genericReplacer.isDefinedAt = lambda x: isinstance(x, (FcnDef, FcnRef, FcnRefFill, CallUserFcn, Call, Literal, NewObject, CellGet, CellTo, PoolGet, PoolTo, PoolDel, CastCase, Upcast))
+        genericReplacer.isDefinedAt = lambda x: isinstance(x, (FcnDef, FcnRef, FcnRefFill, CallUserFcn, Call, Literal, NewObject, NewArray, CellGet, CellTo, PoolGet, PoolTo, PoolDel, CastCase, Upcast))
 
         def fcnReplacer(expr):
             return genericReplacer(expr, fcnReplacer)
-- 
2.43.0


From 5bbdea29e292e50883a06f29eaafe47ff5ea3d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 117/137] fix: name, instance, metadata and the counters were
 unknown in the inline functions of a chain

---
 titus/producer/chain.py | 53 ++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 3eaf2d7..a61afbd 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -515,42 +515,41 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
 
         lazyFcnReplacer = fcnReplacer
 
-        # add statements to begin
-        def beginReplacer(expr):
-            if isinstance(expr, Ref):
-                if expr.name in ("name", "instance", "metadata") or (version is not None and expr.name == "version"):
-                    return CellGet(expr.name, [], expr.pos)
+        # predefined symbols become model parameters (except where a parameter of an inline function has the same name)
+        def symbolReplacer(names):
+            def replacer(expr):
+                if isinstance(expr, Ref):
+                    if expr.name in names:
+                        return CellGet(expr.name, [], expr.pos)
+                    else:
+                        return expr
+                elif isinstance(expr, FcnDef):
+                    within = symbolReplacer(names.difference(list(t.keys())[0] for t in expr.params))
+                    return FcnDef([{list(t.keys())[0]: newPlaceholder(i, list(t.values())[0])} for t in expr.params],
+                                  newPlaceholder(i, expr.ret),
+                                  [x.replace(within) for x in expr.body],
+                                  expr.pos)
                 else:
-                    return expr
-            else:
-                return genericReplacer(expr, beginReplacer)
-        beginReplacer.isDefinedAt = lambda x: isinstance(x, Ref) or genericReplacer.isDefinedAt(x)
+                    return genericReplacer(expr, replacer)
+            replacer.isDefinedAt = lambda x: isinstance(x, Ref) or genericReplacer.isDefinedAt(x)
+            return replacer
+
+        predefined = set(["name", "instance", "metadata"])
+        if version is not None:
+            predefined.add("version")
+
+        # add statements to begin
+        beginReplacer = symbolReplacer(predefined)
         if len(pfa.begin) > 0:
             begin.append(Do([x.replace(beginReplacer) for x in pfa.begin]))    # its own scope: symbols of different steps may have the same names
 
         # add statements to end
-        def endReplacer(expr):
-            if isinstance(expr, Ref):
-                if expr.name in ("name", "instance", "metadata", "actionsStarted", "actionsFinished") or (version is not None and expr.name == "version"):
-                    return CellGet(expr.name, [], expr.pos)
-                else:
-                    return expr
-            else:
-                return genericReplacer(expr, endReplacer)
-        endReplacer.isDefinedAt = lambda x: isinstance(x, Ref) or genericReplacer.isDefinedAt(x)
+        endReplacer = symbolReplacer(predefined.union(["actionsStarted", "actionsFinished"]))
         if len(pfa.end) > 0:
             end.append(Do([x.replace(endReplacer) for x in pfa.end]))
 
         # convert the action into a user function
-        def actionReplacer(expr):
-            if isinstance(expr, Ref):
-                if expr.name in ("name", "instance", "metadata", "actionsStarted", "actionsFinished") or (version is not None and expr.name == "version"):
-                    return CellGet(expr.name, [], expr.pos)
-                else:
-                    return expr
-            else:
-                return genericReplacer(expr, actionReplacer)
-        actionReplacer.isDefinedAt = lambda x: isinstance(x, Ref) or genericReplacer.isDefinedAt(x)
+        actionReplacer = symbolReplacer(predefined.union(["actionsStarted", "actionsFinished"]))
 
         body = [x.replace(actionReplacer) for x in pfa.action]
 
-- 
2.43.0


From 971ceb148425cfd511162004d3a6294507da9d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 118/137] fix: model parameters and literals with tags of
 renamed types, and pools with initial values, could not be chained

---
 titus/producer/chain.py | 63 ++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 35 deletions(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index a61afbd..c0dc242 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -46,8 +46,6 @@ from titus.datatype import AvroRecord
 from titus.datatype import AvroUnion
 from titus.datatype import AvroField
 from titus.datatype import AvroTypeBuilder
-from titus.datatype import jsonDecoder
-from titus.datatype import jsonEncoder
 
 from titus.pfaast import Method
 from titus.pfaast import EngineConfig
@@ -369,6 +367,25 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
         else:
             return jsonlib.loads(repr(avroType))
 
+    # change the names of types in embedded JSON data, too (the tags of unions)
+    def renameData(i, avroType, data):
+        if isinstance(avroType, AvroArray) and isinstance(data, list):
+            return [renameData(i, avroType.items, x) for x in data]
+        elif isinstance(avroType, AvroMap) and isinstance(data, dict):
+            return dict((k, renameData(i, avroType.values, v)) for k, v in data.items())
+        elif isinstance(avroType, AvroRecord) and isinstance(data, dict):
+            fieldTypes = dict((f.name, f.avroType) for f in avroType.fields)
+            return dict((k, renameData(i, fieldTypes[k], v) if k in fieldTypes else v) for k, v in data.items())
+        elif isinstance(avroType, AvroUnion) and isinstance(data, dict) and len(data) == 1:
+            (tag, value), = data.items()
+            for t in avroType.types:
+                if isinstance(t, (AvroFixed, AvroEnum, AvroRecord)):
+                    if tag in (t.name, t.fullName):
+                        return {originalNameToNewName[i][t.fullName]: renameData(i, t, value)}
+                elif tag == t.name:
+                    return {tag: renameData(i, t, value)}
+        return data
+
     avroTypeBuilder = AvroTypeBuilder()
     memo = {}
     renamed = {}     # a named type may only be written out in full once; after that, it's referred to by name
@@ -465,7 +482,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                                 expr.pos)
             elif isinstance(expr, Literal):
                 return Literal(newPlaceholder(i, expr.avroType),
-                               expr.value,
+                               jsonlib.dumps(renameData(i, expr.avroType, jsonlib.loads(expr.value))),
                                expr.pos)
             elif isinstance(expr, NewObject):
                 return NewObject(dict((k, v.replace(self)) for k, v in list(expr.fields.items())),
@@ -590,48 +607,24 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
         if verbose and len(pfa.cells) > 0: sys.stderr.write(time.asctime() + "     step {0}:\n".format(i + 1))
         for cellName, cell in list(pfa.cells.items()):
             if verbose: sys.stderr.write(time.asctime() + "         cell {0}\n".format(cellName))
-            newCell = Cell(newPlaceholder(i, cell.avroType), cell.init, cell.shared, cell.rollback, cell.source, cell.pos)
-            cells[prefixCell(i, pfa, cellName)] = newCell
+            init = cell.init
             if cell.source == "embedded":
-                def converter(avroType):
-                    original = jsonDecoder(cell.avroType, jsonlib.loads(cell.init))
-                    return jsonlib.dumps(jsonEncoder(avroType, original))
-                newCell.converter = converter
-                
+                init = jsonlib.dumps(renameData(i, cell.avroType, jsonlib.loads(init)))
+            cells[prefixCell(i, pfa, cellName)] = Cell(newPlaceholder(i, cell.avroType), init, cell.shared, cell.rollback, cell.source, cell.pos)
+
     for i, pfa in enumerate(pfas):
         if verbose and len(pfa.pools) > 0: sys.stderr.write(time.asctime() + "     step {0}:\n".format(i + 1))
         for poolName, pool in list(pfa.pools.items()):
             if verbose: sys.stderr.write(time.asctime() + "         pool {0}\n".format(poolName))
-            newPool = Pool(newPlaceholder(i, pool.avroType), pool.init, pool.shared, pool.rollback, pool.source, pool.pos)
-            pools[prefixPool(i, pfa, poolName)] = newPool
+            init = pool.init
             if pool.source == "embedded":
-                def converter(avroType):
-                    original = jsonDecoder(pool.avroType, jsonlib.loads(pool.init))
-                    return jsonlib.dumps(jsonEncoder(avroType, original))
-                newPool.converter = converter
-                
+                init = dict((k, jsonlib.dumps(renameData(i, pool.avroType, jsonlib.loads(v)))) for k, v in init.items())
+            pools[prefixPool(i, pfa, poolName)] = Pool(newPlaceholder(i, pool.avroType), init, pool.shared, pool.rollback, pool.source, pool.pos)
+
     # make sure all the types work together
     if verbose: sys.stderr.write(time.asctime() + " Resolving all types\n")
     avroTypeBuilder.resolveTypes()
 
-    if verbose: sys.stderr.write(time.asctime() + " Converting the model parameters themselves\n")
-
-    for i, pfa in enumerate(pfas):
-        if verbose and len(pfa.cells) > 0: sys.stderr.write(time.asctime() + "     step {0}:\n".format(i + 1))
-        for cellName, cell in list(pfa.cells.items()):
-            if verbose: sys.stderr.write(time.asctime() + "         cell {0}\n".format(cellName))
-            if cell.source == "embedded":
-                newCell = cells[prefixCell(i, pfa, cellName)]
-                newCell.init = newCell.converter(newCell.avroType)
-
-    for i, pfa in enumerate(pfas):
-        if verbose and len(pfa.pools) > 0: sys.stderr.write(time.asctime() + "     step {0}:\n".format(i + 1))
-        for poolName, pool in list(pfa.pools.items()):
-            if verbose: sys.stderr.write(time.asctime() + "         pool {0}\n".format(poolName))
-            if pool.source == "embedded":
-                newPool = pools[prefixPool(i, pfa, poolName)]
-                newPool.init = newPool.converter(newPool.avroType)
-
     # randseed, doc, version, metadata, and options need to be explicitly set
 
     # return a (possibly checked) AST
-- 
2.43.0


From 2fc7b1dcfa5c1ca80c415b6cdf062ebb6e7abc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 119/137] fix: a chain could not be given a version

---
 titus/producer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index c0dc242..378a859 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -421,7 +421,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
              "actionsStarted": Cell(newPlaceholder(0, AvroLong()), jsonlib.dumps(0), False, False, CellPoolSource.EMBEDDED),
              "actionsFinished": Cell(newPlaceholder(0, AvroLong()), jsonlib.dumps(0), False, False, CellPoolSource.EMBEDDED)}
     if version is not None:
-        cells["version"] = Cell(newPlaceholder(0, AvroInt()), 0, False, False, CellPoolSource.EMBEDDED)
+        cells["version"] = Cell(newPlaceholder(0, AvroInt()), jsonlib.dumps(0), False, False, CellPoolSource.EMBEDDED)
     pools = {}
 
     if verbose: sys.stderr.write(time.asctime() + " Converting scoring engine algorithm\n")
-- 
2.43.0


From b6cc85df2173a3a4fae11dec56fa312b299e9f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 120/137] fix: chain.engine passed its arguments on in the
 wrong order

---
 titus/producer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 378a859..35c4f42 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -165,7 +165,7 @@ def engine(pfas, name=None, randseed=None, doc=None, version=None, metadata={},
     :rtype: titus.genpy.EngineConfig
     :return: a PFA document representing the chained workflow
     """
-    return PFAEngine.fromAst(ast(pfas, False, name, randseed, doc, version, metadata, options, tryYaml, verbose), options, sharedState, multiplicity, style, debug)
+    return PFAEngine.fromAst(ast(pfas, False, name, randseed, doc, version, metadata, options, tryYaml, verbose), options=options, sharedState=sharedState, multiplicity=multiplicity, style=style, debug=debug)
 
 def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, metadata={}, options={}, tryYaml=False, verbose=False):
     """Create a single PFA from a chained workflow, returning the result as an abstract syntax tree.
-- 
2.43.0


From c8a91bd680189e0799a016a300206d20a57e8781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 121/137] fix: user functions with named types as parameters
 could not be chained

---
 titus/producer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 35c4f42..22520ad 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -596,7 +596,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
         # convert all of the user functions into user functions
         for fcnName, fcnDef in list(pfa.fcns.items()):
             # note: some of these user-defined functions may call emit; if so, they'll call the right emit
-            fcns[prefixFcnDef(i, pfa, fcnName)] = FcnDef([{list(t.keys())[0]: newPlaceholder(i, list(t.values())[0])} for t in fcnDef.paramsPlaceholder],
+            fcns[prefixFcnDef(i, pfa, fcnName)] = FcnDef([{list(t.keys())[0]: newPlaceholder(i, list(t.values())[0])} for t in fcnDef.params],
                                                          newPlaceholder(i, fcnDef.ret),
                                                          [x.replace(fcnReplacer) for x in fcnDef.body],
                                                          fcnDef.pos)
-- 
2.43.0


From 3f789a173626d5ce72428735e097ad21c434a500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 122/137] fix: documents of clusters with any metric but the
 Euclidean referred to symbols that don't exist

---
 titus/producer/kmeans.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/titus/producer/kmeans.py b/titus/producer/kmeans.py
index eb78321..e8cba8c 100644
--- a/titus/producer/kmeans.py
+++ b/titus/producer/kmeans.py
@@ -85,8 +85,6 @@ class SquaredEuclidean(Metric):
         self.calculate = lambda dataset, cluster: numpy.sum(numpy.square(similarity.calculate(dataset, cluster)), axis=1)
         self.similarity = similarity
     def pfa(self, x, y):
-        x = "metricX"
-        y = "metricY"
         return {"metric.squaredEuclidean": [self.similarity.pfa(), x, y]}
 
 class Chebyshev(Metric):
@@ -95,8 +93,6 @@ class Chebyshev(Metric):
         self.calculate = lambda dataset, cluster: numpy.max(similarity.calculate(dataset, cluster), axis=1)
         self.similarity = similarity
     def pfa(self, x, y):
-        x = "metricX"
-        y = "metricY"
         return {"metric.chebyshev": [self.similarity.pfa(), x, y]}
 
 class Taxicab(Metric):
@@ -105,8 +101,6 @@ class Taxicab(Metric):
         self.calculate = lambda dataset, cluster: numpy.sum(similarity.calculate(dataset, cluster), axis=1)
         self.similarity = similarity
     def pfa(self, x, y):
-        x = "metricX"
-        y = "metricY"
         return {"metric.taxicab": [self.similarity.pfa(), x, y]}
 
 class Minkowski(Metric):
@@ -116,8 +110,6 @@ class Minkowski(Metric):
         self.similarity = similarity
         self.p = p
     def pfa(self, x, y):
-        x = "metricX"
-        y = "metricY"
         return {"metric.minkowski": [self.similarity.pfa(), x, y, self.p]}
 
 ### stopping conditions are functions that take iterationNumber (int),
-- 
2.43.0


From 716526dd6ac8d187d36cea76ffc5286c72a0cd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 123/137] fix: clustering with the Minkowski metric failed with
 an AttributeError

---
 titus/producer/kmeans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/kmeans.py b/titus/producer/kmeans.py
index e8cba8c..98ec4d7 100644
--- a/titus/producer/kmeans.py
+++ b/titus/producer/kmeans.py
@@ -106,7 +106,7 @@ class Taxicab(Metric):
 class Minkowski(Metric):
     """Minkowski metric for Numpy and PFA."""
     def __init__(self, similarity, p):
-        self.calculate = lambda dataset, cluster: numpy.pow(numpy.sum(numpy.pow(similarity.calculate(dataset, cluster), p), axis=1), 1.0/p)
+        self.calculate = lambda dataset, cluster: numpy.power(numpy.sum(numpy.power(similarity.calculate(dataset, cluster), p), axis=1), 1.0/p)
         self.similarity = similarity
         self.p = p
     def pfa(self, x, y):
-- 
2.43.0


From a139ee1bc060e94defc9e28a33a81f8f7cdc3d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 124/137] fix: clustering stopped as soon as a cluster jumped,
 rather than when none do

---
 titus/producer/kmeans.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/producer/kmeans.py b/titus/producer/kmeans.py
index 98ec4d7..3e96394 100644
--- a/titus/producer/kmeans.py
+++ b/titus/producer/kmeans.py
@@ -193,7 +193,7 @@ def clusterJumped():
     :rtype: callable that takes iterationNumber, corrections, values, datasetSize as arguments
     :return: stopping condition function
     """
-    return lambda iterationNumber, corrections, values, datasetSize: all(x is not None for x in corrections)
+    return lambda iterationNumber, corrections, values, datasetSize: any(x is None for x in corrections)
 
 def maxIterations(number):
     """Generates a stopping condition that stops after a given number of iterations have passed.
@@ -251,7 +251,7 @@ def moving():
     :rtype: callable that takes iterationNumber, corrections, values, datasetSize as arguments
     :return: stopping condition function
     """
-    return whileall(clusterJumped(), allChange(1e-15))
+    return whileany(clusterJumped(), allChange(1e-15))
 
 ### the KMeans class
 
-- 
2.43.0


From 63e735c0b818d23cb8cc957b07b81dafda9e126d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 125/137] fix: clustering with weights failed or moved clusters
 to points that are not the mean of their data

---
 titus/producer/kmeans.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/titus/producer/kmeans.py b/titus/producer/kmeans.py
index 3e96394..cf98bd4 100644
--- a/titus/producer/kmeans.py
+++ b/titus/producer/kmeans.py
@@ -398,7 +398,7 @@ class KMeans(object):
 
             # weights scale the residuals
             if weights is not None:
-                residuals *= weights[selection]
+                residuals *= weights[selection][:, numpy.newaxis]
 
             if self.minPointsInCluster is not None and numpy.sum(selection) < self.minPointsInCluster:
                 # too few points in this cluster; jump to a new random point
@@ -409,7 +409,10 @@ class KMeans(object):
             else:
                 # compute the mean of the displacements of points associated with this cluster
                 # (note that the similarity metric used here is the trivial one, possibly different from the classification metric)
-                correction = residuals.mean(axis=0)
+                if weights is None:
+                    correction = residuals.mean(axis=0)
+                else:
+                    correction = residuals.sum(axis=0) / weights[selection].sum()
                 numpy.add(cluster, correction, cluster)
 
                 if not numpy.isfinite(cluster).all():
-- 
2.43.0


From 2d74234c613624e566bf166d4253dd8554a23e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:34 +0000
Subject: [PATCH 126/137] fix: documents of clusters with populations could not
 be used

---
 titus/producer/kmeans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/kmeans.py b/titus/producer/kmeans.py
index cf98bd4..bf19218 100644
--- a/titus/producer/kmeans.py
+++ b/titus/producer/kmeans.py
@@ -585,7 +585,7 @@ class KMeans(object):
 
         if populations:
             populationsField = '''
-    populations: int,
+    population: int,
 '''
         else:
             populationsField = ""
-- 
2.43.0


From 051fe9f4a517ca6d4e67511770e4a748834ab257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:34 +0000
Subject: [PATCH 127/137] fix: %% in a transformation of a table gave the same
 as %

---
 titus/producer/transformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/transformation.py b/titus/producer/transformation.py
index fe9b6a6..e410d27 100644
--- a/titus/producer/transformation.py
+++ b/titus/producer/transformation.py
@@ -53,7 +53,7 @@ class Transformation(object):
         "u-": "numpy.negative",
         "**": "numpy.power",
         "%": "numpy.mod",
-        "%%": "numpy.remainder",
+        "%%": "numpy.fmod",
         
         "==": "numpy.equal",
         "!=": "numpy.not_equal",
-- 
2.43.0


From a54cdc50e770ae90dd2b54fda7934da52dbb6859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:34 +0000
Subject: [PATCH 128/137] fix: m.round in a transformation of a table rounded
 halves to even numbers

---
 titus/producer/transformation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/titus/producer/transformation.py b/titus/producer/transformation.py
index e410d27..77ad7b1 100644
--- a/titus/producer/transformation.py
+++ b/titus/producer/transformation.py
@@ -81,7 +81,7 @@ class Transformation(object):
         "m.hypot": "numpy.hypot",
         "m.ln": "numpy.log",
         "m.log10": "numpy.log10",
-        "m.round": "numpy.round",
+        "m.round": "roundHalfUp",
         "m.rint": "numpy.rint",
         "m.sin": "numpy.sin",
         "m.sinh": "numpy.sinh",
@@ -90,7 +90,13 @@ class Transformation(object):
         "m.tanh": "numpy.tanh",
         }
 
-    namespace = {"math": math, "numpy": numpy}
+    @staticmethod
+    def roundHalfUp(x):
+        """Round like PFA's ``m.round``: halves go up (``numpy.round`` rounds them to the nearest even number)."""
+        out = numpy.floor(x)
+        return out + (x - out >= 0.5)
+
+    namespace = {"math": math, "numpy": numpy, "roundHalfUp": roundHalfUp.__func__}
 
     @staticmethod
     def findFields(x):
-- 
2.43.0


From ddca5736e9bdc766ba11ce9cc788a13f659f116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:34 +0000
Subject: [PATCH 129/137] fix: transformations to records with a namespace
 referred to an unknown type

---
 titus/producer/transformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/transformation.py b/titus/producer/transformation.py
index 77ad7b1..0703ef4 100644
--- a/titus/producer/transformation.py
+++ b/titus/producer/transformation.py
@@ -296,7 +296,7 @@ class Transformation(object):
                     "new": dict((k, Transformation.replace(v, subs2)) for k, v in list(self.pfas.items()))}
 
         elif isinstance(avroType, AvroRecord):
-            return {"type": avroType.name,
+            return {"type": avroType.fullName,
                     "new": dict((k, Transformation.replace(v, subs2)) for k, v in list(self.pfas.items()))}
         elif isinstance(avroType, dict) and avroType["type"] == "record" or isinstance(avroType, str):
             return {"type": avroType,
-- 
2.43.0


From 22b4970c16b7a0ddd99322180dc541b4527cb6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:52 +0000
Subject: [PATCH 130/137] fix: true and false in a pattern matched the numbers
 1 and 0, and the other way around

---
 titus/producer/tools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/titus/producer/tools.py b/titus/producer/tools.py
index f60acd1..7fb6c57 100644
--- a/titus/producer/tools.py
+++ b/titus/producer/tools.py
@@ -138,14 +138,14 @@ def getmatch(pattern, haystack):
                 return None
         return out
 
-    elif isinstance(pattern, (str, int, float)):
-        if pattern == haystack:
+    elif pattern is None or isinstance(pattern, bool):
+        if pattern is haystack:
             return Match(haystack, haystack)
         else:
             return None
 
-    elif pattern in (True, False, None):
-        if pattern is haystack:
+    elif isinstance(pattern, (str, int, float)):
+        if pattern == haystack and not isinstance(haystack, bool):
             return Match(haystack, haystack)
         else:
             return None
-- 
2.43.0


From 2798243b960d9962528986f8b12da09dacff27fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:52 +0000
Subject: [PATCH 131/137] fix: assignAt and assignedAt also changed places that
 only match because of the changes

---
 titus/producer/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/producer/tools.py b/titus/producer/tools.py
index 7fb6c57..e22bdf6 100644
--- a/titus/producer/tools.py
+++ b/titus/producer/tools.py
@@ -61,13 +61,13 @@ def assigned(expr, index, to):
 
 def assignAt(pattern, expr, to):
     """Destructively (in-place) replace subexpressions that match a regular expression pattern."""
-    for i in indexes(pattern, expr):
+    for i in list(indexes(pattern, expr)):    # find them all before changing any
         assign(expr, i, to)
 
 def assignedAt(pattern, expr, to):
     """Return a copy of expr with replaced subexpressions at points that match a regular expression pattern."""
     expr = copy.deepcopy(expr)
-    for i in indexes(pattern, expr):
+    for i in list(indexes(pattern, expr)):    # find them all before changing any
         assign(expr, i, to)
     return expr
 
-- 
2.43.0


From 20c3ee695d634d7c310b8c7d1112e4f039f05ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:52 +0000
Subject: [PATCH 132/137] fix: findCopy and findAllCopy returned parts of the
 original document

---
 titus/producer/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/producer/tools.py b/titus/producer/tools.py
index e22bdf6..e117738 100644
--- a/titus/producer/tools.py
+++ b/titus/producer/tools.py
@@ -444,7 +444,7 @@ def findCopy(pattern, haystack):
     if x is None:
         return None
     else:
-        return x[1].original   # "original" is a copy that is identical to the original (see Match class)
+        return copy.deepcopy(x[1].original)
 
 def findAllRef(pattern, haystack):
     """Create a generator to yield references to matching subexpressions within the original structure (for in-place modifications)."""
@@ -454,7 +454,7 @@ def findAllRef(pattern, haystack):
 def findAllCopy(pattern, haystack):
     """Create a generator to yield copies of the matching subexpressions."""
     for x in search(pattern, haystack):
-        yield x[1].original   # "original" is a copy that is identical to the original (see Match class)
+        yield copy.deepcopy(x[1].original)
 
 ############################################## the look function presents a JSON object in an analyzable way
 
-- 
2.43.0


From 80da23c295185d96c581bd389e08f5b17663b417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:52 +0000
Subject: [PATCH 133/137] fix: searching a document also found the source-line
 marks

---
 titus/producer/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/tools.py b/titus/producer/tools.py
index e117738..897a47e 100644
--- a/titus/producer/tools.py
+++ b/titus/producer/tools.py
@@ -391,7 +391,7 @@ class Any(Matcher):
 def search(pattern, haystack, result=()):
     """Create a generator to yield matches as (index, Match) pairs."""
     if isinstance(haystack, dict):
-        for key in sorted(haystack.keys()):
+        for key in sorted(set(haystack.keys()).difference(set(["@"]))):
             for x in search(pattern, haystack[key], result + (key,)):
                 yield x
 
-- 
2.43.0


From 195a52e69142aa02e06ee236009a2185eb4a0624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:52 +0000
Subject: [PATCH 134/137] fix: a named group could not be put around a literal
 pattern

---
 titus/producer/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/tools.py b/titus/producer/tools.py
index 897a47e..6566000 100644
--- a/titus/producer/tools.py
+++ b/titus/producer/tools.py
@@ -165,7 +165,7 @@ class Group(Matcher):
     def __repr__(self):
         return "Group(" + repr(self.name) + "=" + repr(self.matcher) + ")"
     def getmatch(self, haystack):
-        m = self.matcher.getmatch(haystack)
+        m = getmatch(self.matcher, haystack)
         if m is not None:
             m.groups[self.name] = m.modified
             return m
-- 
2.43.0


From f2b3b17897cdf65448b43e7c69bfbb70e5621875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:52 +0000
Subject: [PATCH 135/137] fix: And patterns lost the substitutions and groups
 of all but their last alternative

---
 titus/producer/tools.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/titus/producer/tools.py b/titus/producer/tools.py
index 6566000..66331a7 100644
--- a/titus/producer/tools.py
+++ b/titus/producer/tools.py
@@ -272,11 +272,17 @@ class And(Matcher):
     def getmatch(self, haystack):
         if len(self.alternatives) == 0:
             return None
+        out = None
+        groups = {}
         for alt in self.alternatives:
             m = getmatch(alt, haystack)
             if m is None:
                 return None
-        return m
+            groups.update(m.groups)
+            if out is None or m.modified != m.original:
+                out = m
+        out.groups = groups
+        return out
 
 class Approx(Matcher):
     """Match a number within a given range."""
-- 
2.43.0


From a9b2acb9a8991ea6ff81d17173dd6960681215a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:52 +0000
Subject: [PATCH 136/137] fix: unpacking an unsigned long gave a value that is
 not a double

---
 titus/genpy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/titus/genpy.py b/titus/genpy.py
index f393719..a94fb2d 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1218,6 +1218,8 @@ def unpackOne(byte_s, scope, s, f, l):
         if len(this) != l:
             raise MisalignedPacking()
         value, = struct.unpack(f, this)
+        if f.endswith("Q"):
+            value = float(value)    # unsigned longs are doubles
         scope.let({s: value})
 
     return that
-- 
2.43.0


From d37474ad5123c1a437c3ea5472b66972d60b1b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:52 +0000
Subject: [PATCH 137/137] fix: Avro files could not be written, and data of
 unions lost their branches in Avro files

---
 titus/genpy.py | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index a94fb2d..07355dc 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1770,7 +1770,7 @@ class PFAEngine(object):
         """
 
         if interpreter == "avro":
-            return DataFileReader(inputStream, DatumReader())
+            return DataFileReader(inputStream, InputDatumReader())
         elif interpreter == "fastavro":
             import fastavro
             return fastavro.reader(inputStream)
@@ -1790,7 +1790,39 @@ class PFAEngine(object):
         :return: an output stream with an ``append`` method for appending output data objects
         """
 
-        return DataFileWriter(open(fileName, "w"), DatumWriter(), self.config.output.schema)
+        return DataFileWriter(open(fileName, "wb"), OutputDatumWriter(self.config.output), self.config.output.schema)
+
+class InputDatumReader(DatumReader):
+    """Reads data with the Avro library and tags unions, so that they are suitable for the action method."""
+
+    def read_union(self, writer_schema, reader_schema, decoder):
+        branch = writer_schema.schemas[int(decoder.read_long())]
+        value = self.read_data(branch, branch, decoder)
+        if value is None:
+            return None
+        return {getattr(branch, "fullname", branch.type): value}
+
+class OutputDatumWriter(DatumWriter):
+    """Writes the output of a scoring engine, in which unions are tagged, with the Avro library."""
+
+    def __init__(self, avroType):
+        self.avroType = avroType
+        super(OutputDatumWriter, self).__init__(avroType.schema)
+
+    def write(self, datum, encoder):
+        encodeRaw = lambda x: x if isinstance(x, bytes) else titus.datatype.stringToBytes(x)
+        self.write_data(self.writer_schema, titus.datatype.jsonEncoder(self.avroType, datum, True, encodeRaw), encoder)
+
+    def write_union(self, writer_schema, datum, encoder):
+        if datum is None:
+            tag, value = "null", None
+        else:
+            (tag, value), = list(datum.items())
+        for index, branch in enumerate(writer_schema.schemas):
+            if tag == getattr(branch, "fullname", branch.type):
+                encoder.write_long(index)
+                return self.write_data(branch, value, encoder)
+        raise ValueError("{0} does not match union {1}".format(datum, writer_schema))
 
 class FastAvroCorrector(object):
     """The fastavro library reads Avro strings as non-Unicode and doesn't tag unions. This wrapper class corrects it."""
-- 
2.43.0

