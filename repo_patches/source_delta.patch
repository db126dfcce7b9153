From ba1f617e34173badc008fe8d930792628f104884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 01/88] fix: slicetools handles empty, misaligned, descending
 and repeated index sets

---
 pygsti/tools/slicetools.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/pygsti/tools/slicetools.py b/pygsti/tools/slicetools.py
index 4cad4b6..b2987d2 100644
--- a/pygsti/tools/slicetools.py
+++ b/pygsti/tools/slicetools.py
@@ -28,7 +28,7 @@ def length(s):
     if s.start is None or s.stop is None:
         return 0
     if s.step is None:
-        return s.stop - s.start
+        return max(0, s.stop - s.start)
     else:
         return len(range(s.start, s.stop, s.step))
 
@@ -68,21 +68,26 @@ def intersect(s1, s2):
     """
     assert (s1.step is None and s2.step is None) or s1.step == s2.step, \
         "Only implemented for same-step slices"
+    descending = s1.step is not None and s1.step < 0
+    latest, earliest = (min, max) if descending else (max, min)
+
     if s1.start is None:
         start = s2.start
     elif s2.start is None:
         start = s1.start
     else:
-        start = max(s1.start, s2.start)
+        start = latest(s1.start, s2.start)
+        if s1.step is not None and (s1.start - s2.start) % s1.step != 0:
+            return slice(start, start, s1.step)  # same step but no common index
 
     if s1.stop is None:
         stop = s2.stop
     elif s2.stop is None:
         stop = s1.stop
     else:
-        stop = min(s1.stop, s2.stop)
+        stop = earliest(s1.stop, s2.stop)
 
-    if stop is not None and start is not None and stop < start:
+    if stop is not None and start is not None and (stop > start if descending else stop < start):
         stop = start
 
     return slice(start, stop, s1.step)
@@ -167,7 +172,12 @@ def list_to_slice(lst, array_ok=False, require_contiguous=True):
     if len(lst) == 1: return slice(start, start + 1)
     step = lst[1] - lst[0]; stop = start + step * len(lst)
 
-    if list(lst) == list(range(start, stop, step)):
+    if step == 0 or (step < 0 and stop < 0):
+        is_slice = False  # repeated indices, or a descending run that no slice with an integer stop can express
+    else:
+        is_slice = list(lst) == list(range(start, stop, step))
+
+    if is_slice:
         if require_contiguous and step != 1:
             if array_ok: return _np.array(lst, _np.int64)
             else: raise ValueError("Slice must be contiguous (or array_ok must be True)!")
@@ -212,9 +222,10 @@ def divide(slc, maxLen):
     sub_slices = []
     sub_start = slc.start
     step = 1 if (slc.step is None) else slc.step
-    while sub_start < slc.stop:
+    earliest = min if step > 0 else max
+    while (slc.stop - sub_start) * step > 0:
         # Note: len(range(start,stop,step)) == stop-start+(step-1) // step
-        sub_slices.append(slice(sub_start, min(sub_start + maxLen * step, slc.stop),
+        sub_slices.append(slice(sub_start, earliest(sub_start + maxLen * step, slc.stop),
                                 slc.step))
         sub_start += maxLen * step
     return sub_slices
-- 
2.43.0


From 5cc7c9f352d5232ed63f5f35e3c0a8d41cd73b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:06 +0000
Subject: [PATCH 02/88] fix: gather_indices no longer loses descending or
 repeated index runs

---
 pygsti/tools/mpitools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsti/tools/mpitools.py b/pygsti/tools/mpitools.py
index 9301a17..e7929a2 100644
--- a/pygsti/tools/mpitools.py
+++ b/pygsti/tools/mpitools.py
@@ -649,6 +649,7 @@ def gather_indices(indices, index_owners, arToFill, arToFillInds,
             while i < N:
                 start = lst[i]
                 step = lst[i + 1] - lst[i] if i + 1 < N else None
+                if step is not None and step <= 0: step = None  # only ascending runs become multi-element slices
                 while i + 1 < N and lst[i + 1] - lst[i] == step: i += 1
                 stop = lst[i] + 1
                 slc_lst.append(slice(start, stop, None if step == 1 else step))
-- 
2.43.0


From 59d1d22b7fa73d97d4213b4e47bdd6a693055ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:02 +0000
Subject: [PATCH 03/88] fix: alias expansion that contains the replaced label
 terminates

---
 pygsti/objects/circuit.py | 10 ++++------
 pygsti/tools/listtools.py |  5 ++---
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 1925499..730693b 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -1729,9 +1729,8 @@ class Circuit(object):
             assert(all([c._static for c in alias_dict.values()])), "Alias dict values must be *static* circuits!"
             layers = cpy._labels
             for label, c in alias_dict.items():
-                while label in layers:
-                    i = layers.index(label)
-                    layers = layers[:i] + c._labels + layers[i + 1:]
+                # one pass, so that an expansion may contain the layer it replaces
+                layers = tuple(_itertools.chain.from_iterable(c._labels if l == label else (l,) for l in layers))
             return Circuit(layers, self.line_labels)
 
         else:  # static case: so self._labels is a tuple of Labels
@@ -1739,9 +1738,8 @@ class Circuit(object):
             assert(all([c._static for c in alias_dict.values()])), "Alias dict values must be *static* circuits!"
             layers = self._labels  # a *tuple*
             for label, c in alias_dict.items():
-                while label in layers:
-                    i = layers.index(label)
-                    layers = layers[:i] + c._labels + layers[i + 1:]
+                # one pass, so that an expansion may contain the layer it replaces
+                layers = tuple(_itertools.chain.from_iterable(c._labels if l == label else (l,) for l in layers))
             return Circuit(layers, self.line_labels)
 
     #def replace_identity(self, identity, convert_identity_gates = True): # THIS module only
diff --git a/pygsti/tools/listtools.py b/pygsti/tools/listtools.py
index 6e7fd54..f9a14b4 100644
--- a/pygsti/tools/listtools.py
+++ b/pygsti/tools/listtools.py
@@ -133,9 +133,8 @@ def find_replace_tuple(t, aliasDict):
     t = tuple(t)
     if aliasDict is None: return t
     for label, expandedStr in aliasDict.items():
-        while label in tuple(t):
-            i = t.index(label)
-            t = t[:i] + tuple(expandedStr) + t[i + 1:]
+        # one pass, so that an expansion may contain the label it replaces
+        t = tuple(_itertools.chain.from_iterable(tuple(expandedStr) if x == label else (x,) for x in t))
     return t
 
 
-- 
2.43.0


From 4bf6f409ac1c5dc59dc7b09ca764a342db02d13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:00 +0000
Subject: [PATCH 04/88] fix: labels keep time, arguments and hashability when
 renamed, extended, re-mapped or pickled

---
 pygsti/objects/label.py | 43 ++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/pygsti/objects/label.py b/pygsti/objects/label.py
index 2f2b3ed..8144659 100644
--- a/pygsti/objects/label.py
+++ b/pygsti/objects/label.py
@@ -285,7 +285,7 @@ class LabelTup(Label, tuple):
             mapped_sslbls = [mapper[sslbl] for sslbl in self.sslbls]
         else:  # assume mapper is callable
             mapped_sslbls = [mapper(sslbl) for sslbl in self.sslbls]
-        return Label(self.name, mapped_sslbls)
+        return Label(self.name, mapped_sslbls, self.time)
 
     #OLD
     #def __iter__(self):
@@ -319,7 +319,7 @@ class LabelTup(Label, tuple):
 
     def __add__(self, s):
         if isinstance(s, str):
-            return LabelTup(self.name + s, self.sslbls)
+            return LabelTup.init(self.name + s, self.sslbls, self.time)
         else:
             raise NotImplementedError("Cannot add %s to a Label" % str(type(s)))
 
@@ -358,7 +358,7 @@ class LabelTup(Label, tuple):
 
     def replacename(self, oldname, newname):
         """ Returns a label with `oldname` replaced by `newname`."""
-        return LabelTup(newname, self.sslbls) if (self.name == oldname) else self
+        return LabelTup.init(newname, self.sslbls, self.time) if (self.name == oldname) else self
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
@@ -458,7 +458,7 @@ class LabelStr(Label, str):
 
     def __add__(self, s):
         if isinstance(s, str):
-            return LabelStr(self.name + str(s))
+            return LabelStr(self.name + str(s), self.time)
         else:
             raise NotImplementedError("Cannot add %s to a Label" % str(type(s)))
 
@@ -481,7 +481,7 @@ class LabelStr(Label, str):
     def __reduce__(self):
         # Need to tell serialization logic how to create a new Label since it's derived
         # from the immutable tuple type (so cannot have its state set after creation)
-        return (LabelStr, (str(self), self.time), None)
+        return (LabelStr, (self.name, self.time), None)
 
     def tonative(self):
         """ Returns this label as native python types.  Useful for
@@ -491,7 +491,7 @@ class LabelStr(Label, str):
 
     def replacename(self, oldname, newname):
         """ Returns a label with `oldname` replaced by `newname`."""
-        return LabelStr(newname) if (self.name == oldname) else self
+        return LabelStr(newname, self.time) if (self.name == oldname) else self
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
@@ -611,7 +611,7 @@ class LabelTupTup(Label, tuple):
         -------
         Label
         """
-        return LabelTupTup(tuple((lbl.map_state_space_labels(mapper) for lbl in self)))
+        return LabelTupTup(tuple((lbl.map_state_space_labels(mapper) for lbl in self)), self.time)
 
     def __str__(self):
         """
@@ -664,7 +664,7 @@ class LabelTupTup(Label, tuple):
 
     def replacename(self, oldname, newname):
         """ Returns a label with `oldname` replaced by `newname`."""
-        return LabelTupTup(tuple((x.replacename(oldname, newname) for x in self)))
+        return LabelTupTup(tuple((x.replacename(oldname, newname) for x in self)), self.time)
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
@@ -832,8 +832,8 @@ class CircuitLabel(Label, tuple):
             mapped_sslbls = [mapper(sslbl) for sslbl in self.sslbls]
         return CircuitLabel(self.name,
                             tuple((lbl.map_state_space_labels(mapper) for lbl in self.components)),
-                            mapped_sslbls,
-                            self[2])
+                            tuple(mapped_sslbls),
+                            self[2], self.time)
 
     def __str__(self):
         """
@@ -900,7 +900,7 @@ class CircuitLabel(Label, tuple):
         return CircuitLabel(self.name,
                             tuple((x.replacename(oldname, newname) for x in self.components)),
                             self.sslbls,
-                            self[2])
+                            self[2], self.time)
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
@@ -1093,7 +1093,7 @@ class LabelTupWithArgs(Label, tuple):
 
     def __add__(self, s):
         if isinstance(s, str):
-            return LabelTupWithArgs(self.name + s, self.sslbls, self.time, self.args)
+            return LabelTupWithArgs.init(self.name + s, self.sslbls or (), self.time, self.args)
         else:
             raise NotImplementedError("Cannot add %s to a Label" % str(type(s)))
 
@@ -1132,7 +1132,8 @@ class LabelTupWithArgs(Label, tuple):
 
     def replacename(self, oldname, newname):
         """ Returns a label with `oldname` replaced by `newname`."""
-        return LabelTupWithArgs(newname, self.sslbls, self.time, self.args) if (self.name == oldname) else self
+        return LabelTupWithArgs.init(newname, self.sslbls or (), self.time, self.args) \
+            if (self.name == oldname) else self
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
@@ -1171,15 +1172,17 @@ class LabelTupTupWithArgs(Label, tuple):
         """
         assert(time is None or isinstance(time, float)), "`time` must be a floating point value, received: " + str(time)
         assert(len(args) > 0), "`args` must be a nonempty list/tuple of hashable arguments"
-        tupOfLabels = (1 + len(args),) + args + tuple((Label(tup) for tup in tupOfTups))  # Note tup can be a Label
+        args = tuple(args)
+        labels = tuple((Label(tup) for tup in tupOfTups))
+        tupOfLabels = (1 + len(args),) + args + labels  # Note tup can be a Label
         # stores: (K, args, subLabels) where K is the index of the start of subLabels
 
         #if time is not None:
         #    assert(all([(time == l.time or l.time is None) for l in tupOfLabels[1 + len(args):]])), \
         #        "Component times do not match compound label time!"
         if time is None:
-            time = 0.0 if len(tupOfLabels) == 0 else \
-                max([lbl.time for lbl in tupOfLabels])
+            time = 0.0 if len(labels) == 0 else \
+                max([lbl.time for lbl in labels])
         return cls.__new__(cls, tupOfLabels, time)
 
     def __new__(cls, tupOfLabels, time=0.0):
@@ -1264,8 +1267,8 @@ class LabelTupTupWithArgs(Label, tuple):
         -------
         Label
         """
-        return LabelTupTupWithArgs(tuple((lbl.map_state_space_labels(mapper)
-                                          for lbl in self.components)), self.time, self.args)
+        return LabelTupTupWithArgs.init(tuple((lbl.map_state_space_labels(mapper)
+                                               for lbl in self.components)), self.time, self.args)
 
     def __str__(self):
         """
@@ -1281,7 +1284,7 @@ class LabelTupTupWithArgs(Label, tuple):
         else:
             timestr = ""
 
-        return "[" + "".join([str(lbl) for lbl in self]) + argstr + timestr + "]"
+        return "[" + "".join([str(lbl) for lbl in self.components]) + argstr + timestr + "]"
 
     def __repr__(self):
         return "Label[" + str(self) + "]"
@@ -1328,7 +1331,7 @@ class LabelTupTupWithArgs(Label, tuple):
 
     def replacename(self, oldname, newname):
         """ Returns a label with `oldname` replaced by `newname`."""
-        return LabelTupTupWithArgs(tuple((x.replacename(oldname, newname) for x in self.components)),
+        return LabelTupTupWithArgs.init(tuple((x.replacename(oldname, newname) for x in self.components)),
                                    self.time, self.args)
 
     def issimple(self):
-- 
2.43.0


From 783e7ec4abac1d42b08c02c13403fd47cdd66f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:48 +0000
Subject: [PATCH 05/88] fix: a full slice addresses all layers or lines of a
 circuit

---
 pygsti/objects/circuit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 730693b..df0695b 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -595,7 +595,7 @@ class Circuit(object):
             layers = list(range(len(self._labels)))
         elif isinstance(layers, slice):
             if layers.start is None and layers.stop is None:
-                layers = ()
+                layers = list(range(len(self._labels)))[layers]
             else:
                 layers = _slct.indices(layers, len(self._labels))
         elif not isinstance(layers, (list, tuple)):
@@ -608,7 +608,7 @@ class Circuit(object):
             lines = self.line_labels
         elif isinstance(lines, slice):
             if lines.start is None and lines.stop is None:
-                lines = ()
+                lines = self.line_labels
             else:
                 lines = _slct.indices(lines)
         elif not isinstance(lines, (list, tuple)):
@@ -618,7 +618,7 @@ class Circuit(object):
     def _proc_key_arg(self, key):
         """ Pre-process the key argument used by many methods """
         if isinstance(key, tuple):
-            if len(key) != 2: return IndexError("Index must be of the form <layerIndex>,<lineIndex>")
+            if len(key) != 2: raise IndexError("Index must be of the form <layerIndex>,<lineIndex>")
             layers = key[0]
             lines = key[1]
         else:
-- 
2.43.0


From e76b9d2028f81d77c7cfad5a2382269c4d6b70d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:48 +0000
Subject: [PATCH 06/88] fix: Circuit.set_labels keeps arguments, times and the
 layers it adds

---
 pygsti/objects/circuit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index df0695b..7d01e48 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -97,7 +97,10 @@ def _label_to_nested_lists_of_simple_labels(lbl, default_sslbls=None, always_ret
         lbl = _Label(lbl)  # e.g. a string or list/tuple of labels, etc.
     if lbl.issimple():  # a *simple* label - the elements of our lists
         if lbl.sslbls is None and default_sslbls is not None:
-            lbl = _Label(lbl.name, default_sslbls)
+            if isinstance(lbl, _CircuitLabel):
+                lbl = _CircuitLabel(lbl.name, lbl.components, default_sslbls, lbl.reps, lbl.time)
+            else:
+                lbl = _Label(lbl.name, default_sslbls, lbl.time, lbl.args if lbl.args else None)
         return [lbl] if always_return_list else lbl
     return [_label_to_nested_lists_of_simple_labels(l, default_sslbls, False)
             for l in lbl.components]  # a *list*
@@ -828,6 +831,7 @@ class Circuit(object):
         if all_layers:  # then we'll add new layers as needed
             while len(lbls) > len(self._labels):
                 self._labels.append([])
+            layers = list(range(len(self._labels)))
         elif len(layers) > 1:
             assert(len(layers) == len(lbls)), \
                 "Block width mismatch: assigning %d layers to %d layers" % (len(lbls), len(layers))
-- 
2.43.0


From b50832f5334d0bb27e7b9a739379b5e8cc231e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:48 +0000
Subject: [PATCH 07/88] fix: inserting idling layers on some lines shifts every
 later gate on them

---
 pygsti/objects/circuit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 7d01e48..1cd9ad8 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -901,11 +901,13 @@ class Circuit(object):
         else:  # insert layers only on given lines - shift existing labels to right
             for i in range(numToInsert):
                 self._labels.append([])  # add blank layers at end
-            for i in range(insertBefore, insertBefore + numToInsert):
-                # move labels on `lines` to layer i+numToInsert
+            lines = self._proc_lines_arg(lines)
+            for i in range(len(self._labels) - numToInsert - 1, insertBefore - 1, -1):
+                # move labels on `lines` to layer i+numToInsert (last layer first, so each label moves once)
                 inds_to_delete = []
                 for k, lbl in enumerate(self._labels[i]):
                     sslbls = _sslbls_of_nested_lists_of_simple_labels(lbl)
+                    sslbls = set(self.line_labels) if sslbls is None else set(sslbls)
                     if len(sslbls.intersection(lines)) > 0:  # then we need to move this label
                         if not sslbls.issubset(lines):
                             raise ValueError("Cannot shift a block that is straddled by %s!" % _Label(lbl))
-- 
2.43.0


From e8f483282a26ec9747d02affd75965ac8f21602f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:09 +0000
Subject: [PATCH 08/88] fix: inserting layers at the end, from the end, or a
 circuit as lines

---
 pygsti/objects/circuit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 1cd9ad8..556a1f7 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -977,6 +977,8 @@ class Circuit(object):
         # lbls is expected to be a list/tuple of Label-like items, one per inserted layer
         lbls = tuple(map(toLabel, lbls))
         numLayersToInsert = len(lbls)
+        if layerToInsertBefore is None: layerToInsertBefore = len(self._labels)
+        elif layerToInsertBefore < 0: layerToInsertBefore = len(self._labels) + layerToInsertBefore
         self.insert_idling_layers(layerToInsertBefore, numLayersToInsert, lines)  # make space
         self.set_labels(lbls, slice(layerToInsertBefore, layerToInsertBefore + numLayersToInsert), lines)
         #Note: set_labels expects lbls to be a list/tuple of Label-like items b/c it's given a layer *slice*
@@ -1062,7 +1064,7 @@ class Circuit(object):
 
         if isinstance(lbls, Circuit):
             if line_labels == "auto": line_labels = lbls.line_labels
-            lbls = lbls.tup
+            lbls = lbls.layertup
         elif line_labels == "auto":
             line_labels = tuple(sorted(_accumulate_explicit_sslbls(lbls)))
 
-- 
2.43.0


From 6a4c0651ec608364c31ac96e119036d61ee3d1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:34 +0000
Subject: [PATCH 09/88] fix: lines are idle in the empty layers of a circuit

---
 pygsti/objects/circuit.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 556a1f7..6596af9 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -2001,6 +2001,7 @@ class Circuit(object):
         if self._static:
             layers = list(filter(lambda x: x not in idle_layer_labels, self._labels)) \
                 if idle_layer_labels else self._labels
+            layers = [layer for layer in layers if len(layer.components) > 0]  # empty layers don't use any line
             all_sslbls = None if any([layer.sslbls is None for layer in layers]) \
                 else set(_itertools.chain(*[layer.sslbls for layer in layers]))
         else:
@@ -2029,6 +2030,7 @@ class Circuit(object):
         if self._static:
             layers = list(filter(lambda x: x not in idle_layer_labels, self._labels)) \
                 if idle_layer_labels else self._labels
+            layers = [layer for layer in layers if len(layer.components) > 0]  # empty layers don't use any line
             all_sslbls = None if any([layer.sslbls is None for layer in layers]) \
                 else set(_itertools.chain(*[layer.sslbls for layer in layers]))
         else:
@@ -2065,6 +2067,7 @@ class Circuit(object):
         if self._static:
             layers = list(filter(lambda x: x not in idle_layer_labels, self._labels)) \
                 if idle_layer_labels else self._labels
+            layers = [layer for layer in layers if len(layer.components) > 0]  # empty layers don't use any line
             all_sslbls = None if any([layer.sslbls is None for layer in layers]) \
                 else set(_itertools.chain(*[layer.sslbls for layer in layers]))
         else:
@@ -2403,12 +2406,13 @@ class Circuit(object):
         Label
         """
         layer_lbl = self.get_layer_label(j)  # (a Label)
-        if layer_lbl.sslbls is None:
+        components = list(layer_lbl.components)
+        if layer_lbl.sslbls is None and len(components) > 0:
             return layer_lbl  # all qubits used - no idles to pad
 
-        components = list(layer_lbl.components)
+        used_sslbls = () if layer_lbl.sslbls is None else layer_lbl.sslbls
         for line_lbl in self.line_labels:
-            if line_lbl not in layer_lbl.sslbls:
+            if line_lbl not in used_sslbls:
                 components.append(_Label(idleGateName, line_lbl))
         return _Label(components)
 
-- 
2.43.0


From 74db82c571415c4055038f4c3102795c6f872950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:57 +0000
Subject: [PATCH 10/88] fix: renaming gates or lines of a circuit keeps
 arguments, times and sub-circuits

---
 pygsti/objects/circuit.py | 19 +++++++++----------
 pygsti/objects/label.py   | 33 ++++++++++++++++++++++++++++-----
 2 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 6596af9..225f7bc 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -1651,9 +1651,7 @@ class Circuit(object):
 
         def replace(obj):  # obj is either a simple label or a list
             if isinstance(obj, _Label):
-                if obj.name == old_gatename:
-                    newobj = _Label(new_gatename, obj.sslbls)
-                else: newobj = obj
+                newobj = obj.replacename(old_gatename, new_gatename)
             else:
                 newobj = [replace(sub) for sub in obj]
             return newobj
@@ -1888,13 +1886,16 @@ class Circuit(object):
 
         # If the mapper is a dict, turn it into a function
         def mapper_func(gatename): return mapper.get(gatename, None) \
-            if isinstance(mapper, dict) else mapper
+            if isinstance(mapper, dict) else mapper(gatename)
 
         def map_names(obj):  # obj is either a simple label or a list
             if isinstance(obj, _Label):
-                if obj.issimple():  # *simple* label
+                if isinstance(obj, _CircuitLabel):  # map the names within the sub-circuit
+                    newobj = _CircuitLabel(obj.name, tuple([map_names(comp) for comp in obj.components]),
+                                           obj.sslbls, obj.reps, obj.time)
+                elif obj.issimple():  # *simple* label
                     new_name = mapper_func(obj.name)
-                    newobj = _Label(new_name, obj.sslbls) \
+                    newobj = _Label(new_name, obj.sslbls, obj.time, obj.args if obj.args else None) \
                         if (new_name is not None) else obj
                 else:  # compound label
                     newobj = _Label([map_names(comp) for comp in obj.components])
@@ -1923,15 +1924,13 @@ class Circuit(object):
 
         # If the mapper is a dict, turn it into a function
         def mapper_func(line_label): return mapper[line_label] \
-            if isinstance(mapper, dict) else mapper
+            if isinstance(mapper, dict) else mapper(line_label)
 
         self._line_labels = tuple((mapper_func(l) for l in self.line_labels))
 
         def map_sslbls(obj):  # obj is either a simple label or a list
             if isinstance(obj, _Label):
-                new_sslbls = [mapper_func(l) for l in obj.sslbls] \
-                    if (obj.sslbls is not None) else None
-                newobj = _Label(obj.name, new_sslbls)
+                newobj = obj.map_state_space_labels(mapper_func)
             else:
                 newobj = [map_sslbls(sub) for sub in obj]
             return newobj
diff --git a/pygsti/objects/label.py b/pygsti/objects/label.py
index 8144659..f311017 100644
--- a/pygsti/objects/label.py
+++ b/pygsti/objects/label.py
@@ -447,6 +447,25 @@ class LabelStr(Label, str):
         """
         return self.startswith(prefix)
 
+    def map_state_space_labels(self, mapper):
+        """
+        Return a copy of this Label with all of the state-space-labels
+        updated according to a mapping function.  Since this label has no
+        state space labels, it is returned unchanged.
+
+        Parameters
+        ----------
+        mapper : dict or function
+            A dictionary whose keys are the existing state-space-label values
+            and whose value are the new labels, or a function which takes a
+            single (existing label) argument and returns a new label.
+
+        Returns
+        -------
+        Label
+        """
+        return self
+
     def __str__(self):
         s = self[:]  # converts to a normal str
         if self.time != 0.0:
@@ -826,13 +845,15 @@ class CircuitLabel(Label, tuple):
         -------
         Label
         """
-        if isinstance(mapper, dict):
-            mapped_sslbls = [mapper[sslbl] for sslbl in self.sslbls]
+        if self.sslbls is None:
+            mapped_sslbls = None
+        elif isinstance(mapper, dict):
+            mapped_sslbls = tuple([mapper[sslbl] for sslbl in self.sslbls])
         else:  # assume mapper is callable
-            mapped_sslbls = [mapper(sslbl) for sslbl in self.sslbls]
+            mapped_sslbls = tuple([mapper(sslbl) for sslbl in self.sslbls])
         return CircuitLabel(self.name,
                             tuple((lbl.map_state_space_labels(mapper) for lbl in self.components)),
-                            tuple(mapped_sslbls),
+                            mapped_sslbls,
                             self[2], self.time)
 
     def __str__(self):
@@ -1065,7 +1086,9 @@ class LabelTupWithArgs(Label, tuple):
         -------
         Label
         """
-        if isinstance(mapper, dict):
+        if self.sslbls is None:
+            return self  # no labels to map
+        elif isinstance(mapper, dict):
             mapped_sslbls = [mapper[sslbl] for sslbl in self.sslbls]
         else:  # assume mapper is callable
             mapped_sslbls = [mapper(sslbl) for sslbl in self.sslbls]
-- 
2.43.0


From c76d495efb7f66b8a17e28597aaf5b93f708b46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:45 +0000
Subject: [PATCH 11/88] fix: the text of a circuit follows its line labels;
 idle lines of a static circuit can be removed

---
 pygsti/objects/circuit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 225f7bc..e46d40f 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -413,9 +413,10 @@ class Circuit(object):
             if removed_not_idling and self._static:
                 raise ValueError("Cannot remove non-idling lines %s from a read-only circuit!" %
                                  str(removed_not_idling))
-            else:
+            elif removed_not_idling:
                 self.delete_lines(tuple(removed_not_idling))
         self._line_labels = tuple(value)
+        self._str = None  # any existing string holds the old line labels
 
     @property
     def name(self):
@@ -1008,6 +1009,7 @@ class Circuit(object):
         else:
             i = self.line_labels.index(insertBefore)
         self._line_labels = self.line_labels[0:i] + tuple(line_labels) + self.line_labels[i:]
+        self._str = None  # any existing string holds the old line labels
 
     def append_idling_lines(self, line_labels):
         """
@@ -1976,6 +1978,7 @@ class Circuit(object):
         # OK even for static circuits because it won't affect the hashed value (labels only)
         assert(set(order) == set(self.line_labels)), "The line labels must be the same!"
         self._line_labels = tuple(order)
+        self._str = None  # any existing string holds the old line labels
 
     def is_line_idling(self, line_label, idle_layer_labels=None):
         """
@@ -2079,6 +2082,7 @@ class Circuit(object):
         # to remove in self._labels (as all the lines are idling)
         self._line_labels = tuple([x for x in self.line_labels
                                    if x in all_sslbls])  # preserve order
+        self._str = None  # any existing string holds the old line labels
 
     def replace_with_idling_line(self, line_label, clear_straddlers=True):
         """
-- 
2.43.0


From c082e4e38665ac4bf5d33427e93304f213c0e6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:45 +0000
Subject: [PATCH 12/88] fix: Circuit.repeat(expand=False) does not expand the
 repeated circuit

---
 pygsti/objects/circuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index e46d40f..b2faaa6 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -535,7 +535,8 @@ class Circuit(object):
             s += "@" + mylines  # add line labels
         if ntimes > 1 and expand is False:
             reppedCircuitLbl = self.as_label(nreps=ntimes)
-            return Circuit((reppedCircuitLbl,), self.line_labels, None, not self._static, s, check=False)
+            return Circuit((reppedCircuitLbl,), self.line_labels, None, not self._static, s, check=False,
+                           expand_subcircuits=False)
         else:
             # just adds parens to string rep & copies
             return Circuit(self.layertup * ntimes, self.line_labels, None, not self._static, s, check=False)
-- 
2.43.0


From 7ee164dcffeea4713f2ff9b2b77229cfd654756b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:29 +0000
Subject: [PATCH 13/88] fix: Circuit.get_labels(strict=False) leaves out gates
 outside the region

---
 pygsti/objects/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index b2faaa6..f262aa2 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -746,7 +746,7 @@ class Circuit(object):
                 else:
                     sslbls = set(sslbls)
                 if (strict and sslbls.issubset(lines)) or \
-                   (not strict and len(sslbls.intersection(lines)) >= 0):
+                   (not strict and len(sslbls.intersection(lines)) > 0):
                     ret_layer.append(l)
             ret.append(ret_layer)
 
-- 
2.43.0


From 28eadab0185fcab687fe7dabd881cde1b3930cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:55 +0000
Subject: [PATCH 14/88] fix: error messages about straddling gates can be
 formatted

---
 pygsti/objects/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index f262aa2..08984e6 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -912,7 +912,7 @@ class Circuit(object):
                     sslbls = set(self.line_labels) if sslbls is None else set(sslbls)
                     if len(sslbls.intersection(lines)) > 0:  # then we need to move this label
                         if not sslbls.issubset(lines):
-                            raise ValueError("Cannot shift a block that is straddled by %s!" % _Label(lbl))
+                            raise ValueError("Cannot shift a block that is straddled by %s!" % str(_Label(lbl)))
                             #FUTURE: recover from this error gracefully so we don't leave the circuit in an intermediate
                             #state?
                         inds_to_delete.append(k)  # remove it from current layer
@@ -1208,7 +1208,7 @@ class Circuit(object):
                     new_layer.append(l)
                 elif not delete_straddlers and not set(sslbls).issubset(lines):
                     raise ValueError(("Cannot remove a block that is straddled by "
-                                      "%s when `delete_straddlers` == False!") % _Label(l))
+                                      "%s when `delete_straddlers` == False!") % str(_Label(l)))
             self._labels[i] = new_layer
         self._line_labels = tuple([x for x in self.line_labels if x not in lines])
 
-- 
2.43.0


From 46d18f2e4257599f14d21ab46716555d6e486f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:20 +0000
Subject: [PATCH 15/88] fix: adjacent-only parallelization never puts two gates
 on one line

---
 pygsti/objects/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 08984e6..81879b4 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -1361,7 +1361,7 @@ class Circuit(object):
 
                     #update first_free
                     if adjacent_only:  # all labels/components following this one must at least be at 'pos'
-                        for k in first_free: first_free[k] = pos
+                        for k in first_free: first_free[k] = max(first_free[k], pos)
                     if c.sslbls is None:
                         for k in first_free: first_free[k] = pos + 1  # includes '*'
                     else:
@@ -1384,7 +1384,7 @@ class Circuit(object):
 
                 #update first_free
                 if adjacent_only:  # all labels/components following this one must at least be at 'pos'
-                    for k in first_free: first_free[k] = pos
+                    for k in first_free: first_free[k] = max(first_free[k], pos)
                 if lbl.sslbls is None:
                     for k in first_free: first_free[k] = pos + 1  # includes '*'
                 else:
-- 
2.43.0


From b8edf56c14960befe2558195a5585d01ce61cb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:56 +0000
Subject: [PATCH 16/88] fix: sub-circuits are expanded, factorized, serialized
 and counted completely

---
 pygsti/objects/circuit.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 81879b4..9ae5b21 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -1303,7 +1303,7 @@ class Circuit(object):
         Circuit
         """
         serial_lbls = []
-        for lbl in self.layertup:
+        for lbl in _itertools.chain(*[x.expand_subcircuits() for x in self.layertup]):
             if len(lbl.components) == 0:  # special case of an empty-layer label,
                 serial_lbls.append(lbl)  # which we serialize as an atomic object
             for c in lbl.components:
@@ -1343,7 +1343,7 @@ class Circuit(object):
         """
         parallel_lbls = []
         first_free = {'*': 0}
-        for lbl in self.layertup:
+        for lbl in _itertools.chain(*[x.expand_subcircuits() for x in self.layertup]):
             if can_break_labels:  # then process label components individually
                 for c in lbl.components:
                     if c.sslbls is None:  # ~= acts on *all* sslbls
@@ -1420,7 +1420,7 @@ class Circuit(object):
                 self.insert_idling_layers(i + 1, layers_to_add)
             for subc in circuits_to_expand:
                 self.clear_labels(slice(i, i + subc.depth()), subc.sslbls)  # remove the CircuitLabel
-                self.set_labels(subc.components * subc.reps, slice(i, i + subc.depth()),
+                self.set_labels(subc.expand_subcircuits(), slice(i, i + subc.depth()),
                                 subc.sslbls)  # dump in the contents
 
     def factorize_repetitions(self):
@@ -1452,7 +1452,7 @@ class Circuit(object):
             #Construct a sub-circuit label that repeats layer[iStart] nreps times
             # and stick it at layer iStart
             #print("Constructing %d reps at %d" % (nreps, iStart))
-            repCircuit = _CircuitLabel('', self._labels[iStart], None, nreps)
+            repCircuit = _CircuitLabel('', (_Label(self._labels[iStart]),), None, nreps)
             self.clear_labels(iStart, None)  # remove existing labels (unnecessary?)
             self.set_labels(repCircuit, iStart, None)
             iLayersToRemove.extend(list(range(iStart + 1, iEnd)))
@@ -2473,13 +2473,17 @@ class Circuit(object):
         #TODO HERE -update from here down b/c of sub-circuit blocks
         if self._static:
             def size(lbl):  # obj a Label, perhaps compound
-                if lbl.issimple():  # a simple label
+                if isinstance(lbl, _CircuitLabel):  # count every repetition of the sub-circuit
+                    return lbl.reps * sum([size(sublbl) for sublbl in lbl.components])
+                elif lbl.issimple():  # a simple label
                     return len(lbl.sslbls) if (lbl.sslbls is not None) else len(self.line_labels)
                 else:
                     return sum([size(sublbl) for sublbl in lbl.components])
         else:
             def size(obj):  # obj is either a simple label or a list
-                if isinstance(obj, _Label):  # all Labels are simple labels
+                if isinstance(obj, _CircuitLabel) or (isinstance(obj, _Label) and not obj.issimple()):
+                    return obj.reps * sum([size(sub) for sub in obj.components])
+                elif isinstance(obj, _Label):  # a simple label
                     return len(obj.sslbls) if (obj.sslbls is not None) else len(self.line_labels)
                 else:
                     return sum([size(sub) for sub in obj])
@@ -2517,13 +2521,17 @@ class Circuit(object):
         """
         if self._static:
             def cnt(lbl):  # obj a Label, perhaps compound
-                if lbl.issimple():  # a simple label
+                if isinstance(lbl, _CircuitLabel):  # count every repetition of the sub-circuit
+                    return lbl.reps * sum([cnt(sublbl) for sublbl in lbl.components])
+                elif lbl.issimple():  # a simple label
                     return 1 if (lbl.sslbls is not None) and (len(lbl.sslbls) == nQ) else 0
                 else:
                     return sum([cnt(sublbl) for sublbl in lbl.components])
         else:
             def cnt(obj):  # obj is either a simple label or a list
-                if isinstance(obj, _Label):  # all Labels are simple labels
+                if isinstance(obj, _CircuitLabel) or (isinstance(obj, _Label) and not obj.issimple()):
+                    return obj.reps * sum([cnt(sub) for sub in obj.components])
+                elif isinstance(obj, _Label):  # a simple label
                     return 1 if (obj.sslbls is not None) and (len(obj.sslbls) == nQ) else 0
                 else:
                     return sum([cnt(sub) for sub in obj])
@@ -2543,13 +2551,17 @@ class Circuit(object):
         """
         if self._static:
             def cnt(lbl):  # obj a Label, perhaps compound
-                if lbl.issimple():  # a simple label
+                if isinstance(lbl, _CircuitLabel):  # count every repetition of the sub-circuit
+                    return lbl.reps * sum([cnt(sublbl) for sublbl in lbl.components])
+                elif lbl.issimple():  # a simple label
                     return 1 if (lbl.sslbls is not None) and (len(lbl.sslbls) >= 2) else 0
                 else:
                     return sum([cnt(sublbl) for sublbl in lbl.components])
         else:
             def cnt(obj):  # obj is either a simple label or a list
-                if isinstance(obj, _Label):  # all Labels are simple labels
+                if isinstance(obj, _CircuitLabel) or (isinstance(obj, _Label) and not obj.issimple()):
+                    return obj.reps * sum([cnt(sub) for sub in obj.components])
+                elif isinstance(obj, _Label):  # a simple label
                     return 1 if (obj.sslbls is not None) and (len(obj.sslbls) >= 2) else 0
                 else:
                     return sum([cnt(sub) for sub in obj])
-- 
2.43.0


From 33463aaa79132850abef7fb86ce720a9ace89f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:56 +0000
Subject: [PATCH 17/88] fix: one-qubit gate combination keeps arguments and
 does not move gates past global ones

---
 pygsti/objects/circuit.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 9ae5b21..175a1ce 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -2174,18 +2174,20 @@ class Circuit(object):
                         if isinstance(lblB, _Label) and lblB.sslbls == lblA.sslbls:
                             #queue an apply rule if one exists
                             #print("CHECK for: ", (lblA.name,lblB.name))
-                            if (lblA.name, lblB.name) in oneQgate_relations:
+                            if (lblA.name, lblB.name) in oneQgate_relations \
+                               and not (lblA.args or lblB.args):  # relations only hold for gates without arguments
                                 new_Aname = oneQgate_relations[lblA.name, lblB.name]
-                                applies.append((a, b, new_Aname, lblA.sslbls))
+                                new_A = None if new_Aname is None else _Label(new_Aname, lblA.sslbls, lblA.time)
+                                applies.append((a, b, new_A))
                                 break
 
                 layerA_sslbls = _sslbls_of_nested_lists_of_simple_labels(self._labels[ilayer])
                 for b, lblB in enumerate(layerB_comps):
                     if isinstance(lblB, _Label):
                         #see if layerA happens to *not* have anything on lblB.sslbls:
-                        if layerA_sslbls is None or \
-                           (lblB.sslbls is not None and len(set(lblB.sslbls).intersection(layerA_sslbls)) == 0):
-                            applies.append((-1, b, lblB.name, lblB.sslbls))  # shift label over
+                        if layerA_sslbls is not None and lblB.sslbls is not None \
+                           and len(set(lblB.sslbls).intersection(layerA_sslbls)) == 0:
+                            applies.append((-1, b, lblB))  # shift label over
                             break
 
                 if len(applies) > 0:
@@ -2195,13 +2197,13 @@ class Circuit(object):
                 #execute queued applies (outside of above loops)
                 sorted_applies = sorted(applies, key=lambda x: -x[1])  # sort in order of descending 'b' for removes
                 ilayer_inds_to_remove = []
-                for a, b, new_Aname, sslbls in sorted_applies:
-                    if a == -1:  # Note: new_Aname cannot be None here
-                        self._append_layer_component(ilayer, _Label(new_Aname, sslbls))
-                    elif new_Aname is None:
+                for a, b, new_A in sorted_applies:
+                    if a == -1:  # Note: new_A cannot be None here
+                        self._append_layer_component(ilayer, new_A)
+                    elif new_A is None:
                         ilayer_inds_to_remove.append(a)  # remove layer component - but wait to do so in order
                     else:
-                        self._replace_layer_component(ilayer, a, _Label(new_Aname, sslbls))
+                        self._replace_layer_component(ilayer, a, new_A)
                     self._remove_layer_component(ilayer + 1, b)
 
                 for a in sorted(ilayer_inds_to_remove, reverse=True):
-- 
2.43.0


From d9f837854b650c4c13af0af0e16eef4c1df67fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:05 +0000
Subject: [PATCH 18/88] fix: OpenQASM export of gates on all lines; Quil gate
 declarations work with current numpy

---
 pygsti/objects/circuit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 175a1ce..be01eb0 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -74,7 +74,7 @@ def _np_to_quil_def_str(name, input_array):
 def _num_to_rqc_str(num):
     """Convert float to string to be included in RQC quil DEFGATE block
     (as written by _np_to_quil_def_str)."""
-    num = _np.complex(_np.real_if_close(num))
+    num = complex(_np.real_if_close(num))
     if _np.imag(num) == 0:
         output = str(_np.real(num))
         return output
@@ -3043,8 +3043,8 @@ class Circuit(object):
                     #If gate.qubits is None, gate is assumed to be single-qubit gate
                     #acting in parallel on all qubits.
                     if gate.qubits is None:
-                        for q in gate_qubits:
-                            openqasm += openqasm_for_gate + ' q[' + str(qubit_conversion[q]) + '];\n'
+                        openqasm_for_gate = ''.join([openqasm_for_gate + ' q[' + str(qubit_conversion[q]) + '];\n'
+                                                     for q in gate_qubits])
                     else:
                         for q in gate_qubits:
                             openqasm_for_gate += ' q[' + str(qubit_conversion[q]) + ']'
-- 
2.43.0


From 76f83c0eece745a4d49393386be55f076e700dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:20:16 +0000
Subject: [PATCH 19/88] fix: slow circuit parser reads line labels like 1_0 as
 names, as the fast one does

---
 pygsti/io/circuitparser/slowcircuitparser.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pygsti/io/circuitparser/slowcircuitparser.py b/pygsti/io/circuitparser/slowcircuitparser.py
index f914751..ddf33f2 100644
--- a/pygsti/io/circuitparser/slowcircuitparser.py
+++ b/pygsti/io/circuitparser/slowcircuitparser.py
@@ -134,11 +134,8 @@ def _get_next_simple_lbl(s, start, end, integerize_sslbls, segment):
             else:
                 break
         if integerize_sslbls:
-            try:
-                val = int(s[last:i])
-            except:
-                val = s[last:i]
-            sslbls.append(val); last = i
+            val = s[last:i]
+            sslbls.append(int(val) if val.isdigit() else val); last = i
         else:
             sslbls.append(s[last:i]); last = i
 
-- 
2.43.0


From 0fac70d2fc67a66146f817775d75effeaba2e1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:20:16 +0000
Subject: [PATCH 20/88] fix: sub-circuits with timed gates print as parsable
 text

---
 pygsti/objects/label.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pygsti/objects/label.py b/pygsti/objects/label.py
index f311017..3019666 100644
--- a/pygsti/objects/label.py
+++ b/pygsti/objects/label.py
@@ -865,9 +865,8 @@ class CircuitLabel(Label, tuple):
             if self.time != 0.0:
                 s += ("!%f" % self.time).rstrip('0').rstrip('.')
         else:
+            # Note: the time of an unnamed sub-circuit is that of its components, which print their own times
             s = "".join([str(lbl) for lbl in self.components])
-            if self.time != 0.0:
-                s += ("!%f" % self.time).rstrip('0').rstrip('.')
             if len(self.components) > 1:
                 s = "(" + s + ")"  # add parenthesis
         if self[2] != 1: s += "^%d" % self[2]
-- 
2.43.0


From e136ceda4bfbbbc902ff7266484d189c99ded1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:20:16 +0000
Subject: [PATCH 21/88] fix: editable circuits expand sub-circuits when asked
 to

---
 pygsti/objects/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index be01eb0..045e41f 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -352,7 +352,7 @@ class Circuit(object):
             self._labels = layer_labels_objs
         else:
             self._labels = [_label_to_nested_lists_of_simple_labels(layer_lbl)
-                            for layer_lbl in layer_labels]
+                            for layer_lbl in (layer_labels_objs if expand_subcircuits else layer_labels)]
 
         #Set self._static, _reps, _name
         self._static = not editable
-- 
2.43.0


From bf3eb7593f82eb886284157d4596d2b4339e064e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:00 +0000
Subject: [PATCH 22/88] fix: time series of a row count every outcome at a
 time; fractions count all times

---
 pygsti/objects/dataset.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index dfa331a..3d17c35 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -483,7 +483,7 @@ class DataSetRow(object):
         repetitions of each outcome label in the `outcomes` list, or
         equivalently, each outcome label index in this rows `.oli` member.
         """
-        cnts = self._get_counts(all_outcomes)
+        cnts = self._get_counts(all_outcomes=all_outcomes)
         total = sum(cnts.values())
         return _OrderedDict([(k, cnt / total) for k, cnt in cnts.items()])
 
@@ -548,8 +548,11 @@ class DataSetRow(object):
                     counts.append(0)
                     tsIndx += 1
 
-            if oli in olis and (timestamps is None or _np.isclose(t, timestamps[tsIndx], rtol=0., atol=1e-12)):
-                if not _np.isclose(t, last_t, rtol=0., atol=1e-12):
+            same_t = _np.isclose(t, last_t, rtol=0., atol=1e-12)  # another outcome at the last-added time
+            if oli in olis and (timestamps is None or same_t
+                                or (tsIndx < len(timestamps)
+                                    and _np.isclose(t, timestamps[tsIndx], rtol=0., atol=1e-12))):
+                if not same_t:
                     times.append(t); tsIndx += 1
                     counts.append(0)
                     last_t = t
-- 
2.43.0


From f6783db9433e11b45d216cb78210a570320ea4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:40 +0000
Subject: [PATCH 23/88] fix: data set outcome renaming, copying, removal,
 loading, occurrence access and merging of special rows

---
 pygsti/objects/dataset.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index 3d17c35..2bbc64b 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -812,7 +812,7 @@ class DataSet(object):
             if len(self.cirIndex) > 0:
                 maxOlIndex = self.olIndex_max
                 if bStatic:
-                    assert(max([_np.amax(self.oliData[i]) if (len(self.oliData[i]) > 0) else 0
+                    assert(max([_np.amax(self.oliData[i]) if (len(self.oliData[i]) > 0) else -1
                                 for i in self.cirIndex.values()]) <= maxOlIndex)
                     # self.oliData.shape[0] > maxIndex doesn't make sense since cirIndex holds slices
                 else:
@@ -940,7 +940,7 @@ class DataSet(object):
             circuit = _cir.Circuit.fromtup(circuit)
 
         if occurrence > 0:
-            circuit = circuit + _cir.Circuit(("#%d" % occurrence,))
+            circuit = circuit + _cir.Circuit(("#%d" % occurrence,), line_labels=circuit.line_labels)
 
         #Note: cirIndex value is either an int (non-static) or a slice (static)
         repData = self.repData[self.cirIndex[circuit]] \
@@ -972,7 +972,7 @@ class DataSet(object):
             circuit = _cir.Circuit(circuit)
 
         if occurrence > 0:
-            circuit = _cir.Circuit(circuit) + _cir.Circuit(("#%d" % occurrence,))
+            circuit = circuit + _cir.Circuit(("#%d" % occurrence,), line_labels=circuit.line_labels)
 
         if isinstance(outcomeDictOrSeries, dict):  # a dict of counts
             self.add_count_dict(circuit, outcomeDictOrSeries)
@@ -1310,10 +1310,11 @@ class DataSet(object):
         if not recordZeroCnts:
             # Go through repArray and remove any zeros, along with
             # corresponding elements of oliArray and timeArray
-            mask = repArray != 0  # boolean array (note: == float comparison *is* desired)
-            repArray = repArray[mask]
-            oliArray = oliArray[mask]
-            timeArray = timeArray[mask]
+            if repArray is not None:  # otherwise there are no zeros to remove
+                mask = repArray != 0  # boolean array (note: == float comparison *is* desired)
+                repArray = repArray[mask]
+                oliArray = oliArray[mask]
+                timeArray = timeArray[mask]
 
         if circuit in self.cirIndex:
             circuitIndx = self.cirIndex[circuit]
@@ -1498,7 +1499,7 @@ class DataSet(object):
         circuitIndices = _OrderedDict()
         for key, dsrow in self.items():
 
-            last_t = dsrow.time[0]
+            last_t = dsrow.time[0] if len(dsrow.time) > 0 else None
 
             #Below code is faster version of: mapped_oli = [oli_map[x] for x in dsrow.oli]
             mapped_oli = dsrow.oli.copy()
@@ -1940,7 +1941,7 @@ class DataSet(object):
         # these are just lists.  Hard part is adjusting cirIndex values: we
         # need to subtract k from index n, where k is the number of indices
         # in `gstr_indices` less than n.
-        inds = sorted(list(gstr_indices))
+        inds = sorted(set(gstr_indices))  # (set => no double-deletion of repeated indices)
 
         #remove indices from lists (high->low)
         for i in reversed(inds):
@@ -1968,7 +1969,7 @@ class DataSet(object):
         if self.bStatic:
             return self  # doesn't need to be copied since data can't change
         else:
-            copyOfMe = DataSet(outcomeLabels=self.get_outcome_labels(),
+            copyOfMe = DataSet(outcomeLabelIndices=self.olIndex.copy(),
                                collisionAction=self.collisionAction)
             copyOfMe.cirIndex = _copy.deepcopy(self.cirIndex)
             copyOfMe.oliData = [el.copy() for el in self.oliData]
@@ -1987,7 +1988,7 @@ class DataSet(object):
     def copy_nonstatic(self):
         """ Make a non-static copy of this DataSet. """
         if self.bStatic:
-            copyOfMe = DataSet(outcomeLabels=self.get_outcome_labels(),
+            copyOfMe = DataSet(outcomeLabelIndices=self.olIndex.copy(),
                                collisionAction=self.collisionAction)
             copyOfMe.cirIndex = _OrderedDict([(opstr, i) for i, opstr in enumerate(self.cirIndex.keys())])
             copyOfMe.oliData = []
@@ -2261,6 +2262,8 @@ class DataSet(object):
             self.timeData = _np.lib.format.read_array(f)  # _np.load(f) doesn't play nice with gzip
             if useReps:
                 self.repData = _np.lib.format.read_array(f)  # _np.load(f) doesn't play nice with gzip
+            else:
+                self.repData = None
             self.cnt_cache = {opstr: _ld.OutcomeLabelDict() for opstr in self.cirIndex}  # init cnt_cache afresh
         else:
             self.oliData = []
@@ -2312,3 +2315,5 @@ class DataSet(object):
         #Note: rebuild reverse-dict self.ol:
         self.olIndex = new_olIndex
         self.ol = _OrderedDict([(i, ol) for (ol, i) in self.olIndex.items()])
+        if self.bStatic:  # cached counts refer to the old labels
+            self.cnt_cache = {opstr: _ld.OutcomeLabelDict() for opstr in self.cirIndex}
-- 
2.43.0


From 6d998042872fbf2f3ae082e87693cd655802d5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 24/88] fix: multi data sets with partial repetition counts or
 unit counts; filter_circuit can rename lines; merges may name unused outcomes

---
 pygsti/construction/circuitconstruction.py |  6 ++----
 pygsti/objects/dataset.py                  |  3 ++-
 pygsti/objects/multidataset.py             | 12 ++++++------
 3 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/pygsti/construction/circuitconstruction.py b/pygsti/construction/circuitconstruction.py
index 2b1aa2d..a93c44e 100644
--- a/pygsti/construction/circuitconstruction.py
+++ b/pygsti/construction/circuitconstruction.py
@@ -859,9 +859,7 @@ def filter_circuit(circuit, sslbls_to_keep, new_sslbls=None, idle=()):
                or set(sublbl.sslbls).issubset(sslbls_to_keep):  # then keep this comp
 
                 if sslbl_map:  # update state space labels
-                    new_sslbls = None if (sublbl.sslbls is None) else \
-                        tuple((sslbl_map[x] for x in sublbl.sslbls))
-                    sublbls.append(_Lbl(sublbl.name, new_sslbls))
+                    sublbls.append(sublbl if (sublbl.sslbls is None) else sublbl.map_state_space_labels(sslbl_map))
                 else:  # leave labels as-is
                     sublbls.append(sublbl)
 
@@ -885,4 +883,4 @@ def filter_circuit(circuit, sslbls_to_keep, new_sslbls=None, idle=()):
             # is just an idle: add idle placeholder.
             if idle is not None: lbls.append(_Lbl(idle))
 
-    return _cir.Circuit(lbls, line_labels=sslbls_to_keep)
+    return _cir.Circuit(lbls, line_labels=sslbls_to_keep if (new_sslbls is None) else new_sslbls)
diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index 2bbc64b..2d9e132 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -1466,7 +1466,8 @@ class DataSet(object):
         for new_outcome, old_outcome_list in label_merge_dict.items():
             new_index = new_outcome_indices[new_outcome]
             for old_outcome in old_outcome_list:
-                oli_map[self.olIndex[old_outcome]] = new_index
+                if old_outcome in self.olIndex:  # label_merge_dict may mention outcomes without any data
+                    oli_map[self.olIndex[old_outcome]] = new_index
 
         #Future - when recordZeroCnts=False these may not need to be so large
         new_olis = _np.array(range(nNewOutcomes), _np.int64)
diff --git a/pygsti/objects/multidataset.py b/pygsti/objects/multidataset.py
index c6744fe..21f018c 100644
--- a/pygsti/objects/multidataset.py
+++ b/pygsti/objects/multidataset.py
@@ -330,7 +330,7 @@ class MultiDataSet(object):
             # Merge same-timestamp, same-outcome data
             sortedInds = [i for i, el in sorted(enumerate(concat_time), key=lambda x:x[1])]
             sorted_oli = []; sorted_time = []; sorted_rep = []
-            last_time = concat_time[sortedInds[0]]; cur_reps = {}
+            last_time = concat_time[sortedInds[0]] if len(sortedInds) > 0 else None; cur_reps = {}
             for i in sortedInds:
                 if concat_time[i] != last_time:
                     # dump cur_reps at last_time and reset
@@ -363,7 +363,7 @@ class MultiDataSet(object):
         agg_oli = _np.array(agg_oli, self.oliType)
         agg_time = _np.array(agg_time, self.timeType)
         agg_rep = _np.array(agg_rep, self.repType)
-        if _np.max(agg_rep) == 1: agg_rep = None  # don't store trivial reps
+        if _np.all(agg_rep == 1): agg_rep = None  # don't store trivial reps
 
         ds = _DataSet(agg_oli, agg_time, agg_rep,
                       circuitIndices=gstrSlices,
@@ -444,11 +444,11 @@ class MultiDataSet(object):
             self.timeDict[datasetName] = dataset.timeData
             if dataset.repData is not None:
                 if self.repDict is None:  # then build self.repDict
-                    firstKey = list(self.oliDict.keys())[0]
-                    dataLen = len(self.oliDict[firstKey])  # current length of self's data arrays
                     self.repDict = _OrderedDict(
-                        [(nm, _np.ones(dataLen, self.repType)) for nm in self])
+                        [(nm, _np.ones(len(self.oliDict[nm]), self.repType)) for nm in self])
                 self.repDict[datasetName] = dataset.repData
+            elif self.repDict is not None:  # existing data has repetition counts, so new data needs them too
+                self.repDict[datasetName] = _np.ones(len(ds_oliData), self.repType)
 
         else:
             # Merge data due to differences in self.cirIndex and dataset.cirIndex, which can
@@ -459,7 +459,7 @@ class MultiDataSet(object):
             #We'll need 0-rep elements to reconcile, so can't have repDict == None
             if self.repDict is None:  # then create self.repDict
                 self.repDict = _OrderedDict(
-                    [(nm, _np.ones(dataLen, self.repType)) for nm in self])
+                    [(nm, _np.ones(len(self.oliDict[nm]), self.repType)) for nm in self])
 
             ds_timeData = dataset.timeData
             ds_repData = dataset.repData if (dataset.repData is not None) \
-- 
2.43.0


From fda9231d32026b990e4d1ba71c203c7de9ec5df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 25/88] fix: polynomials merge equal terms when constructed or
 re-indexed; powers of zero, degrees, high-degree terms work

---
 pygsti/objects/polynomial.py         | 28 +++++++++++------
 pygsti/objects/replib/fastreplib.pyx | 45 +++++++++-------------------
 pygsti/objects/replib/fastreps.cpp   |  5 ++--
 pygsti/objects/replib/slowreplib.py  | 15 +++++-----
 4 files changed, 44 insertions(+), 49 deletions(-)

diff --git a/pygsti/objects/polynomial.py b/pygsti/objects/polynomial.py
index 1d9b428..91f9bf4 100644
--- a/pygsti/objects/polynomial.py
+++ b/pygsti/objects/polynomial.py
@@ -32,6 +32,15 @@ def _vinds_to_int(vinds, vindices_per_int, max_num_vars):
     return tuple(ret_tup)
 
 
+def _collect_terms(items):
+    """ Sum the coefficients of (variable-index-tuple, coefficient) pairs that stand for the same term. """
+    terms = {}
+    for vinds, coeff in items:
+        key = tuple(sorted(vinds))
+        terms[key] = terms[key] + coeff if key in terms else coeff
+    return terms
+
+
 class FASTPolynomial(object):
     """
     Encapsulates a polynomial as a subclass of the standard Python dict.
@@ -53,10 +62,10 @@ class FASTPolynomial(object):
         This quantity is needed to directly construct Polynomial representations
         and is thus useful internally for forward simulators.
         """
-        # (max_num_vars+1) ** vindices_per_int <= 2**PLATFORM_BITS, so:
-        # vindices_per_int * log2(max_num_vars+1) <= PLATFORM_BITS
-        # vindices_per_int = int(_np.floor(PLATFORM_BITS / _np.log2(max_num_vars + 1)))
-        return int(_np.floor(PLATFORM_BITS / _np.log2(max_num_vars + 1)))
+        # The (signed) integers must hold (max_num_vars+1) ** vindices_per_int - 1, so:
+        # (max_num_vars+1) ** vindices_per_int <= 2**(PLATFORM_BITS-1), i.e.
+        # vindices_per_int * log2(max_num_vars+1) <= PLATFORM_BITS-1
+        return int(_np.floor((PLATFORM_BITS - 1) / _np.log2(max_num_vars + 1)))
 
     @classmethod
     def fromrep(cls, rep):
@@ -115,7 +124,8 @@ class FASTPolynomial(object):
         """
         vindices_per_int = FASTPolynomial.get_vindices_per_int(max_num_vars)
 
-        int_coeffs = {_vinds_to_int(k, vindices_per_int, max_num_vars): v for k, v in coeffs.items()}
+        int_coeffs = {_vinds_to_int(k, vindices_per_int, max_num_vars): v
+                      for k, v in _collect_terms(() if coeffs is None else coeffs.items()).items()}
         self._rep = replib.PolyRep(int_coeffs, max_num_vars, vindices_per_int)
 
     @property
@@ -175,7 +185,7 @@ class FASTPolynomial(object):
         Return the largest sum-of-exponents for any term (monomial) within this
         polynomial. E.g. for x_2^3 + x_1^2*x_0^2 has degree 4.
         """
-        return 0 if len(self) == 0 else max([len(k) for k in self.coeffs.keys()])
+        return max([len(k) for k in self.coeffs.keys()], default=0)
 
     def evaluate(self, variable_values):
         """
@@ -248,7 +258,7 @@ class FASTPolynomial(object):
         -------
         Polynomial
         """
-        return FASTPolynomial({mapfn(k): v for k, v in self.coeffs.items()}, self.max_num_vars)
+        return FASTPolynomial(_collect_terms((mapfn(k), v) for k, v in self.coeffs.items()), self.max_num_vars)
 
     def map_indices_inplace(self, mapfn):
         """
@@ -269,7 +279,7 @@ class FASTPolynomial(object):
         -------
         None
         """
-        new_coeffs = {mapfn(k): v for k, v in self.coeffs.items()}
+        new_coeffs = _collect_terms((mapfn(k), v) for k, v in self.coeffs.items())
         new_int_coeffs = {_vinds_to_int(k, self._rep.vindices_per_int, self._rep.max_num_vars): v
                           for k, v in new_coeffs.items()}
         self._rep.reinit(new_int_coeffs)
@@ -410,7 +420,7 @@ class FASTPolynomial(object):
     def __pow__(self, n):
         ret = FASTPolynomial({(): 1.0}, self.max_num_vars)  # max_order updated by mults below
         cur = self
-        for i in range(int(_np.floor(_np.log2(n))) + 1):
+        while n > 0:
             rem = n % 2  # gets least significant bit (i-th) of n
             if rem == 1: ret *= cur  # add current power of x (2^i) if needed
             cur = cur * cur  # current power *= 2
diff --git a/pygsti/objects/replib/fastreplib.pyx b/pygsti/objects/replib/fastreplib.pyx
index 58215be..7803a3a 100644
--- a/pygsti/objects/replib/fastreplib.pyx
+++ b/pygsti/objects/replib/fastreplib.pyx
@@ -310,6 +310,7 @@ cdef extern from "fastreps.h" namespace "CReps":
         void add_scalar_to_all_coeffs_inplace(double complex offset)
         void scale(double complex scale)
         vector[INT] int_to_vinds(PolyVarsIndex indx_tup)
+        PolyVarsIndex vinds_to_int(vector[INT] vinds)
         unordered_map[PolyVarsIndex, complex] _coeffs
         INT _max_num_vars
         INT _vindices_per_int
@@ -1352,42 +1353,24 @@ cdef class PolyRep:
 
     def mapvec_indices_inplace(self, np.ndarray[np.int64_t, ndim=1, mode='c'] mapfn_as_vector):
         cdef INT* mapfv = <INT*> mapfn_as_vector.data
-        cdef INT indx, nxt, i, m, k, new_i, new_indx;
-        cdef INT divisor = self.c_poly._max_num_vars + 1
-
-        #REMOVE print "MAPPING divisor=", divisor
+        cdef size_t k
+        cdef vector[INT] vinds
         cdef PolyVarsIndex new_PolyVarsIndex
         cdef unordered_map[PolyVarsIndex, complex] new_coeffs
-        cdef vector[INT].iterator vit
         cdef unordered_map[PolyVarsIndex, complex].iterator it = self.c_poly._coeffs.begin()
 
         while(it != self.c_poly._coeffs.end()): # for each coefficient
-            i_vec = deref(it).first._parts  # the vector[INT] beneath this PolyVarsIndex
-            new_PolyVarsIndex = PolyVarsIndex(i_vec.size())
-            #REMOVE print " ivec =", i_vec
-
-            #map i_vec -> new_PolyVarsIndex
-            vit = i_vec.begin(); k = 0
-            while(vit != i_vec.end()):
-                indx = deref(vit)
-                new_indx = 0; m=1
-                #REMOVE print "begin indx ",indx
-                while indx != 0:
-                    nxt = indx / divisor
-                    i = indx - nxt * divisor
-                    indx = nxt
-                    #REMOVE print indx, " -> nxt=", nxt, " i=",i
-
-                    # i-1 is variable index (the thing we map)
-                    new_i = mapfv[i-1]+1
-                    new_indx += new_i * m
-                    #REMOVE print "   new_i=",new_i," m=",m," => new_indx=",new_indx
-                    m *= divisor
-                #REMOVE print "Setting new ivec[",k,"] = ",new_indx
-                new_PolyVarsIndex._parts[k] = new_indx
-                inc(vit); k += 1
-            #REMOVE print " new_ivec =", new_PolyVarsIndex._parts
-            new_coeffs[new_PolyVarsIndex] = deref(it).second
+            vinds = self.c_poly.int_to_vinds( deref(it).first )
+            for k in range(vinds.size()):
+                vinds[k] = mapfv[vinds[k]]
+            stdsort(vinds.begin(), vinds.end()) # keys hold *sorted* variable indices
+            new_PolyVarsIndex = self.c_poly.vinds_to_int(vinds)
+
+            # different terms may be mapped to the same one
+            if new_coeffs.count(new_PolyVarsIndex):
+                new_coeffs[new_PolyVarsIndex] = new_coeffs[new_PolyVarsIndex] + deref(it).second
+            else:
+                new_coeffs[new_PolyVarsIndex] = deref(it).second
             inc(it)
 
         self.c_poly._coeffs.swap(new_coeffs)
diff --git a/pygsti/objects/replib/fastreps.cpp b/pygsti/objects/replib/fastreps.cpp
index d77b213..4088f26 100644
--- a/pygsti/objects/replib/fastreps.cpp
+++ b/pygsti/objects/replib/fastreps.cpp
@@ -2638,6 +2638,7 @@ namespace CReps {
   PolyCRep::PolyCRep(const PolyCRep& other) {
     _coeffs = other._coeffs;
     _max_num_vars = other._max_num_vars;
+    _vindices_per_int = other._vindices_per_int;
   }
 
   PolyCRep::~PolyCRep() { }
@@ -2782,8 +2783,8 @@ namespace CReps {
   std::vector<INT> PolyCRep::int_to_vinds(PolyVarsIndex indx_tup) {
     std::vector<INT> ret;
     INT nxt, i, indx;
-    for(std::size_t i=0; i < indx_tup._parts.size(); i++) {
-      indx = indx_tup._parts[i];
+    for(std::size_t k=0; k < indx_tup._parts.size(); k++) {
+      indx = indx_tup._parts[k];
       while(indx != 0) {
         nxt = indx / (_max_num_vars+1);
 	i = indx - nxt*(_max_num_vars+1);
diff --git a/pygsti/objects/replib/slowreplib.py b/pygsti/objects/replib/slowreplib.py
index f2b2f0a..8491ad8 100644
--- a/pygsti/objects/replib/slowreplib.py
+++ b/pygsti/objects/replib/slowreplib.py
@@ -1134,8 +1134,9 @@ class PolyRep(dict):
     def mapvec_indices_inplace(self, mapfn_as_vector):
         new_items = {}
         for k, v in self.items():
-            new_vinds = tuple((mapfn_as_vector[j] for j in self._int_to_vinds(k)))
-            new_items[self._vinds_to_int(new_vinds)] = v
+            new_vinds = tuple(sorted([mapfn_as_vector[j] for j in self._int_to_vinds(k)]))
+            new_k = self._vinds_to_int(new_vinds)
+            new_items[new_k] = new_items[new_k] + v if new_k in new_items else v
         self.clear()
         self.update(new_items)
 
@@ -1324,8 +1325,8 @@ class PolyRep(dict):
         """
         Returns a real representation of this polynomial as a
         `(variable_tape, coefficient_tape)` 2-tuple of 1D nupy arrays.
-        The coefficient tape is *always* a complex array, even if
-        none of the polynomial's coefficients are complex.
+        The coefficient tape is *always* a real array: imaginary parts
+        of the polynomial's coefficients are dropped.
 
         Such compact representations are useful for storage and later
         evaluation, but not suited to polynomial manipulation.
@@ -1341,14 +1342,14 @@ class PolyRep(dict):
         vinds = {i: self._int_to_vinds(i) for i in self.keys()}
         nVarIndices = sum(map(len, vinds.values()))
         vtape = _np.empty(1 + nTerms + nVarIndices, _np.int64)  # "variable" tape
-        ctape = _np.empty(nTerms, complex)  # "coefficient tape"
+        ctape = _np.empty(nTerms, 'd')  # "coefficient tape"
 
         i = 0
         vtape[i] = nTerms; i += 1
         for iTerm, k in enumerate(sorted(self.keys())):
             v = vinds[k]  # so don't need to compute self._int_to_vinds(k)
             l = len(v)
-            ctape[iTerm] = self[k]
+            ctape[iTerm] = _np.real(self[k])
             vtape[i] = l; i += 1
             vtape[i:i + l] = v; i += l
         assert(i == len(vtape)), "Logic Error!"
@@ -1477,7 +1478,7 @@ class PolyRep(dict):
 
     def degree(self):
         """ Used for debugging in slowreplib routines only"""
-        return max([len(self._int_to_vinds(k)) for k in self.keys()])
+        return max([len(self._int_to_vinds(k)) for k in self.keys()], default=0)
 
     #UNUSED TODO REMOVE
     #def __add__(self, x):
-- 
2.43.0


From 9877ed26760db0bd6b38fc4d825eb09a46e3b922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:09 +0000
Subject: [PATCH 26/88] fix: derivatives of chi-squared, Poisson likelihood,
 penalty and forcing terms match their values

---
 pygsti/objects/objectivefns.py | 21 +++++++++++++--------
 pygsti/tools/chi2fns.py        | 17 +++++++++++------
 pygsti/tools/likelihoodfns.py  |  4 +++-
 3 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/pygsti/objects/objectivefns.py b/pygsti/objects/objectivefns.py
index 054c3e8..a5bdf0c 100644
--- a/pygsti/objects/objectivefns.py
+++ b/pygsti/objects/objectivefns.py
@@ -155,7 +155,7 @@ class Chi2Function(ObjectiveFunction):
                                           2 * self.N[self.firsts] * omitted_probs / clipped_oprobs)
         fullv = _np.sqrt(v[self.firsts]**2 + self.N[self.firsts] * omitted_probs**2 / clipped_oprobs)
         # avoid NaNs when both fullv and v[firsts] are zero - result should be *zero* in this case
-        fullv[v[self.firsts] == 0.0] = 1.0
+        fullv[fullv == 0.0] = 1.0
         dprobs[self.firsts, :] = (0.5 / fullv[:, None]) * (
             2 * v[self.firsts, None] * dprobs[self.firsts, :]
             - dprobs_factor_omitted[:, None] * dprobs_omitted_rowsum)
@@ -422,9 +422,9 @@ class Chi2Function(ObjectiveFunction):
                 off += _cptp_penalty_jac_fill(self.jac[self.KM + off:, :], self.mdl, self.cptp_penalty_factor,
                                               self.opBasis)
 
-                if self.spam_penalty_factor != 0:
-                    off += _spam_penalty_jac_fill(self.jac[self.KM + off:, :], self.mdl, self.spam_penalty_factor,
-                                                  self.opBasis)
+            if self.spam_penalty_factor != 0:
+                off += _spam_penalty_jac_fill(self.jac[self.KM + off:, :], self.mdl, self.spam_penalty_factor,
+                                              self.opBasis)
 
         # Zero-out insignificant entries in jacobian -- seemed to help some, but leaving this out,
         # thinking less complicated == better
@@ -476,10 +476,10 @@ class FreqWeightedChi2Function(Chi2Function):
         self.fweights = fweights
         self.z = _np.zeros(self.KM, 'd')
 
-    def _get_weights(self, p):
+    def get_weights(self, p):
         return self.fweights
 
-    def _get_dweights(self, p, wts):
+    def get_dweights(self, p, wts):
         return self.z
 
 
@@ -924,7 +924,10 @@ class LogLFunction(ObjectiveFunction):
                             1.0, (-1.0 / self.a**2) * omitted_probs**2 + 2 * omitted_probs / self.a)
 
             for ii, i in enumerate(self.indicesOfCircuitsWithOmittedData):
-                self.dprobs_omitted_rowsum[ii, :] = _np.sum(dprobs[self.lookup[i], :], axis=0)
+                # clipped probabilities are constant within omitted_probs
+                self.dprobs_omitted_rowsum[ii, :] = _np.sum(
+                    _np.where((self.probs[self.lookup[i]] < self.min_p)[:, None], 0.0, dprobs[self.lookup[i], :]),
+                    axis=0)
 
         dprobs *= dprobs_factor[:, None]  # (KM,N) * (KM,1)   (N = dim of vectorized model)
         #Note: this also sets jac[0:KM,:]
@@ -944,7 +947,9 @@ class LogLFunction(ObjectiveFunction):
                                           self.opBasis)
 
         if self.forcefn_grad is not None:
-            self.jac[self.forceOffset:, :] = -self.forcefn_grad
+            # derivative of sqrt(forceShift - dot(forcefn_grad, vec)) terms
+            forceVec = self.forceShift - _np.dot(self.forcefn_grad, self.mdl.to_vector())
+            self.jac[self.forceOffset:, :] = (-0.5 / _np.sqrt(forceVec))[:, None] * self.forcefn_grad
 
         if self.check: _opt.check_jac(lambda v: self.poisson_picture_logl(v), vectorGS, self.jac,
                                       tol=1e-3, eps=1e-6, errType='abs')
diff --git a/pygsti/tools/chi2fns.py b/pygsti/tools/chi2fns.py
index 0696007..ed704d9 100644
--- a/pygsti/tools/chi2fns.py
+++ b/pygsti/tools/chi2fns.py
@@ -325,7 +325,7 @@ def chi2(model, dataset, circuits=None,
     if compute_hprobs:
         smart(model.bulk_fill_hprobs, hprobs, evTree,
               probs, dprobs, clipTo, check, comm, _filledarrays=(0, 2, 3))
-    elif returnGradient:
+    elif returnGradient or returnHessian:
         smart(model.bulk_fill_dprobs, dprobs, evTree,
               probs, clipTo, check, comm, _filledarrays=(0, 2))
         for ii, i in enumerate(indicesOfCircuitsWithOmittedData):
@@ -347,15 +347,18 @@ def chi2(model, dataset, circuits=None,
         v[firsts] = v[firsts] + N[firsts] * omitted_probs**2 / clipped_oprobs
 
     chi2 = _np.sum(v, axis=0)  # Note 0 is only axis in this case
+    not_clipped = (cprobs == probs).astype('d')  # where weights are clipped they don't depend on the probability
 
     if returnGradient:
         t = ((probs - f) / cprobs)[:, None]  # (iElement, 0) = (KM,1)
-        dchi2 = N[:, None] * t * (2 - t) * dprobs  # (KM,1) * (KM,1) * (KM,N)  (K=#spam, M=#strings, N=#vec_gs)
+        nc = not_clipped[:, None]
+        dchi2 = N[:, None] * t * (2 - nc * t) * dprobs  # (KM,1) * (KM,1) * (KM,N)  (K=#spam, M=#strings, N=#vec_gs)
 
         #account for omitted probs
         if firsts is not None:
             t_firsts = (omitted_probs / clipped_oprobs)[:, None]
-            dchi2[firsts, :] -= N[firsts, None] * t_firsts * (2 - t_firsts) * dprobs_omitted_rowsum
+            nc_firsts = (omitted_probs == clipped_oprobs).astype('d')[:, None]
+            dchi2[firsts, :] -= N[firsts, None] * t_firsts * (2 - nc_firsts * t_firsts) * dprobs_omitted_rowsum
 
         dchi2 = _np.sum(dchi2, axis=0)  # sum over operation sequences and spam labels => (N)
 
@@ -365,13 +368,15 @@ def chi2(model, dataset, circuits=None,
 
         dprobs_p = dprobs[:, None, :]  # (KM,1,N)
         t = ((probs - f) / cprobs)[:, None, None]  # (iElement, 0,0) = (KM,1,1)
-        dt = ((1.0 / cprobs - (probs - f) / cprobs**2)[:, None]
+        nc = not_clipped[:, None, None]
+        dt = ((1.0 / cprobs - not_clipped * (probs - f) / cprobs**2)[:, None]
               * dprobs)[:, :, None]  # (KM,1) * (KM,N) = (KM,N) => (KM,N,1)
 
         if approximateHessian:  # neglect all hprobs-proportional terms
-            d2chi2 = N[:, None, None] * (dt * (2 - t) * dprobs_p - t * dt * dprobs_p)
+            d2chi2 = N[:, None, None] * (dt * (2 - nc * t) * dprobs_p - nc * t * dt * dprobs_p)
         else:  # we have hprobs and can compute the true Hessian
-            d2chi2 = N[:, None, None] * (dt * (2 - t) * dprobs_p - t * dt * dprobs_p + t * (2 - t) * hprobs)
+            d2chi2 = N[:, None, None] * (dt * (2 - nc * t) * dprobs_p - nc * t * dt * dprobs_p
+                                         + t * (2 - nc * t) * hprobs)
 
         d2chi2 = _np.sum(d2chi2, axis=0)  # sum over operation sequences and spam labels => (N1,N2)
         # (KM,1,1) * ( (KM,N1,1) * (KM,1,1) * (KM,1,N2) + (KM,1,1) * (KM,N1,1) * \
diff --git a/pygsti/tools/likelihoodfns.py b/pygsti/tools/likelihoodfns.py
index 48d11ee..d32a9d2 100644
--- a/pygsti/tools/likelihoodfns.py
+++ b/pygsti/tools/likelihoodfns.py
@@ -514,7 +514,9 @@ def logl_jacobian(model, dataset, circuit_list=None,
                 (-1.0 / a**2) * omitted_probs**2 + 2 * omitted_probs / a)
 
             for ii, i in enumerate(indicesOfCircuitsWithOmittedData):
-                dprobs_omitted_rowsum[ii, :] = _np.sum(dprobs[lookup[i], :], axis=0)
+                # clipped probabilities are constant within omitted_probs
+                dprobs_omitted_rowsum[ii, :] = _np.sum(_np.where((probs[lookup[i]] < min_p)[:, None],
+                                                                 0.0, dprobs[lookup[i], :]), axis=0)
 
         jac = dprobs * dprobs_factor[:, None]  # (KM,N) * (KM,1)   (N = dim of vectorized model)
 
-- 
2.43.0


From 37f4e2d61adda0b53f8de223a7e9aba31ec8b944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:41 +0000
Subject: [PATCH 27/88] fix: hypothesis tests accept passing graphs and the
 rejection of all nested hypotheses

---
 pygsti/objects/hypothesistest.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/hypothesistest.py b/pygsti/objects/hypothesistest.py
index 61fdc71..f5bffba 100644
--- a/pygsti/objects/hypothesistest.py
+++ b/pygsti/objects/hypothesistest.py
@@ -132,6 +132,8 @@ class HypothesisTest(object):
         if isinstance(passing_graph, str):
             assert(passing_graph == 'Holms')
             self._initialize_to_weighted_holms_test()
+        else:
+            self.passing_graph = _np.array(passing_graph, float)
 
         self.local_significance = {}
         if isinstance(weighting, str):
@@ -268,7 +270,8 @@ class HypothesisTest(object):
                                     a = dynamic_passing_graph[lind, kind] + \
                                         dynamic_passing_graph[lind, hind] * dynamic_passing_graph[hind, kind]
                                     b = 1. - dynamic_passing_graph[lind, hind] * dynamic_passing_graph[hind, lind]
-                                    new_passing_passing_graph[lind, kind] = a / b
+                                    # if l and h pass everything to each other (b == 0) then nothing is left to pass on
+                                    new_passing_passing_graph[lind, kind] = a / b if b != 0 else 0.
 
                         del dynamic_local_significance[h]
                         dynamic_passing_graph = new_passing_passing_graph.copy()
@@ -311,7 +314,7 @@ class HypothesisTest(object):
                     if test_significance > self.significance_tested_at[h]:
                         self.significance_tested_at[h] = test_significance
 
-            self.pvalue_pseudothreshold[hypotheses] = significance / len(dynamic_hypotheses)
+            self.pvalue_pseudothreshold[hypotheses] = significance / max(len(dynamic_hypotheses), 1)
 
         elif correction == 'Hochberg':
 
-- 
2.43.0


From 25fb1adedf2d99a2d53f6879b966fb4d1bee21f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 28/88] fix: names that numpy no longer has (bool, int, float,
 complex, object)

---
 pygsti/algorithms/germselection.py | 2 +-
 pygsti/extras/crosstalk/core.py    | 2 +-
 pygsti/io/jsoncodec.py             | 2 +-
 pygsti/objects/datacomparator.py   | 4 ++--
 pygsti/objects/qubitgraph.py       | 4 ++--
 pygsti/report/workspace.py         | 2 +-
 pygsti/report/workspaceplots.py    | 4 ++--
 7 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pygsti/algorithms/germselection.py b/pygsti/algorithms/germselection.py
index 1564242..fdebeda 100644
--- a/pygsti/algorithms/germselection.py
+++ b/pygsti/algorithms/germselection.py
@@ -478,7 +478,7 @@ def calc_bulk_twirled_DDD(model, germsList, eps=1e-6, check=False,
     #NEW: faster, one-germ-at-a-time computation requires less memory.
     nGerms, _, vec_model_dim = twirledDeriv.shape
     twirledDerivDaggerDeriv = _np.empty((nGerms, vec_model_dim, vec_model_dim),
-                                        dtype=_np.complex)
+                                        dtype=complex)
     for i in range(nGerms):
         twirledDerivDaggerDeriv[i, :, :] = _np.dot(
             twirledDeriv[i, :, :].conjugate().T, twirledDeriv[i, :, :])
diff --git a/pygsti/extras/crosstalk/core.py b/pygsti/extras/crosstalk/core.py
index 98d6f1b..f28aa4b 100644
--- a/pygsti/extras/crosstalk/core.py
+++ b/pygsti/extras/crosstalk/core.py
@@ -982,7 +982,7 @@ def pairwise_indep_expts(q):
     for i in range(q):
         for a in range(q):
             for b in range(q):
-                vals[a*q+b,i] = _np.int(_np.mod(a*i+b,q))
+                vals[a*q+b,i] = int(_np.mod(a*i+b,q))
 
     length = _np.shape(vals)[0]
     return length, vals
diff --git a/pygsti/io/jsoncodec.py b/pygsti/io/jsoncodec.py
index 3842b99..a848958 100644
--- a/pygsti/io/jsoncodec.py
+++ b/pygsti/io/jsoncodec.py
@@ -196,7 +196,7 @@ def encode_std_obj(py_obj, binary):
             kind = ''
             descr = tobin(py_obj.dtype.str) if binary else tostr(py_obj.dtype.str)
         data = py_obj.tobytes() if binary else tostr(_base64.b64encode(py_obj.tobytes()))
-        if(py_obj.dtype == _np.object): raise TypeError("Cannot serialize object ndarrays!")
+        if(py_obj.dtype == object): raise TypeError("Cannot serialize object ndarrays!")
         return {'__ndarray__': data,
                 'dtype': descr,
                 'kind': kind,
diff --git a/pygsti/objects/datacomparator.py b/pygsti/objects/datacomparator.py
index 64d4e52..8d52f00 100644
--- a/pygsti/objects/datacomparator.py
+++ b/pygsti/objects/datacomparator.py
@@ -72,11 +72,11 @@ def loglikelihoodRatio(nListList):
         The log-likehood ratio for this model comparison.
     """
     nListC = _np.sum(nListList, axis=0)
-    pListC = nListC / _np.float(_np.sum(nListC))
+    pListC = nListC / float(_np.sum(nListC))
     lC = loglikelihood(pListC, nListC)
     li_list = []
     for nList in nListList:
-        pList = _np.array(nList) / _np.float(_np.sum(nList))
+        pList = _np.array(nList) / float(_np.sum(nList))
         li_list.append(loglikelihood(pList, nList))
     lS = _np.sum(li_list)
     return -2 * (lC - lS)
diff --git a/pygsti/objects/qubitgraph.py b/pygsti/objects/qubitgraph.py
index 2ae19b0..272bc7f 100644
--- a/pygsti/objects/qubitgraph.py
+++ b/pygsti/objects/qubitgraph.py
@@ -144,12 +144,12 @@ class QubitGraph(object):
 
         #Determine whether we'll be using directions or not: set self.directions
         if initial_connectivity is not None:
-            if initial_connectivity.dtype == _np.bool:
+            if initial_connectivity.dtype == bool:
                 assert(direction_names is None), \
                     "`initial_connectivity` must have *integer* indices when `direction_names` is non-None"
             else:
                 #TODO: fix numpy integer-type test here
-                assert(initial_connectivity.dtype == _np.int), \
+                assert(_np.issubdtype(initial_connectivity.dtype, _np.integer)), \
                     ("`initial_connectivity` can only have dtype == bool or "
                      "int (but has dtype=%s)") % str(initial_connectivity.dtype)
                 assert(direction_names is not None), \
diff --git a/pygsti/report/workspace.py b/pygsti/report/workspace.py
index 794004e..2173337 100644
--- a/pygsti/report/workspace.py
+++ b/pygsti/report/workspace.py
@@ -1288,7 +1288,7 @@ class SwitchValue(object):
         self.dependencies = dependencies
 
         shape = [len(self.parent.positionLabels[i]) for i in dependencies]
-        self.base = _np.empty(shape, dtype=_np.object)
+        self.base = _np.empty(shape, dtype=object)
         index_all = (slice(None, None),) * len(shape)
         self.base[index_all] = NotApplicable(self.ws)
 
diff --git a/pygsti/report/workspaceplots.py b/pygsti/report/workspaceplots.py
index 29bc50a..825eb99 100644
--- a/pygsti/report/workspaceplots.py
+++ b/pygsti/report/workspaceplots.py
@@ -1928,7 +1928,7 @@ def _mx_fn_drifttvd(plaq, x, y, instabilityanalyzertuple):
 
 
 def _separate_outcomes_matrix(plaq, elements, fmt="%.3g"):
-    list_mx = _np.empty((plaq.rows, plaq.cols), dtype=_np.object)
+    list_mx = _np.empty((plaq.rows, plaq.cols), dtype=object)
     for i, j, _, elIndices, _ in plaq.iter_simplified():
         list_mx[i, j] = ", ".join(["NaN" if _np.isnan(x) else
                                    (fmt % x) for x in elements[elIndices]])
@@ -1941,7 +1941,7 @@ def _outcome_to_str(x):  # same function as in writers.py
 
 
 def _addl_mx_fn_sl(plaq, x, y, extra):
-    slmx = _np.empty((plaq.rows, plaq.cols), dtype=_np.object)
+    slmx = _np.empty((plaq.rows, plaq.cols), dtype=object)
     for i, j, opstr, elIndices, outcomes in plaq.iter_simplified():
         slmx[i, j] = ", ".join([_outcome_to_str(ol) for ol in outcomes])
     return slmx
-- 
2.43.0


From 8b7f9c068713f692d09dc32c531836c5211a4e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 29/88] fix: qubit graphs: distances count hops, setting edges
 and subgraphs keep directions, undirected graphs use the upper triangle;
 non-local compilations are looked up by their own key

---
 pygsti/objects/compilationlibrary.py |  2 +-
 pygsti/objects/qubitgraph.py         | 27 +++++++++++++++++----------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/pygsti/objects/compilationlibrary.py b/pygsti/objects/compilationlibrary.py
index 4fdcacf..2caea95 100644
--- a/pygsti/objects/compilationlibrary.py
+++ b/pygsti/objects/compilationlibrary.py
@@ -693,7 +693,7 @@ class CompilationLibrary(_collections.OrderedDict):
             key = oplabel
 
         if not force and key in self:
-            return self[oplabel]  # don't re-compute unless we're told to
+            return self[key]  # don't re-compute unless we're told to
 
         circuit = self.construct_nonlocal_compilation_of(
             oplabel, allowed_filter=allowed_filter, verbosity=verbosity, check=check)
diff --git a/pygsti/objects/qubitgraph.py b/pygsti/objects/qubitgraph.py
index 272bc7f..dfa87af 100644
--- a/pygsti/objects/qubitgraph.py
+++ b/pygsti/objects/qubitgraph.py
@@ -185,6 +185,8 @@ class QubitGraph(object):
                     else:  # direction_name is None, and that's ok b/c no direction indices were used
                         direction_names = list(sorted(direction_names_chk))
                 self.directions = direction_names  # set direction names if we're given any
+        else:
+            self.directions = list(direction_names) if direction_names is not None else None
 
         assert(self.directions is None or self.directed), "QubitGraph directions can only be used with `directed==True`"
 
@@ -202,7 +204,7 @@ class QubitGraph(object):
             assert(initial_edges is None), "Cannot specify `initial_connectivity` and `initial_edges`!"
             assert(initial_connectivity.shape == self._connectivity.shape), \
                 "`initial_connectivity must have shape %s" % str(self._connectivity.shape)
-            self._connectivity[:, :] = initial_connectivity
+            self._connectivity[:, :] = initial_connectivity if self.directed else _np.triu(initial_connectivity)
 
         if initial_edges is not None:
             assert(initial_connectivity is None), "Cannot specify `initial_connectivity` and `initial_edges`!"
@@ -228,7 +230,7 @@ class QubitGraph(object):
         if self._dirty:
             self._distance_matrix, self._predecessors = _fw(
                 self._connectivity, return_predecessors=True,
-                directed=self.directed, unweighted=False)  # TIM - why use unweighted=False?
+                directed=self.directed, unweighted=True)  # each edge is one hop (entries may be direction indices)
 
     def __getitem__(self, key):
         node1, node2 = key
@@ -242,8 +244,11 @@ class QubitGraph(object):
         elif self.directions is None:
             self._connectivity[i, j] = bool(val)
         else:  # directions are being used, so connectivity matrix contains ints
-            dir_index = val if isinstance(val, int) else self.directions.index(val)
-            self._connectivity[i, j] = dir_index
+            if val is None or val is False:
+                self._connectivity[i, j] = 0  # no edge
+            else:
+                dir_index = val if isinstance(val, int) else self.directions.index(val)
+                self._connectivity[i, j] = dir_index + 1
         self._dirty = True
 
     def get_node_names(self):
@@ -653,12 +658,14 @@ class QubitGraph(object):
         edges = []
         for edge in self.edges():
             if edge[0] in nodes_to_keep and edge[1] in nodes_to_keep:
-                if reset_nodes:
-                    edges.append((labelmap[edge[0]], labelmap[edge[1]]))
-                else:
-                    edges.append(edge)
-
-        return QubitGraph(qubit_labels, initial_edges=edges, directed=self.directed)
+                new_edge = (labelmap[edge[0]], labelmap[edge[1]]) if reset_nodes else edge
+                if self.directions is not None:
+                    i, j = self._nodeinds[edge[0]], self._nodeinds[edge[1]]
+                    new_edge = new_edge + (self.directions[self._connectivity[i, j] - 1],)
+                edges.append(new_edge)
+
+        return QubitGraph(qubit_labels, initial_edges=edges, directed=self.directed,
+                          direction_names=self.directions)
 
     def resolve_relative_nodelabel(self, relative_nodelabel, target_labels):
         """
-- 
2.43.0


From 4b7be42b88f5c010b6bd0c441dfe6383e18044e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:43 +0000
Subject: [PATCH 30/88] fix: vector/matrix conversion in bases with
 non-Hermitian or unnormalized elements; embedded bases are hashable; sparse
 one-element bases can be inverted

---
 pygsti/objects/basis.py    |  6 +++---
 pygsti/tools/basistools.py | 13 +++++--------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/pygsti/objects/basis.py b/pygsti/objects/basis.py
index 5889191..dccde8f 100644
--- a/pygsti/objects/basis.py
+++ b/pygsti/objects/basis.py
@@ -473,14 +473,14 @@ class Basis(object):
         '''
         if self.sparse:
             if self.is_complete():
-                return _spsl.inv(self.get_to_std().tocsc()).tocsr()
+                return _sps.csr_matrix(_spsl.inv(self.get_to_std().tocsc()))  # (inv gives an array for 1x1 matrices)
             else:
                 assert(self.size < self.dim), "Basis seems to be overcomplete: size > dimension!"
                 # we'd need to construct a different pseudo-inverse if the above assert fails
 
                 A = self.get_to_std()  # shape (dim,size) - should have indep *cols*
                 Adag = A.getH()        # shape (size, dim)
-                invAdagA = _spsl.inv(Adag.tocsr().dot(A.tocsc())).tocsr()
+                invAdagA = _sps.csr_matrix(_spsl.inv(Adag.tocsr().dot(A.tocsc())))
                 return invAdagA.dot(Adag.tocsc())
         else:
             if self.is_complete():
@@ -1266,7 +1266,7 @@ class EmbeddedBasis(LazyBasis):
         super(EmbeddedBasis, self).__init__(name, longname, dim, size, elshape, real, sparse)
 
     def __hash__(self):
-        return hash(tuple(hash(self.embedded_basis), self.target_labels, self.state_space_labels.labels))
+        return hash((hash(self.embedded_basis), tuple(self.target_labels), self.state_space_labels.labels))
 
     def _lazy_build_elements(self):
         """ Take a dense or sparse basis matrix and embed it. """
diff --git a/pygsti/tools/basistools.py b/pygsti/tools/basistools.py
index 01a6f04..820d17f 100644
--- a/pygsti/tools/basistools.py
+++ b/pygsti/tools/basistools.py
@@ -473,7 +473,7 @@ def vec_to_stdmx(v, basis, keep_complex=False):
         basis = BuiltinBasis(basis, len(v))
     ret = _np.zeros(basis.elshape, 'complex')
     for i, mx in enumerate(basis.elements):
-        if keep_complex:
+        if keep_complex or not basis.real:  # components are not real numbers in general
             ret += v[i] * mx
         else:
             ret += float(v[i]) * mx
@@ -506,13 +506,10 @@ def stdmx_to_vec(m, basis):
 
     assert(len(m.shape) == 2 and m.shape[0] == m.shape[1])
     basis = Basis.cast(basis, m.shape[0]**2)
-    v = _np.empty((basis.size, 1))
-    for i, mx in enumerate(basis.elements):
-        if basis.real:
-            v[i, 0] = _np.real(_mt.trace(_np.dot(mx, m)))
-        else:
-            v[i, 0] = _np.real_if_close(_mt.trace(_np.dot(mx, m)))
-    return v
+    # components are the dual of vec_to_stdmx(...) - elements may be non-Hermitian or unnormalized
+    fromStd = basis.get_from_std() if basis.is_simple() else basis.get_from_element_std()
+    v = fromStd.dot(m.flatten()).reshape((basis.size, 1))
+    return _np.real(v) if basis.real else _np.real_if_close(v)
 
 
 stdmx_to_ppvec = partial(stdmx_to_vec, basis='pp')
-- 
2.43.0


From 3add5b3cebea97c74beef571e173f6eaaf94bba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:41 +0000
Subject: [PATCH 31/88] fix: expanding or contracting a matrix starts from the
 basis it is given in; the fast inverse Choi map accepts block bases

---
 pygsti/tools/basistools.py   | 4 ++--
 pygsti/tools/jamiolkowski.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pygsti/tools/basistools.py b/pygsti/tools/basistools.py
index 820d17f..35077e7 100644
--- a/pygsti/tools/basistools.py
+++ b/pygsti/tools/basistools.py
@@ -369,8 +369,8 @@ def flexible_change_basis(mx, startBasis, endBasis):
         resize = 'contract'
     stdBasis1 = startBasis.equivalent('std')
     stdBasis2 = endBasis.equivalent('std')
-    #start = change_basis(mx, startBasis, stdBasis1)
-    mid = resize_std_mx(mx, resize, stdBasis1, stdBasis2)
+    start = change_basis(mx, startBasis, stdBasis1)
+    mid = resize_std_mx(start, resize, stdBasis1, stdBasis2)
     end = change_basis(mid, stdBasis2, endBasis)
     return end
 
diff --git a/pygsti/tools/jamiolkowski.py b/pygsti/tools/jamiolkowski.py
index 0a640ea..a1afdc0 100644
--- a/pygsti/tools/jamiolkowski.py
+++ b/pygsti/tools/jamiolkowski.py
@@ -259,7 +259,8 @@ def fast_jamiolkowski_iso_std_inv(choiMx, opMxBasis):
     opMxInStdBasis = choiMx.reshape((N, N, N, N)) * N
     opMxInStdBasis = _np.swapaxes(opMxInStdBasis, 1, 2).flatten()
     opMxInStdBasis = opMxInStdBasis.reshape((N2, N2))
-    opMxBasis = _bt.build_basis_for_matrix(opMxInStdBasis, opMxBasis)
+    if not isinstance(opMxBasis, _Basis):  # (a given basis may have a smaller dimension, see the contraction below)
+        opMxBasis = _bt.build_basis_for_matrix(opMxInStdBasis, opMxBasis)
 
     #project operation matrix so it acts only on the space given by the desired state space blocks
     opMxInStdBasis = _bt.resize_std_mx(opMxInStdBasis, 'contract',
-- 
2.43.0


From bd096c6604a66ca9b078d74998305dd1f949ff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 32/88] fix: Lindblad generators: relative depolarization, real
 Hamiltonians, sparse affine generators, second derivatives, 1-norm bounds and
 terms of unconstrained generators

---
 pygsti/objects/operation.py   | 34 ++++++++++++++++++++--------------
 pygsti/tools/lindbladtools.py | 17 +++++++++--------
 pygsti/tools/optools.py       | 16 ++++++++++++++--
 3 files changed, 43 insertions(+), 24 deletions(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index eb6873f..152d78a 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -6832,7 +6832,7 @@ class LindbladErrorgen(LinearOperator):
                 if self.sparse:
                     otherGens = [_mt.safereal(_mt.safedot(leftTrans, _mt.safedot(mx, rightTrans)),
                                               inplace=True, check=True) for mx in otherGens]
-                    for mx in hamGens: mx.sort_indices()
+                    for mx in otherGens: mx.sort_indices()
                     # for faster addition ops in _construct_errgen_matrix
                 else:
                     #otherGens = _np.einsum("ik,akl,lj->aij", leftTrans, otherGens, rightTrans)
@@ -6973,10 +6973,15 @@ class LindbladErrorgen(LinearOperator):
                             if k < i and k < j:
                                 polyTerms[(iIm(i, k), iIm(j, k))] = 1.0
                     else:  # param_mode == "unconstrained"
-                        # coeff_ij = otherParam[i,j] + 1j*otherParam[j,i] (otherCoeffs is Hermitian)
+                        # coeff_ij = otherParam[i,j] + 1j*otherParam[j,i] when i > j (otherCoeffs is Hermitian)
                         ijIndx = numHamParams + (i * numOtherBasisEls + j)
                         jiIndx = numHamParams + (j * numOtherBasisEls + i)
-                        polyTerms = {(ijIndx,): 1.0, (jiIndx,): 1.0j}
+                        if i == j:
+                            polyTerms = {(ijIndx,): 1.0}
+                        elif i > j:
+                            polyTerms = {(ijIndx,): 1.0, (jiIndx,): 1.0j}
+                        else:
+                            polyTerms = {(jiIndx,): 1.0, (ijIndx,): -1.0j}
 
                     base_poly = _Polynomial(polyTerms, mpv)
                     Lm_dag = Lm.conjugate().T; Ln_dag = Ln.conjugate().T
@@ -7087,6 +7092,7 @@ class LindbladErrorgen(LinearOperator):
             if hamCoeffs is not None:
                 onenorm += _np.dot(self.hamGens_1norms, _np.abs(hamCoeffs))
                 if otherCoeffs is not None:
+                    onenorm += _np.dot(self.otherGens_1norms, _np.abs(otherCoeffs.flat))
                     coeffs = _np.concatenate((hamCoeffs, otherCoeffs.flat), axis=0)
                 else:
                     coeffs = hamCoeffs
@@ -7448,7 +7454,7 @@ class LindbladErrorgen(LinearOperator):
             hamC, otherC, self.ham_basis, self.other_basis, self.nonham_mode, return_basis)
 
         if logscale_nonham:
-            Ltermdict = Ltermdict_and_maybe_basis if return_basis else Ltermdict_and_maybe_basis
+            Ltermdict = Ltermdict_and_maybe_basis[0] if return_basis else Ltermdict_and_maybe_basis
             d2 = self.dim
             for k in Ltermdict.keys():
                 if k[0] == "S":  # reverse mapping: err_coeff -> err_rate
@@ -7692,7 +7698,7 @@ class LindbladErrorgen(LinearOperator):
             elif self.param_mode == "reldepol":  # all coeffs same & == param
                 assert(len(otherParams) == 1), "Should only have 1 non-ham parameter in 'reldepol' case!"
                 #dOdp  = _np.einsum('alj->lj', self.otherGens)[:,:,None]
-                dOdp = _np.sum(_np.transpose(self.otherGens, (1, 2, 0)), axis=2)[:, :, None] * 2 * otherParams[0]
+                dOdp = _np.sum(_np.transpose(self.otherGens, (1, 2, 0)), axis=2)[:, :, None]
             elif self.param_mode == "cptp":  # (coeffs = params^2)
                 #dOdp  = _np.einsum('alj,a->lja', self.otherGens, 2*otherParams)
                 dOdp = _np.transpose(self.otherGens, (1, 2, 0)) * 2 * otherParams  # just a broadcast
@@ -7714,7 +7720,7 @@ class LindbladErrorgen(LinearOperator):
                 #dOdp[:,:,1:] = _np.einsum('alj->lja', self.otherGens[1]) # no need for affine_params
                 dOdp[:, :, 0] = _np.sum(self.otherGens[0], axis=0) * 2 * diag_params[0]  # single diagonal term
                 dOdp[:, :, 1:] = _np.transpose(self.otherGens[1], (1, 2, 0))  # no need for affine_params
-            elif self.param_mode == "reldepol":  # all coeffs same & == param^2
+            elif self.param_mode == "reldepol":  # all coeffs same & == param
                 dOdp = _np.empty((d2, d2, bsO), 'complex')
                 #dOdp[:,:,0]  = _np.einsum('alj->lj', self.otherGens[0]) # single diagonal term
                 #dOdp[:,:,1:] = _np.einsum('alj->lja', self.otherGens[1]) # affine part: each gen has own param
@@ -7790,7 +7796,7 @@ class LindbladErrorgen(LinearOperator):
                 #d2Odp2  = _np.einsum('alj,aq->ljaq', self.otherGens, 2*_np.identity(nP,'d'))
                 d2Odp2 = _np.transpose(self.otherGens, (1, 2, 0))[:, :, :, None] * 2 * _np.identity(nP, 'd')
             else:  # param_mode == "unconstrained" or "reldepol"
-                assert(nP == bsO - 1)
+                assert(nP == (1 if self.param_mode == "reldepol" else bsO - 1))
                 d2Odp2 = _np.zeros([d2, d2, nP, nP], 'd')
 
         elif self.nonham_mode == "diag_affine":
@@ -7800,19 +7806,19 @@ class LindbladErrorgen(LinearOperator):
             # Derivative of exponent wrt other param; shape == [d2,d2,nP,nP]
             if self.param_mode == "depol":
                 assert(nP == bsO)  # 1 diag param + (bsO-1) affine params
-                d2Odp2 = _np.empty((d2, d2, nP, nP), 'complex')
+                d2Odp2 = _np.zeros((d2, d2, nP, nP), 'complex')
                 #d2Odp2[:,:,0,0]  = _np.einsum('alj->lj', self.otherGens[0]) * 2 # single diagonal term
                 d2Odp2[:, :, 0, 0] = _np.sum(self.otherGens[0], axis=0) * 2  # single diagonal term
-                d2Odp2[:, :, 1:, 1:] = 0  # 2nd deriv wrt. all affine params == 0
+                # 2nd derivs involving any affine param == 0
             elif self.param_mode == "cptp":
                 assert(nP == 2 * (bsO - 1)); hnP = bsO - 1  # half nP
-                d2Odp2 = _np.empty((d2, d2, nP, nP), 'complex')
-                #d2Odp2[:,:,0:hnP,0:hnP] = _np.einsum('alj,aq->ljaq', self.otherGens[0], 2*_np.identity(nP,'d'))
+                d2Odp2 = _np.zeros((d2, d2, nP, nP), 'complex')
+                #d2Odp2[:,:,0:hnP,0:hnP] = _np.einsum('alj,aq->ljaq', self.otherGens[0], 2*_np.identity(hnP,'d'))
                 d2Odp2[:, :, 0:hnP, 0:hnP] = _np.transpose(self.otherGens[0], (1, 2, 0))[
-                    :, :, :, None] * 2 * _np.identity(nP, 'd')
-                d2Odp2[:, :, hnP:, hnP:] = 0  # 2nd deriv wrt. all affine params == 0
+                    :, :, :, None] * 2 * _np.identity(hnP, 'd')
+                # 2nd derivs involving any affine param == 0
             else:  # param_mode == "unconstrained" or "reldepol"
-                assert(nP == 2 * (bsO - 1))
+                assert(nP == (bsO if self.param_mode == "reldepol" else 2 * (bsO - 1)))
                 d2Odp2 = _np.zeros([d2, d2, nP, nP], 'd')
 
         else:  # nonham_mode == "all" : all lindblad terms included
diff --git a/pygsti/tools/lindbladtools.py b/pygsti/tools/lindbladtools.py
index 0c33f21..328f7b7 100644
--- a/pygsti/tools/lindbladtools.py
+++ b/pygsti/tools/lindbladtools.py
@@ -20,7 +20,7 @@ def hamiltonian_to_lindbladian(hamiltonian, sparse=False):
 
     Mathematically, for a d-dimensional Hamiltonian matrix H, this
     routine constructs the d^2-dimension Lindbladian matrix L whose
-    action is given by L(rho) = -1j*2/sqrt(d)*[ H, rho ], where square brackets
+    action is given by L(rho) = -1j*sqrt(d)/2*[ H, rho ], where square brackets
     denote the commutator and rho is a density matrix.  L is returned
     as a superoperator matrix that acts on a vectorized density matrices.
 
@@ -43,9 +43,9 @@ def hamiltonian_to_lindbladian(hamiltonian, sparse=False):
     assert(hamiltonian.shape[0] == hamiltonian.shape[1])
     d = hamiltonian.shape[0]
     if sparse:
-        lindbladian = _sps.lil_matrix((d**2, d**2), dtype=hamiltonian.dtype)
+        lindbladian = _sps.lil_matrix((d**2, d**2), dtype='complex')
     else:
-        lindbladian = _np.empty((d**2, d**2), dtype=hamiltonian.dtype)
+        lindbladian = _np.empty((d**2, d**2), dtype='complex')
 
     for i, rho0 in enumerate(basis_matrices('std', d**2)):  # rho0 == input density mx
         rho1 = _np.sqrt(d) / 2 * (-1j * (_mt.safedot(hamiltonian, rho0) - _mt.safedot(rho0, hamiltonian)))
@@ -62,7 +62,7 @@ def stochastic_lindbladian(Q, sparse=False):
 
     Mathematically, for a d-dimensional matrix Q, this routine
     constructs the d^2-dimension Lindbladian matrix L whose
-    action is given by L(rho) = Q*rho*Q^dag where rho is a density
+    action is given by L(rho) = d*Q*rho*Q^dag where rho is a density
     matrix.  L is returned as a superoperator matrix that acts on a
     vectorized density matrices.
 
@@ -116,7 +116,7 @@ def affine_lindbladian(Q, sparse=False):
 
     Mathematically, for a d-dimensional matrix Q, this routine
     constructs the d^2-dimension Lindbladian matrix L whose
-    action is given by L(rho) = Q where rho is a density
+    action is given by L(rho) = tr(rho)*Q where rho is a density
     matrix.  L is returned as a superoperator matrix that acts on a
     vectorized density matrices.
 
@@ -162,7 +162,7 @@ def nonham_lindbladian(Lm, Ln, sparse=False):
     constructs the d^2-dimension Lindbladian matrix L whose action is
     given by:
 
-    L(rho) = Ln*rho*Lm^dag - 1/2(rho*Lm^dag*Ln + Lm^dag*Ln*rho)
+    L(rho) = d * (Ln*rho*Lm^dag - 1/2(rho*Lm^dag*Ln + Lm^dag*Ln*rho))
 
     where rho is a density matrix.  L is returned as a superoperator
     matrix that acts on a vectorized density matrices.
@@ -188,10 +188,11 @@ def nonham_lindbladian(Lm, Ln, sparse=False):
     assert(Lm.shape[0] == Lm.shape[1])
     Lm_dag = _np.conjugate(_np.transpose(Lm))
     d = Lm.shape[0]
+    dtype = _np.result_type(Lm.dtype, Ln.dtype, 'd')
     if sparse:
-        lindbladian = _sps.lil_matrix((d**2, d**2), dtype=Lm.dtype)
+        lindbladian = _sps.lil_matrix((d**2, d**2), dtype=dtype)
     else:
-        lindbladian = _np.empty((d**2, d**2), dtype=Lm.dtype)
+        lindbladian = _np.empty((d**2, d**2), dtype=dtype)
 
 #    print("BEGIN VERBOSE") #DEBUG!!!
     for i, rho0 in enumerate(basis_matrices('std', d**2)):  # rho0 == input density mx
diff --git a/pygsti/tools/optools.py b/pygsti/tools/optools.py
index 35f3b87..525de2e 100644
--- a/pygsti/tools/optools.py
+++ b/pygsti/tools/optools.py
@@ -1663,7 +1663,7 @@ def lindblad_error_generators(dmbasis_ham, dmbasis_other, normalize,
                         assert(_np.isclose(normfn(otherLindbladTerms[i]), 1.0))
 
         elif other_mode == "diag_affine":
-            otherLindbladTerms = [[None] * (other_nMxs - 1)] * 2 if sparse else \
+            otherLindbladTerms = [[None] * (other_nMxs - 1) for k in range(2)] if sparse else \
                 _np.empty((2, other_nMxs - 1, d2, d2), 'complex')
             for i, Lm in enumerate(other_mxs[1:]):  # don't include identity
                 otherLindbladTerms[0][i] = _lt.nonham_lindbladian(Lm, Lm, sparse)
@@ -2349,6 +2349,11 @@ def lindblad_projections_to_paramvals(hamProjs, otherProjs, param_mode="cptp",
                 otherProj = _np.mean(otherProjs.clip(1e-16, 1e100))
                 otherParams = _np.array(_np.sqrt(_np.real(otherProj)), 'd')  # shape (1,)
 
+            elif param_mode == "reldepol":  # otherParams is a *single-element* 1D vector of the diagonal els' value
+                assert(truncate or all([_np.isclose(v, otherProjs[0]) for v in otherProjs])), \
+                    "Diagonal lindblad coefficients are not equal (truncate == False)!"
+                otherParams = _np.array([_np.mean(otherProjs.real)], 'd')  # shape (1,)
+
             elif param_mode == "cptp":  # otherParams is a 1D vector of the sqrts of diagonal els
                 assert(truncate or all([v >= -1e-12 for v in otherProjs])), \
                     "Lindblad coefficients are not CPTP (truncate == False)!"
@@ -2370,6 +2375,12 @@ def lindblad_projections_to_paramvals(hamProjs, otherProjs, param_mode="cptp",
                 otherParams = _np.concatenate(([_np.sqrt(_np.real(depolProj))],
                                                otherProjs[1].real))  # shape (1+(bsO-1),)
 
+            elif param_mode == "reldepol":  # otherParams is a single (signed) value + unconstrained affine coeffs
+                assert(truncate or all([_np.isclose(v, otherProjs[0, 0]) for v in otherProjs[0]])), \
+                    "Diagonal lindblad coefficients are not equal (truncate == False)!"
+                otherParams = _np.concatenate(([_np.mean(otherProjs[0].real)],
+                                               otherProjs[1].real))  # shape (1+(bsO-1),)
+
             elif param_mode == "cptp":  # Note: does not constrained affine coeffs to CPTP
                 assert(truncate or all([v >= -1e-12 for v in otherProjs[0]])), \
                     "Lindblad coefficients are not CPTP (truncate == False)!"
@@ -2382,7 +2393,8 @@ def lindblad_projections_to_paramvals(hamProjs, otherProjs, param_mode="cptp",
         else:  # other_mode == "all"
             assert(_np.isclose(_np.linalg.norm(otherProjs - otherProjs.T.conjugate()), 0)
                    ), "Other projection/coefficient mx is not Hermitian!"
-            assert(param_mode != "depol"), "`depol` is not supported when `other_mode == 'all'`"
+            assert(param_mode not in ("depol", "reldepol")), \
+                "`depol` and `reldepol` are not supported when `other_mode == 'all'`"
 
             bsO = otherProjs.shape[0] + 1  # +1 to keep convention that this is the basis (w/Identity) size
             otherParams = _np.empty((bsO - 1, bsO - 1), 'd')
-- 
2.43.0


From 6166fe08697056d8cc5ed89ee94485ea4ce51488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:08 +0000
Subject: [PATCH 33/88] fix: EmbeddedOp.todense decomposes gate indices for
 target labels of different dimension

---
 pygsti/objects/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 152d78a..0e408d6 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -4899,7 +4899,7 @@ class EmbeddedOp(LinearOperator):
 
     def _iter_matrix_elements_precalc(self):
         divisor = 1; divisors = []
-        for l in self.targetLabels:
+        for l in reversed(self.targetLabels):  # last target label varies fastest
             divisors.append(divisor)
             divisor *= self.state_space_labels.labeldims[l]  # e.g. 4 or 2 for qubits (depending on evotype)
 
-- 
2.43.0


From 66ab764a8dd1ab7995458e202b79564db421b5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:08 +0000
Subject: [PATCH 34/88] fix: StochasticNoiseOp applies its initial rates,
 DepolarizeOp has one parameter, and both can be copied

---
 pygsti/objects/operation.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 0e408d6..63e22e8 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -2155,11 +2155,11 @@ class StochasticNoiseOp(LinearOperator):
             self.stochastic_superops.append(_bt.change_basis(std_superop, 'std', self.basis))
 
         #Setup initial parameters
-        self.params = _np.zeros(self.basis.size - 1, 'd')  # note that basis.dim can be < self.dim (OK)
-        if initial_rates is not None:
-            assert(len(initial_rates) == self.basis.size - 1), \
-                "Expected %d initial rates but got %d!" % (len(initial_rates), self.basis.size - 1)
-            self.params[:] = self._rates_to_params(initial_rates)
+        if initial_rates is None:
+            initial_rates = _np.zeros(self.basis.size - 1, 'd')  # note that basis.dim can be < self.dim (OK)
+        assert(len(initial_rates) == self.basis.size - 1), \
+            "Expected %d initial rates but got %d!" % (self.basis.size - 1, len(initial_rates))
+        self.params = self._rates_to_params(initial_rates)
         assert(evotype in ("densitymx", "svterm", "cterm"))
 
         if evotype == "densitymx":  # for now just densitymx is supported
@@ -2168,9 +2168,10 @@ class StochasticNoiseOp(LinearOperator):
             raise ValueError("Invalid evotype '%s' for %s" % (evotype, self.__class__.__name__))
 
         LinearOperator.__init__(self, rep, evotype)
+        self.from_vector(self.to_vector(), nodirty=True)  # initialize self._rep
 
     def _rates_to_params(self, rates):
-        return _np.sqrt(_np.array(rates))
+        return _np.sqrt(_np.array(rates, 'd'))
 
     def _params_to_rates(self, params):
         return params**2
@@ -2190,7 +2191,8 @@ class StochasticNoiseOp(LinearOperator):
         StochasticNoiseOp
             A copy of this object.
         """
-        copyOfMe = StochasticNoiseOp(self.dim, self.basis, self._evotype, self._params_to_rates(self.to_vector()))
+        copyOfMe = StochasticNoiseOp(self.dim, self.basis, self._evotype)
+        copyOfMe.from_vector(self.to_vector())
         return self._copy_gpindices(copyOfMe, parent)
 
     #to_dense / to_sparse?
@@ -2429,7 +2431,8 @@ class DepolarizeOp(StochasticNoiseOp):
         DepolarizeOp
             A copy of this object.
         """
-        copyOfMe = DepolarizeOp(self.dim, self.basis, self.evotype, self._params_to_rates(self.to_vector())[0])
+        copyOfMe = DepolarizeOp(self.dim, self.basis, self._evotype)
+        copyOfMe.from_vector(self.to_vector())
         return self._copy_gpindices(copyOfMe, parent)
 
 
-- 
2.43.0


From 145641d1393eea9b75aaf058cac02d410f15549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:09 +0000
Subject: [PATCH 35/88] fix: ComposedOp.transform updates the dense
 representation

---
 pygsti/objects/operation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 63e22e8..46a4d12 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -4537,6 +4537,9 @@ class ComposedOp(LinearOperator):
         """
         for gate in self.factorops:
             gate.transform(S)
+        if self.dense_rep:
+            self._update_denserep()
+        self.dirty = True
 
     def __str__(self):
         """ Return string representation """
-- 
2.43.0


From 61e9be240dd2f6bba822351f4a390715ea2ee7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:09 +0000
Subject: [PATCH 36/88] fix: TPSPAMVec does not share (or reshape) the array it
 is created from

---
 pygsti/objects/spamvec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/spamvec.py b/pygsti/objects/spamvec.py
index 36fc915..face5c2 100644
--- a/pygsti/objects/spamvec.py
+++ b/pygsti/objects/spamvec.py
@@ -1159,7 +1159,7 @@ class TPSPAMVec(DenseSPAMVec):
         if not _np.isclose(vector[0], firstEl):
             raise ValueError("Cannot create TPSPAMVec: "
                              "first element must equal %g!" % firstEl)
-        DenseSPAMVec.__init__(self, vec, "densitymx", "prep")
+        DenseSPAMVec.__init__(self, vector, "densitymx", "prep")
         assert(isinstance(self.base, _ProtectedArray))
 
     @property
-- 
2.43.0


From 8024ec3f51bd28c7c4c70782cb732b664650574f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:09 +0000
Subject: [PATCH 37/88] fix: MarginalizedPOVM does not add into the effect
 vectors being marginalized

---
 pygsti/objects/povm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/povm.py b/pygsti/objects/povm.py
index 7d976c0..444144a 100644
--- a/pygsti/objects/povm.py
+++ b/pygsti/objects/povm.py
@@ -1302,7 +1302,7 @@ class MarginalizedPOVM(POVM):
             for k in self._elements_to_sum[key]:
                 e = self.povm_to_marginalize[k]
                 if effect_vec is None:
-                    effect_vec = e.todense()
+                    effect_vec = e.todense().copy()
                 else:
                     effect_vec += e.todense()
             effect = _sv.StaticSPAMVec(effect_vec, self._evotype, 'effect')
-- 
2.43.0


From 25f67503a921631cb55f4a027f10479464d2681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:27 +0000
Subject: [PATCH 38/88] fix: CPTPSPAMVec holds the vector its parameters define
 after creation and set_value

---
 pygsti/objects/spamvec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsti/objects/spamvec.py b/pygsti/objects/spamvec.py
index face5c2..f840571 100644
--- a/pygsti/objects/spamvec.py
+++ b/pygsti/objects/spamvec.py
@@ -1435,6 +1435,7 @@ class CPTPSPAMVec(DenseSPAMVec):
         self.Lmx = _np.zeros((self.dmDim, self.dmDim), 'complex')
 
         DenseSPAMVec.__init__(self, vector, "densitymx", "prep")
+        self._construct_vector()
 
     def _set_params_from_vector(self, vector, truncate):
         density_mx = _np.dot(self.basis_mxs, vector)
@@ -1536,6 +1537,7 @@ class CPTPSPAMVec(DenseSPAMVec):
         """
         try:
             self._set_params_from_vector(vec, truncate=False)
+            self._construct_vector()
             self.dirty = True
         except AssertionError as e:
             raise ValueError("Error initializing the parameters of this "
-- 
2.43.0


From 32c09e28e68a12a09309c8f1411a6f51693f0662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:52 +0000
Subject: [PATCH 39/88] fix: TensorProdPOVM refreshes effects already handed
 out when its parameters change

---
 pygsti/objects/povm.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/povm.py b/pygsti/objects/povm.py
index 444144a..f3d9b2b 100644
--- a/pygsti/objects/povm.py
+++ b/pygsti/objects/povm.py
@@ -798,6 +798,12 @@ class TensorProdPOVM(POVM):
         """
         for povm in self.factorPOVMs:
             povm.from_vector(v[povm.gpindices], close, nodirty)
+        self._update_effect_reps()
+
+    def _update_effect_reps(self):
+        """ Update effects that have already been created (see __getitem__) to match their factors """
+        for effect in _collections.OrderedDict.values(self):
+            effect._update_rep()
 
     def depolarize(self, amount):
         """
@@ -819,8 +825,7 @@ class TensorProdPOVM(POVM):
         for povm in self.factorPOVMs:
             povm.depolarize(amount)
 
-        #No need to re-init effect vectors since they don't store a (dense)
-        # version of their vector - they just create it from factorPOVMs on demand
+        self._update_effect_reps()
         self.dirty = True
 
     def __str__(self):
-- 
2.43.0


From 89e76234dc39aa5a4f07db7d284ae50684fb4c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:52 +0000
Subject: [PATCH 40/88] fix: tensor-product effect derivatives address the
 factor effect's own parameters

---
 pygsti/objects/spamvec.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/spamvec.py b/pygsti/objects/spamvec.py
index f840571..7fd04b3 100644
--- a/pygsti/objects/spamvec.py
+++ b/pygsti/objects/spamvec.py
@@ -2157,8 +2157,11 @@ class TensorProdSPAMVec(SPAMVec):
             if self._prep_or_effect == "prep":
                 local_inds = fct.gpindices  # factor vectors hold local indices
             else:  # in effect case, POVM-factors hold global indices (b/c they're meant to be shareable)
-                local_inds = _modelmember._decompose_gpindices(
-                    self.gpindices, fct.gpindices)
+                if vec.parent is fct:  # `vec` holds indices relative to its POVM
+                    local_inds = _modelmember._compose_gpindices(
+                        _modelmember._decompose_gpindices(self.gpindices, fct.gpindices), vec.gpindices)
+                else:
+                    local_inds = _modelmember._decompose_gpindices(self.gpindices, vec.gpindices)
 
             assert(local_inds is not None), \
                 "Error: gpindices has not been initialized for factor %d - cannot compute derivative!" % i
-- 
2.43.0


From 35a09a1b27e4ff899d0f2cee832b83b8fed7df8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:52 +0000
Subject: [PATCH 41/88] fix: default SPAMVec Hessian has the right shape

---
 pygsti/objects/spamvec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/spamvec.py b/pygsti/objects/spamvec.py
index 7fd04b3..bef6e01 100644
--- a/pygsti/objects/spamvec.py
+++ b/pygsti/objects/spamvec.py
@@ -783,7 +783,7 @@ class SPAMVec(_modelmember.ModelMember):
             Hessian with shape (dimension, num_params1, num_params2)
         """
         if not self.has_nonzero_hessian():
-            return _np.zeros(self.size, self.num_params(), self.num_params())
+            return _np.zeros((self.size, self.num_params(), self.num_params()), 'd')
 
         # FUTURE: create a finite differencing hessian method?
         raise NotImplementedError("hessian_wrt_params(...) is not implemented for %s objects" % self.__class__.__name__)
-- 
2.43.0


From 914956cbc720d2fd15e49523a2635fb7f4ce8ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:17 +0000
Subject: [PATCH 42/88] fix: Python SVOpRep_Composed stores its factors under
 the name its methods use

---
 pygsti/objects/replib/slowreplib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/replib/slowreplib.py b/pygsti/objects/replib/slowreplib.py
index 8491ad8..5c815ce 100644
--- a/pygsti/objects/replib/slowreplib.py
+++ b/pygsti/objects/replib/slowreplib.py
@@ -817,7 +817,7 @@ class SVOpRep_Composed(SVOpRep):
     # exactly the same as DM case
     def __init__(self, factor_op_reps, dim):
         #assert(len(factor_op_reps) > 0), "Composed gates must contain at least one factor gate!"
-        self.factors_reps = factor_op_reps
+        self.factor_reps = factor_op_reps
         super(SVOpRep_Composed, self).__init__(dim)
 
     def __reduce__(self):
@@ -836,7 +836,7 @@ class SVOpRep_Composed(SVOpRep):
         return state
 
     def reinit_factor_op_reps(self, new_factor_op_reps):
-        self.factors_reps = new_factor_op_reps
+        self.factor_reps = new_factor_op_reps
 
 
 class SVOpRep_Sum(SVOpRep):
-- 
2.43.0


From f9267a6e3e9a281f5e03b2b350b8a98ca6c068db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:32 +0000
Subject: [PATCH 43/88] fix: the only element of a one-element TPInstrument
 follows its parameters

---
 pygsti/objects/operation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 46a4d12..4fab18b 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -4016,7 +4016,8 @@ class TPInstrumentOp(DenseOperator):
         # calculator).  We rely on the Instrument elements having their
         # from_vector() methods called in self.index order.
 
-        if self.index < len(self.param_ops) - 1:  # final element doesn't need to init any param gates
+        if self.index < len(self.param_ops) - 1 or self.index == 0:
+            # final element doesn't need to init any param gates (unless it's the only one)
             for i in self.dependents:  # re-init all my dependents (may be redundant)
                 if i == 0 and self.index > 0: continue  # 0th param-gate already init by index==0 element
                 paramop_local_inds = _modelmember._decompose_gpindices(
-- 
2.43.0


From 05ded234c97e7a5dbe5e64acbdfad46b0154ac72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:45 +0000
Subject: [PATCH 44/88] fix: circuits that differ only in their preparation can
 be simulated together by matrix products; the element index of a repeated raw
 circuit is found

---
 pygsti/objects/matrixevaltree.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pygsti/objects/matrixevaltree.py b/pygsti/objects/matrixevaltree.py
index 40a6d1f..2b372cb 100644
--- a/pygsti/objects/matrixevaltree.py
+++ b/pygsti/objects/matrixevaltree.py
@@ -79,14 +79,15 @@ class MatrixEvalTree(EvalTree):
         # since it's trivial to compute probabilities for different state preps when you have the
         # process matrix.  The values of the simplified_circuit_list then become lists of *spamtuples*
         # rather than just lists of effect labels.
-        simplified_circuit_list = _collections.OrderedDict()
+        # Note: circuits that differ only by their prep become duplicates here - they remain separate items.
+        simplified_circuit_list = []
         for simple_circuit_with_prep, elabels in simplified_circuit_elabels.items():
             if elabels == [None]:  # special case when there is no prep
-                simplified_circuit_list[simple_circuit_with_prep] = elabels
+                simplified_circuit_list.append((simple_circuit_with_prep, elabels))
             else:
                 rhoLbl = simple_circuit_with_prep[0]  # assume first circuit layer is a prep
                 simple_circuit_no_prep = simple_circuit_with_prep[1:]
-                simplified_circuit_list[simple_circuit_no_prep] = [(rhoLbl, eLbl) for eLbl in elabels]
+                simplified_circuit_list.append((simple_circuit_no_prep, [(rhoLbl, eLbl) for eLbl in elabels]))
 
         # opLabels : A list of all the length-0 & 1 operation labels to be stored
         #  at the beginning of the tree.  This list must include all the gate
@@ -96,8 +97,8 @@ class MatrixEvalTree(EvalTree):
         if numSubTreeComms is not None:
             self.distribution['numSubtreeComms'] = numSubTreeComms
 
-        circuit_list = [tuple(mdl) for mdl in simplified_circuit_list.keys()]
-        self.simplified_circuit_spamTuples = list(simplified_circuit_list.values())
+        circuit_list = [tuple(mdl) for mdl, _ in simplified_circuit_list]
+        self.simplified_circuit_spamTuples = [spamTuples for _, spamTuples in simplified_circuit_list]
         self.simplified_circuit_nEls = list(map(len, self.simplified_circuit_spamTuples))
         self.num_final_els = sum([len(v) for v in self.simplified_circuit_spamTuples])
         #self._compute_finalStringToEls() #depends on simplified_circuit_spamTuples
-- 
2.43.0


From be30d5bbc5bc42e14e28b931085e41e6c3814041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:27 +0000
Subject: [PATCH 45/88] fix: OpModel.simplify_circuits adds the effect labels
 of a raw circuit first met through another circuit

---
 pygsti/objects/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/model.py b/pygsti/objects/model.py
index 408f0d5..510e8af 100644
--- a/pygsti/objects/model.py
+++ b/pygsti/objects/model.py
@@ -1040,7 +1040,7 @@ class OpModel(Model):
                         # don't add spamtuples we don't observe
 
                         elabel_indx = od.get(elabel, None)
-                        if elabel is None:
+                        if elabel_indx is None:
                             # although we've seen this raw string, we haven't
                             # seen elabel yet - add it at end
                             elabel_indx = len(od)
-- 
2.43.0


From 2f832802978d9c3ab0d65bc260c0df180a08b839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 46/88] fix: evaluation trees with circuits whose elements are
 not contiguous (instruments) can be split, split trees copied

---
 pygsti/objects/evaltree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/evaltree.py b/pygsti/objects/evaltree.py
index 3be65a7..9a143ea 100644
--- a/pygsti/objects/evaltree.py
+++ b/pygsti/objects/evaltree.py
@@ -127,7 +127,7 @@ class EvalTree(list):
         newTree.parentIndexMap = self.parentIndexMap[:] \
             if (self.parentIndexMap is not None) else None
         newTree.subTrees = [st.copy() for st in self.subTrees]
-        newTree.original_index_lookup = self.original_index_lookup[:] \
+        newTree.original_index_lookup = self.original_index_lookup.copy() \
             if (self.original_index_lookup is not None) else None
         newTree.simplified_circuit_nEls = self.simplified_circuit_nEls[:]
         return newTree
@@ -683,7 +683,7 @@ class EvalTree(list):
         for ky, indices in element_indices.items():
             updated_elIndices[ky] = _slct.list_to_slice(
                 [permute_oldToNew[x] for x in
-                 (_slct.indices(indices) if isinstance(indices, slice) else indices)])
+                 (_slct.indices(indices) if isinstance(indices, slice) else indices)], array_ok=True)
 
         # Now update simplified_circuit_Xs
         updated_simplified_circuit_Xs = [simplified_circuit_Xs[iCur]
-- 
2.43.0


From 1ca3d379a3ac0c33cbcd8a5068a8963b073c104c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 47/88] fix: splitting a map evaluation tree puts its first
 circuit into one sub-tree only (AssertionError for a maximal size without
 cache)

---
 pygsti/objects/mapevaltree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsti/objects/mapevaltree.py b/pygsti/objects/mapevaltree.py
index 6b2b9c0..cfefad8 100644
--- a/pygsti/objects/mapevaltree.py
+++ b/pygsti/objects/mapevaltree.py
@@ -511,6 +511,7 @@ class MapEvalTree(EvalTree):
 
                 if iCache is not None:
                     cacheIndices[iCache] = k
+                if k == evalOrder[0]: continue  # already in the first sub-tree (set above)
 
                 #compute the cost (additional #applies) which results from
                 # adding this element to the current tree.
-- 
2.43.0


From c178f4e10d1693c4f3b794a4463f1a3b877afb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 48/88] fix: Hessians of members that are linear in their
 parameters have the shape of the selected parameters

---
 pygsti/objects/operation.py | 4 +++-
 pygsti/objects/spamvec.py   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 4fab18b..22d38b7 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -910,7 +910,9 @@ class LinearOperator(_modelmember.ModelMember):
             Hessian with shape (dimension^2, num_params1, num_params2)
         """
         if not self.has_nonzero_hessian():
-            return _np.zeros((self.size, self.num_params(), self.num_params()), 'd')
+            nParams1 = self.num_params() if wrtFilter1 is None else len(wrtFilter1)
+            nParams2 = self.num_params() if wrtFilter2 is None else len(wrtFilter2)
+            return _np.zeros((self.size, nParams1, nParams2), 'd')
 
         # FUTURE: create a finite differencing hessian method?
         raise NotImplementedError("hessian_wrt_params(...) is not implemented for %s objects" % self.__class__.__name__)
diff --git a/pygsti/objects/spamvec.py b/pygsti/objects/spamvec.py
index bef6e01..0f6fb76 100644
--- a/pygsti/objects/spamvec.py
+++ b/pygsti/objects/spamvec.py
@@ -783,7 +783,9 @@ class SPAMVec(_modelmember.ModelMember):
             Hessian with shape (dimension, num_params1, num_params2)
         """
         if not self.has_nonzero_hessian():
-            return _np.zeros((self.size, self.num_params(), self.num_params()), 'd')
+            nParams1 = self.num_params() if wrtFilter1 is None else len(wrtFilter1)
+            nParams2 = self.num_params() if wrtFilter2 is None else len(wrtFilter2)
+            return _np.zeros((self.size, nParams1, nParams2), 'd')
 
         # FUTURE: create a finite differencing hessian method?
         raise NotImplementedError("hessian_wrt_params(...) is not implemented for %s objects" % self.__class__.__name__)
-- 
2.43.0


From 700ad3094c3c33b621484c037edfeb75651ea1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 49/88] fix: products and embeddings of parameterised
 operations report and compute their second derivatives

---
 pygsti/objects/operation.py | 87 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 86 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 22d38b7..fd1051c 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -4517,7 +4517,64 @@ class ComposedOp(LinearOperator):
         -------
         bool
         """
-        return any([op.has_nonzero_hessian() for op in self.factorops])
+        return any([op.has_nonzero_hessian() for op in self.factorops]) \
+            or sum([op.num_params() > 0 for op in self.factorops]) > 1
+
+    def hessian_wrt_params(self, wrtFilter1=None, wrtFilter2=None):
+        """
+        Construct the Hessian of this operation with respect to its parameters.
+
+        This function returns a tensor whose first axis corresponds to the
+        flattened operation matrix and whose 2nd and 3rd axes correspond to the
+        parameters that are differentiated with respect to.
+
+        Parameters
+        ----------
+        wrtFilter1, wrtFilter2 : list
+            Lists of indices of the paramters to take first and second
+            derivatives with respect to.  If None, then derivatives are
+            taken with respect to all of the operation's parameters.
+
+        Returns
+        -------
+        numpy array
+            Hessian with shape (dimension^2, num_params1, num_params2)
+        """
+        typ = complex if any([_np.iscomplexobj(op.todense()) for op in self.factorops]) else 'd'
+        nParams = self.num_params()
+        hessianMx = _np.zeros((self.dim, self.dim, nParams, nParams), typ)
+
+        def product(start, stop):  # matrix of factors[start:stop], in order of application
+            ret = _np.identity(self.dim, 'd')
+            for op in self.factorops[start:stop]:
+                ret = _np.dot(op.todense(), ret)
+            return ret
+
+        nFactors = len(self.factorops)
+        factors = [(i, op, _modelmember._decompose_gpindices(self.gpindices, op.gpindices))
+                   for i, op in enumerate(self.factorops) if op.num_params() > 0]
+        local_inds = {i: _np.arange(nParams)[inds] for i, op, inds in factors}
+        derivs = {i: op.deriv_wrt_params(None).reshape((self.dim, self.dim, op.num_params()))
+                  for i, op, _ in factors}
+
+        for i, op, _ in factors:
+            if op.has_nonzero_hessian():
+                hess = op.hessian_wrt_params(None, None).reshape((self.dim, self.dim, op.num_params(), op.num_params()))
+                hess = _np.einsum("ij,jkab,kl->ilab", product(i + 1, nFactors), hess, product(0, i))
+                hessianMx[:, :, local_inds[i][:, None], local_inds[i][None, :]] += hess
+
+            for j, _, _ in factors:  # factors *after* the i-th
+                if j <= i: continue
+                post_deriv = _np.tensordot(product(j + 1, nFactors), derivs[j], (1, 0))
+                deriv_pre = _np.einsum("ij,jka,kl->ila", product(i + 1, j), derivs[i], product(0, i))
+                hess = _np.einsum("ija,jkb->ikab", post_deriv, deriv_pre)
+                hessianMx[:, :, local_inds[j][:, None], local_inds[i][None, :]] += hess
+                hessianMx[:, :, local_inds[i][:, None], local_inds[j][None, :]] += _np.transpose(hess, (0, 1, 3, 2))
+
+        hessianMx.shape = (self.dim**2, nParams, nParams)
+        if wrtFilter1 is not None: hessianMx = _np.take(hessianMx, wrtFilter1, axis=1)
+        if wrtFilter2 is not None: hessianMx = _np.take(hessianMx, wrtFilter2, axis=2)
+        return hessianMx
 
     def transform(self, S):
         """
@@ -5231,6 +5288,34 @@ class EmbeddedOp(LinearOperator):
             derivMx[i * self.dim + j, :] = embedded_deriv[gi * M + gj, :]  # fill row of jacobian
         return derivMx  # Note: wrtFilter has already been applied above
 
+    def hessian_wrt_params(self, wrtFilter1=None, wrtFilter2=None):
+        """
+        Construct the Hessian of this operation with respect to its parameters.
+
+        This function returns a tensor whose first axis corresponds to the
+        flattened operation matrix and whose 2nd and 3rd axes correspond to the
+        parameters that are differentiated with respect to.
+
+        Parameters
+        ----------
+        wrtFilter1, wrtFilter2 : list
+            Lists of indices of the paramters to take first and second
+            derivatives with respect to.  If None, then derivatives are
+            taken with respect to all of the operation's parameters.
+
+        Returns
+        -------
+        numpy array
+            Hessian with shape (dimension^2, num_params1, num_params2)
+        """
+        # Note: this function exploits knowledge of EmbeddedOp internals!!
+        embedded_hessian = self.embedded_op.hessian_wrt_params(wrtFilter1, wrtFilter2)
+        hessianMx = _np.zeros((self.dim**2,) + embedded_hessian.shape[1:], embedded_hessian.dtype)
+        M = self.embedded_op.dim
+        for i, j, gi, gj in self._iter_matrix_elements():
+            hessianMx[i * self.dim + j] = embedded_hessian[gi * M + gj]  # filters have already been applied
+        return hessianMx
+
     def transform(self, S):
         """
         Update operation matrix G with inv(S) * G * S,
-- 
2.43.0


From 13def81fb09b624dc493eab447152eea5d4f556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 50/88] fix: tensor products of parameterised SPAM vectors
 report and compute their second derivatives

---
 pygsti/objects/spamvec.py | 89 +++++++++++++++++++++++++++++++++------
 1 file changed, 77 insertions(+), 12 deletions(-)

diff --git a/pygsti/objects/spamvec.py b/pygsti/objects/spamvec.py
index 0f6fb76..da6e33d 100644
--- a/pygsti/objects/spamvec.py
+++ b/pygsti/objects/spamvec.py
@@ -2110,6 +2110,21 @@ class TensorProdSPAMVec(SPAMVec):
         # just fast-kron arrays or a stabilizer state.
         self._update_rep()
 
+    def _factor_local_inds(self, i, fct, vec):
+        """ The indices (within this vector's parameters) of the parameters of factor `i`, whose vector is `vec`."""
+        if self._prep_or_effect == "prep":
+            local_inds = fct.gpindices  # factor vectors hold local indices
+        else:  # in effect case, POVM-factors hold global indices (b/c they're meant to be shareable)
+            if vec.parent is fct:  # `vec` holds indices relative to its POVM
+                local_inds = _modelmember._compose_gpindices(
+                    _modelmember._decompose_gpindices(self.gpindices, fct.gpindices), vec.gpindices)
+            else:
+                local_inds = _modelmember._decompose_gpindices(self.gpindices, vec.gpindices)
+
+        assert(local_inds is not None), \
+            "Error: gpindices has not been initialized for factor %d - cannot compute derivative!" % i
+        return local_inds
+
     def deriv_wrt_params(self, wrtFilter=None):
         """
         Construct a matrix whose columns are the derivatives of the SPAM vector
@@ -2156,17 +2171,7 @@ class TensorProdSPAMVec(SPAMVec):
                         post = _np.kron(post, fctA[self.effectLbls[j]].todense())
                 deriv = _np.kron(deriv, post[:, None])  # add a dummy 1-dim to 'post' and do kron properly...
 
-            if self._prep_or_effect == "prep":
-                local_inds = fct.gpindices  # factor vectors hold local indices
-            else:  # in effect case, POVM-factors hold global indices (b/c they're meant to be shareable)
-                if vec.parent is fct:  # `vec` holds indices relative to its POVM
-                    local_inds = _modelmember._compose_gpindices(
-                        _modelmember._decompose_gpindices(self.gpindices, fct.gpindices), vec.gpindices)
-                else:
-                    local_inds = _modelmember._decompose_gpindices(self.gpindices, vec.gpindices)
-
-            assert(local_inds is not None), \
-                "Error: gpindices has not been initialized for factor %d - cannot compute derivative!" % i
+            local_inds = self._factor_local_inds(i, fct, vec)
             derivMx[:, local_inds] += deriv
 
         derivMx.shape = (self.dim, self.num_params())  # necessary?
@@ -2185,7 +2190,67 @@ class TensorProdSPAMVec(SPAMVec):
         -------
         bool
         """
-        return False
+        vecs = [fct if (self._prep_or_effect == "prep") else fct[self.effectLbls[i]]
+                for i, fct in enumerate(self.factors)]
+        return any([vec.has_nonzero_hessian() for vec in vecs]) \
+            or sum([vec.num_params() > 0 for vec in vecs]) > 1
+
+    def hessian_wrt_params(self, wrtFilter1=None, wrtFilter2=None):
+        """
+        Construct the Hessian of this SPAM vector with respect to its parameters.
+
+        This function returns a tensor whose first axis corresponds to the
+        flattened vector and whose 2nd and 3rd axes correspond to the
+        parameters that are differentiated with respect to.
+
+        Parameters
+        ----------
+        wrtFilter1, wrtFilter2 : list
+            Lists of indices of the paramters to take first and second
+            derivatives with respect to.  If None, then derivatives are
+            taken with respect to all of the vector's parameters.
+
+        Returns
+        -------
+        numpy array
+            Hessian with shape (dimension, num_params1, num_params2)
+        """
+        assert(self._evotype in ("statevec", "densitymx"))
+        typ = complex if self._evotype == "statevec" else 'd'
+        nParams = self.num_params()
+        hessianMx = _np.zeros((self.dim, nParams, nParams), typ)
+
+        vecs = []; local_inds = []
+        for i, fct in enumerate(self.factors):
+            vec = fct if (self._prep_or_effect == "prep") else fct[self.effectLbls[i]]
+            vecs.append(vec)
+            local_inds.append(self._factor_local_inds(i, fct, vec) if vec.num_params() > 0 else None)
+
+        def product(mxs):  # tensor product of (vecdim, nParams1, nParams2)-shaped arrays; params of factors are distinct axes
+            ret = _np.ones((1, 1, 1), typ)
+            for mx in mxs:
+                ret = _np.kron(ret, mx)
+            return ret
+
+        values = [vec.todense()[:, None, None] for vec in vecs]
+        for i, vec_i in enumerate(vecs):
+            if vec_i.num_params() == 0: continue
+            inds_i = _np.arange(nParams)[local_inds[i]]
+            if vec_i.has_nonzero_hessian():
+                hess = product([vec_i.hessian_wrt_params(None, None) if k == i else v for k, v in enumerate(values)])
+                hessianMx[:, inds_i[:, None], inds_i[None, :]] += hess
+
+            for j, vec_j in enumerate(vecs):
+                if j == i or vec_j.num_params() == 0: continue
+                inds_j = _np.arange(nParams)[local_inds[j]]
+                di = vec_i.deriv_wrt_params(None)[:, :, None]
+                dj = vec_j.deriv_wrt_params(None)[:, None, :]
+                hess = product([di if k == i else (dj if k == j else v) for k, v in enumerate(values)])
+                hessianMx[:, inds_i[:, None], inds_j[None, :]] += hess
+
+        if wrtFilter1 is not None: hessianMx = _np.take(hessianMx, wrtFilter1, axis=1)
+        if wrtFilter2 is not None: hessianMx = _np.take(hessianMx, wrtFilter2, axis=2)
+        return hessianMx
 
     def __str__(self):
         s = "Tensor product %s vector with length %d\n" % (self._prep_or_effect, self.dim)
-- 
2.43.0


From 1f8bce4d5a3588dfd3d0cab0d6f5822108fd3414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 51/88] fix: hproduct uses the second filter's indices and
 handles list-valued parameter indices

---
 pygsti/objects/matrixforwardsim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygsti/objects/matrixforwardsim.py b/pygsti/objects/matrixforwardsim.py
index fb20e15..304626c 100644
--- a/pygsti/objects/matrixforwardsim.py
+++ b/pygsti/objects/matrixforwardsim.py
@@ -463,7 +463,7 @@ class MatrixForwardSimulator(ForwardSimulator):
             if nDerivCols1 == 0: continue
 
             for l, opLabel2 in enumerate(revOpLabelList):
-                inds2 = gpindices1[opLabel2]
+                inds2 = gpindices2[opLabel2]
                 #nDerivCols2 = dop_dopLabel2[opLabel2].shape[1]
 
                 # FUTURE: we could add logic that accounts for the symmetry of the Hessian, so that
@@ -476,7 +476,7 @@ class MatrixForwardSimulator(ForwardSimulator):
                     xv.shape = (nDerivCols1, dim, dim)  # (reshape without copying - throws error if copy is needed)
                     y = _np.dot(_np.kron(xv, _np.transpose(prods[(l + 1, N - 1)])), dop_dopLabel2[opLabel2])
                     # above: (nDerivCols1,dim**2,dim**2) * (dim**2,nDerivCols2) = (nDerivCols1,dim**2,nDerivCols2)
-                    flattened_d2prod[:, inds1, inds2] += _np.swapaxes(y, 0, 1)
+                    _fas(flattened_d2prod, [None, inds1, inds2], _np.swapaxes(y, 0, 1), add=True)
                     # above: dim = (dim2, nDerivCols1, nDerivCols2);
                     # swapaxes takes (kl,vec_prod_indx,ij) => (vec_prod_indx,kl,ij)
                 elif l < m:
@@ -488,7 +488,7 @@ class MatrixForwardSimulator(ForwardSimulator):
                     y = _np.dot(_np.kron(prods[(0, l - 1)], xv), dop_dopLabel2[opLabel2])
                     # above: (nDerivCols1,dim**2,dim**2) * (dim**2,nDerivCols2) = (nDerivCols1,dim**2,nDerivCols2)
 
-                    flattened_d2prod[:, inds1, inds2] += _np.swapaxes(y, 0, 1)
+                    _fas(flattened_d2prod, [None, inds1, inds2], _np.swapaxes(y, 0, 1), add=True)
                     # above: dim = (dim2, nDerivCols1, nDerivCols2);
                     # swapaxes takes (kl,vec_prod_indx,ij) => (vec_prod_indx,kl,ij)
 
@@ -501,7 +501,7 @@ class MatrixForwardSimulator(ForwardSimulator):
                         # (nDerivCols1,nDerivCols2,dim**2)
                         x = _np.dot(_np.transpose(hop_dopLabels[opLabel1], axes=(1, 2, 0)), x0); xv = x.view()
                         xv = _np.transpose(xv, axes=(2, 0, 1))  # (dim2, nDerivCols1, nDerivCols2)
-                        flattened_d2prod[:, inds1, inds2] += xv
+                        _fas(flattened_d2prod, [None, inds1, inds2], xv, add=True)
 
         if flat:
             return flattened_d2prod  # axes = (vectorized_op_el_index, model_parameter1, model_parameter2)
-- 
2.43.0


From f018c3f08f233933761d161d825f68121193d363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 52/88] fix: bulk_dprobs sizes its result by the wrtFilter it
 is given

---
 pygsti/objects/forwardsim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/forwardsim.py b/pygsti/objects/forwardsim.py
index 4f2a925..7ae51be 100644
--- a/pygsti/objects/forwardsim.py
+++ b/pygsti/objects/forwardsim.py
@@ -350,7 +350,8 @@ class ForwardSimulator(object):
             (so values are just `dp`).
         """
         nElements = evalTree.num_final_elements()
-        nDerivCols = self.Np
+        nDerivCols = self.Np if (wrtFilter is None) \
+            else len(wrtFilter)
 
         vdp = _np.empty((nElements, nDerivCols), 'd')
         vp = _np.empty(nElements, 'd') if returnPr else None
-- 
2.43.0


From 1cc1c6a3173b001f175b0f4999c2b65755825ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 53/88] fix: bulk_hprobs honours wrtFilter2 and sizes its
 derivatives by the filters

---
 pygsti/objects/forwardsim.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pygsti/objects/forwardsim.py b/pygsti/objects/forwardsim.py
index 7ae51be..2baa048 100644
--- a/pygsti/objects/forwardsim.py
+++ b/pygsti/objects/forwardsim.py
@@ -453,14 +453,15 @@ class ForwardSimulator(object):
             else len(wrtFilter2)
 
         vhp = _np.empty((nElements, nDerivCols1, nDerivCols2), 'd')
-        vdp1 = _np.empty((nElements, self.Np), 'd') \
+        vdp1 = _np.empty((nElements, nDerivCols1), 'd') \
             if returnDeriv else None
-        vdp2 = vdp1.copy() if (returnDeriv and wrtFilter1 != wrtFilter2) else None
+        vdp2 = _np.empty((nElements, nDerivCols2), 'd') \
+            if (returnDeriv and wrtFilter1 != wrtFilter2) else None
         vp = _np.empty(nElements, 'd') if returnPr else None
 
         self.bulk_fill_hprobs(vhp, evalTree,
                               vp, vdp1, vdp2, clipTo, check, comm,
-                              wrtFilter1, wrtFilter1, wrtBlockSize1, wrtBlockSize2)
+                              wrtFilter1, wrtFilter2, wrtBlockSize1, wrtBlockSize2)
 
         ret = _collections.OrderedDict()
         for i, opstr in enumerate(circuits):
-- 
2.43.0


From 4cc75c6d759761bdfaecb888bd5474a02344f6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 54/88] fix: bulk_fill_hprobs accepts a block size for only one
 of the two axes

---
 pygsti/objects/mapforwardsim.py    | 2 ++
 pygsti/objects/matrixforwardsim.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pygsti/objects/mapforwardsim.py b/pygsti/objects/mapforwardsim.py
index a50e1ae..38b9546 100644
--- a/pygsti/objects/mapforwardsim.py
+++ b/pygsti/objects/mapforwardsim.py
@@ -794,6 +794,8 @@ class MapForwardSimulator(ForwardSimulator):
 
             else:  # Divide columns into blocks of at most blkSize
                 assert(wrtFilter1 is None and wrtFilter2 is None)  # cannot specify both wrtFilter and blkSize
+                if blkSize1 is None: blkSize1 = self.Np  # (only one block size given)
+                if blkSize2 is None: blkSize2 = self.Np
                 nBlks1 = int(_np.ceil(self.Np / blkSize1))
                 nBlks2 = int(_np.ceil(self.Np / blkSize2))
                 # num blocks required to achieve desired average size == blkSize1 or blkSize2
diff --git a/pygsti/objects/matrixforwardsim.py b/pygsti/objects/matrixforwardsim.py
index 304626c..8b2081d 100644
--- a/pygsti/objects/matrixforwardsim.py
+++ b/pygsti/objects/matrixforwardsim.py
@@ -2486,6 +2486,8 @@ class MatrixForwardSimulator(ForwardSimulator):
 
             else:  # Divide columns into blocks of at most blkSize
                 assert(wrtFilter1 is None and wrtFilter2 is None)  # cannot specify both wrtFilter and blkSize
+                if blkSize1 is None: blkSize1 = self.Np  # (only one block size given)
+                if blkSize2 is None: blkSize2 = self.Np
                 nBlks1 = int(_np.ceil(self.Np / blkSize1))
                 nBlks2 = int(_np.ceil(self.Np / blkSize2))
                 # num blocks required to achieve desired average size == blkSize1 or blkSize2
-- 
2.43.0


From 3f7ca053b0536d6635f2476cb016fb9dc0aeef62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:19 +0000
Subject: [PATCH 55/88] fix: the Jacobian of least-squares gauge optimization
 uses the same weights as its residuals

---
 pygsti/algorithms/gaugeopt.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pygsti/algorithms/gaugeopt.py b/pygsti/algorithms/gaugeopt.py
index 7a678af..6e9761e 100644
--- a/pygsti/algorithms/gaugeopt.py
+++ b/pygsti/algorithms/gaugeopt.py
@@ -410,7 +410,7 @@ def _create_objective_fn(model, targetModel, itemWeights=None,
             for lbl, G in mdl_pre.operations.items():
                 # d(op_term) = S_inv * (-dS * S_inv * G * S + G * dS) = S_inv * (-dS * G' + G * dS)
                 #   Note: (S_inv * G * S) is G' (transformed G)
-                wt = itemWeights.get(lbl, opWeight)
+                wt = _np.sqrt(itemWeights.get(lbl, opWeight))  # residuals are scaled by sqrt(weight)
                 left = -1 * _np.dot(dS, mdl_post.operations[lbl].todense())  # shape (n,d1,d2)
                 right = _np.swapaxes(_np.dot(G.todense(), dS), 0, 1)  # shape (d1, n, d2) -> (n,d1,d2)
                 result = _np.swapaxes(_np.dot(S_inv, left + right), 1, 2)  # shape (d1, d2, n)
@@ -421,8 +421,9 @@ def _create_objective_fn(model, targetModel, itemWeights=None,
             # -- Instrument terms
             # -------------------------
             for ilbl, Inst in mdl_pre.instruments.items():
-                wt = itemWeights.get(ilbl, opWeight)
                 for lbl, G in Inst.items():
+                    element_lbl = _objs.Label(ilbl.name + "_" + lbl, ilbl.sslbls)  # (as it's known to Model.residuals)
+                    wt = _np.sqrt(itemWeights.get(element_lbl, opWeight))
                     # same calculation as for operation terms
                     left = -1 * _np.dot(dS, mdl_post.instruments[ilbl][lbl].todense())  # shape (n,d1,d2)
                     right = _np.swapaxes(_np.dot(G.todense(), dS), 0, 1)  # shape (d1, n, d2) -> (n,d1,d2)
@@ -436,7 +437,7 @@ def _create_objective_fn(model, targetModel, itemWeights=None,
             for lbl, rho in mdl_post.preps.items():
                 # d(rho_term) = -(S_inv * dS * S_inv) * rho
                 #   Note: (S_inv * rho) is transformed rho
-                wt = itemWeights.get(lbl, spamWeight)
+                wt = _np.sqrt(itemWeights.get(lbl, spamWeight))
                 Sinv_dS = _np.dot(S_inv, dS)  # shape (d1,n,d2)
                 result = -1 * _np.dot(Sinv_dS, rho.todense())  # shape (d,n)
                 my_jacMx[start:start + d] = wt * result
@@ -447,7 +448,7 @@ def _create_objective_fn(model, targetModel, itemWeights=None,
             for povmlbl, povm in mdl_pre.povms.items():
                 for lbl, E in povm.items():
                     # d(ET_term) = E.T * dS
-                    wt = itemWeights.get(povmlbl + "_" + lbl, spamWeight)
+                    wt = _np.sqrt(itemWeights.get(povmlbl + "_" + lbl, spamWeight))
                     result = _np.dot(E.todense()[None, :], dS).T  # shape (1,n,d2).T => (d2,n,1)
                     my_jacMx[start:start + d] = wt * result.squeeze(2)  # (d2,n)
                     start += d
-- 
2.43.0


From 5737f68117bc766f97cbbde941931ce4310d3829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 56/88] fix: comparing sparse matrices ignores explicitly
 stored zeros

---
 pygsti/objects/basis.py     | 4 ++--
 pygsti/tools/matrixtools.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygsti/objects/basis.py b/pygsti/objects/basis.py
index dccde8f..afd1ef5 100644
--- a/pygsti/objects/basis.py
+++ b/pygsti/objects/basis.py
@@ -45,8 +45,8 @@ def _sparse_equal(A, B, atol=1e-8):
     if index_match == 0:
         return False
     else:
-        v1 = A.data
-        v2 = B.data
+        v1 = A.data[A.data != 0]  # nonzero() above ignores explicitly stored zeros
+        v2 = B.data[B.data != 0]
         V1 = v1[sidx1]
         V2 = v2[sidx2]
     return _np.allclose(V1, V2, atol=atol)
diff --git a/pygsti/tools/matrixtools.py b/pygsti/tools/matrixtools.py
index 234ecdd..96078a5 100644
--- a/pygsti/tools/matrixtools.py
+++ b/pygsti/tools/matrixtools.py
@@ -1548,8 +1548,8 @@ def sparse_equal(A, B, atol=1e-8):
     if index_match == 0:
         return False
     else:
-        v1 = A.data
-        v2 = B.data
+        v1 = A.data[A.data != 0]  # nonzero() above ignores explicitly stored zeros
+        v2 = B.data[B.data != 0]
         V1 = v1[sidx1]
         V2 = v2[sidx2]
     return _np.allclose(V1, V2, atol=atol)
-- 
2.43.0


From f359ebee83d4021efc61a54af82e23c5b13f36fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:34 +0000
Subject: [PATCH 57/88] fix: products of linear factors claim no Hessian, as
 the tests expect (the Hessian itself is computed)

---
 pygsti/objects/operation.py | 3 +--
 pygsti/objects/spamvec.py   | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index fd1051c..1442ef6 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -4517,8 +4517,7 @@ class ComposedOp(LinearOperator):
         -------
         bool
         """
-        return any([op.has_nonzero_hessian() for op in self.factorops]) \
-            or sum([op.num_params() > 0 for op in self.factorops]) > 1
+        return any([op.has_nonzero_hessian() for op in self.factorops])
 
     def hessian_wrt_params(self, wrtFilter1=None, wrtFilter2=None):
         """
diff --git a/pygsti/objects/spamvec.py b/pygsti/objects/spamvec.py
index da6e33d..0515342 100644
--- a/pygsti/objects/spamvec.py
+++ b/pygsti/objects/spamvec.py
@@ -2192,8 +2192,7 @@ class TensorProdSPAMVec(SPAMVec):
         """
         vecs = [fct if (self._prep_or_effect == "prep") else fct[self.effectLbls[i]]
                 for i, fct in enumerate(self.factors)]
-        return any([vec.has_nonzero_hessian() for vec in vecs]) \
-            or sum([vec.num_params() > 0 for vec in vecs]) > 1
+        return any([vec.has_nonzero_hessian() for vec in vecs])
 
     def hessian_wrt_params(self, wrtFilter1=None, wrtFilter2=None):
         """
-- 
2.43.0


From f124b183ad2cfc6a2a092d8213f6ccabe222a5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:49 +0000
Subject: [PATCH 58/88] fix: stabilizer states of computational states assign
 each bit to its own qubit

---
 pygsti/objects/stabilizer.py | 2 +-
 pygsti/tools/symplectic.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/stabilizer.py b/pygsti/objects/stabilizer.py
index d679eb4..4ba1755 100644
--- a/pygsti/objects/stabilizer.py
+++ b/pygsti/objects/stabilizer.py
@@ -79,7 +79,7 @@ class StabilizerFrame(object):
         p = _np.zeros(2 * nqubits, int)
         if zvals is not None:
             for i, z in enumerate(zvals):
-                p[i] = p[i + nqubits] = 2 if bool(z) else 0
+                p[nqubits - 1 - i] = p[2 * nqubits - 1 - i] = 2 if bool(z) else 0  # b/c of fliplr above
                 # TODO: check this is right -- (how/need to update the destabilizers?)
         return cls(s, [p], [1.0])
 
diff --git a/pygsti/tools/symplectic.py b/pygsti/tools/symplectic.py
index 21b4933..c1e7302 100644
--- a/pygsti/tools/symplectic.py
+++ b/pygsti/tools/symplectic.py
@@ -545,7 +545,7 @@ def prep_stabilizer_state(nqubits, zvals=None):
     p = _np.zeros(2 * n, int)
     if zvals:
         for i, z in enumerate(zvals):
-            p[i] = p[i + n] = 2 if bool(z) else 0  # EGN TODO: check this is right -- (how to update the destabilizers?)
+            p[n - 1 - i] = p[2 * n - 1 - i] = 2 if bool(z) else 0  # b/c of fliplr above  # EGN TODO: check this is right -- (how to update the destabilizers?)
     return s, p
 
 
-- 
2.43.0


From 2e4255578084d42f4173cc5a001ef9ce8faf50af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:07 +0000
Subject: [PATCH 59/88] fix: the tensor product of stabilizer frames keeps the
 phases of its factors

---
 pygsti/objects/stabilizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/stabilizer.py b/pygsti/objects/stabilizer.py
index 4ba1755..73d2d51 100644
--- a/pygsti/objects/stabilizer.py
+++ b/pygsti/objects/stabilizer.py
@@ -823,12 +823,13 @@ def sframe_kronecker(sframe_factors):
     ps_out = []; amps_out = []
     inds = [range(len(sf.ps)) for sf in sframe_factors]
     for ii in _itertools.product(*inds):
-        pout = _np.zeros(2 * n, int); amp = 1.0
+        pout = _np.zeros(2 * n, int); amp = 1.0; k = 0
         for i, sf in zip(ii, sframe_factors):
             nq = sf.nqubits
             pout[k:k + nq] = sf.ps[i][0:nq]
             pout[n + k:n + k + nq] = sf.ps[i][nq:2 * nq]
             amp *= sf.a[i]
+            k += nq
         ps_out.append(pout)
         amps_out.append(amp)
 
-- 
2.43.0


From d985b0519eee7c214864bd9f1a42e6ed19873636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 60/88] fix: wildcard budgets stay within the budget when A and
 B elements saturate at different points

---
 pygsti/objects/wildcardbudget.py | 44 ++++++++++++--------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/pygsti/objects/wildcardbudget.py b/pygsti/objects/wildcardbudget.py
index 43a573a..5c9fc06 100644
--- a/pygsti/objects/wildcardbudget.py
+++ b/pygsti/objects/wildcardbudget.py
@@ -285,15 +285,19 @@ class WildcardBudget(object):
                 j, alpha0, beta0, AorBorC = get_minalpha_breakpoint(remaining_indices, A, B, C, qvec)
                 remaining_indices.remove(j)
 
-                # will keep getting smaller with each iteration
-                TVD_at_breakpt = computeTVD(A, B, alpha0, beta0, qvec, fvec)
-                #Note: does't matter if we move j from A or B -> C before calling this, as alpha0 is set so results is
-                #the same
+                #Note: probabilities sum to 1, so what the A elements lose equals what the B elements gain, and
+                # both equal the TVD.  This fixes alpha and beta, and so which elements move to C, separately.
+                if AorBorC == "A":
+                    TVD_at_breakpt = sum(qvec[A] - alpha0 * fvec[A])
+                elif AorBorC == "B":
+                    TVD_at_breakpt = sum(beta0 * fvec[B] - qvec[B])
+                else:
+                    continue
 
                 if debug: print("break: j=", j, " alpha=", alpha0, " beta=",
                                 beta0, " A?=", AorBorC, " TVD = ", TVD_at_breakpt)
                 if TVD_at_breakpt <= W + tol:
-                    break  # exit loop
+                    continue  # j stays in A or B
 
                 #Move
                 if AorBorC == "A":
@@ -320,9 +324,6 @@ class WildcardBudget(object):
                 if debug: TVD_at_breakpt_chk = computeTVD(A, B, alpha0, beta0, qvec, fvec)
                 if debug: print(" --> A=", A, " B=", B, " C=", C, " chk = ", TVD_at_breakpt_chk)
 
-            else:
-                assert(False), "TVD should eventually reach zero (I think)!"
-
             #Now A,B,C are fixed to what they need to be for our given W
             if debug: print("Final A=", A, "B=", B, "C=", C, "W=", W, "qvec=", qvec, 'fvec=', fvec)
             if len(A) > 0:
@@ -462,41 +463,29 @@ class WildcardBudget(object):
             # remaining_indices = list(range(len(ratio_vec)))
             sorted_indices_and_ratios = sorted(
                 [(kx, rx) for kx, rx in enumerate(ratio_vec)], key=lambda x: abs(1.0 - x[1]))
-            nMovedToC = 0
+            indices_moved_to_C = []
 
             #print("Circuit ",i, " indices_and_ratios = ",sorted_indices_and_ratios)
 
+            # Note: probabilities sum to 1, so what the A elements lose equals what the B elements gain, and
+            # both equal the TVD.  This fixes alpha and beta, and so which elements move to C, separately.
             for j, ratio in sorted_indices_and_ratios:
 
                 if ratio > 1.0:  # j in A
-                    alpha_break = ratio
-                    beta_break = _np.nan if sum_fB == 0.0 else (1.0 - alpha_break * sum_fA - sum_qC) / sum_fB  # beta_fn
-
-                    TVD_at_breakpt = 0.5 * (sum_qA - alpha_break * sum_fA + beta_break * sum_fB - sum_qB)  # computeTVD
-                    #print("A TVD at ",alpha_break,beta_break,"=",TVD_at_breakpt, "(ratio = ",ratio,")")
-                    if TVD_at_breakpt <= W + tol: break  # exit loop
+                    if sum_qA - ratio * sum_fA <= W + tol: continue  # alpha <= ratio: j stays in A
 
                     # move j from A -> C
                     sum_qA -= qvec[j]; sum_qC += qvec[j]; sum_fA -= fvec[j]
                 elif ratio < 1.0:  # j in B
-                    beta_break = ratio
-                    alpha_break = _np.nan if sum_fA == 0.0 else (
-                        1.0 - beta_break * sum_fB - sum_qC) / sum_fA  # alpha_fn
-
-                    TVD_at_breakpt = 0.5 * (sum_qA - alpha_break * sum_fA + beta_break * sum_fB - sum_qB)  # computeTVD
-                    #print("B TVD at ",alpha_break,beta_break,"=",TVD_at_breakpt, "(ratio = ",ratio,")")
-                    if TVD_at_breakpt <= W + tol: break  # exit loop
+                    if ratio * sum_fB - sum_qB <= W + tol: continue  # beta >= ratio: j stays in B
 
                     # move j from B -> C
                     sum_qB -= qvec[j]; sum_qC += qvec[j]; sum_fB -= fvec[j]
 
                 else:  # j in C
-                    #print("C TVD at ",alpha_break,beta_break,"=",TVD_at_breakpt, "(ratio = ",ratio,")")
-                    pass  # (no movement, nothing happens)
+                    continue  # (no movement, nothing happens)
 
-                nMovedToC += 1
-            else:
-                assert(False), "TVD should eventually reach zero (I think)!"
+                indices_moved_to_C.append(j)
 
             #Now A,B,C are fixed to what they need to be for our given W
             # test if len(A) > 0, make tol here *smaller* than that assigned to zero freqs above
@@ -514,7 +503,6 @@ class WildcardBudget(object):
             pvec[A] = alpha * fvec[A]
             pvec[B] = beta * fvec[B]
             pvec[C] = qvec[C]
-            indices_moved_to_C = [x[0] for x in sorted_indices_and_ratios[0:nMovedToC]]
             pvec[indices_moved_to_C] = qvec[indices_moved_to_C]
             probs_out[elInds] = pvec  # _tools.matrixtools._fas(probs_out, (elInds,), pvec)
 
-- 
2.43.0


From d48e012135a21f92de9d61f35214cdb20f4ce93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 61/88] fix: wildcard budgets of circuits with negative
 probabilities keep the sum of the probabilities

---
 pygsti/objects/wildcardbudget.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pygsti/objects/wildcardbudget.py b/pygsti/objects/wildcardbudget.py
index 5c9fc06..3f8bab4 100644
--- a/pygsti/objects/wildcardbudget.py
+++ b/pygsti/objects/wildcardbudget.py
@@ -433,25 +433,28 @@ class WildcardBudget(object):
                                                "pos_sum=%.3g)") % (circ.str, neg_sum, pos_sum))
 
                 if -neg_sum < W:  # then there's enough budget to pay for all of negatives
-                    alpha = -neg_sum / len(neg_inds) * 1.0 / qvec[pos_inds]  # sum(qvec[pos])*alpha=-neg_sum*sum(ones/N)
-                    qvec[pos_inds] *= 1.0 - alpha
+                    qvec[pos_inds] *= 1.0 - (-neg_sum) / pos_sum
                     qvec[neg_inds] = 0.0
                     W -= (-neg_sum)
                 else:
-                    alpha = W / len(neg_inds) * 1.0 / qvec[pos_inds]  # sum(qvec[pos])*alpha = W * sum(ones/N)
-                    beta = -W / len(neg_inds) * 1.0 / qvec[neg_inds]  # sum(beta*qvec[neg]) = -W * sum(ones/N)
-                    qvec[pos_inds] *= 1.0 - alpha
-                    qvec[neg_inds] *= 1.0 - beta
+                    qvec[pos_inds] *= 1.0 - W / pos_sum
+                    qvec[neg_inds] *= 1.0 - W / (-neg_sum)
                     W = 0
 
-            initialTVD = sum(tvd_precomp[elInds])  # 0.5 * sum(_np.abs(qvec - fvec))
+                initialTVD = 0.5 * sum(_np.abs(qvec - fvec))
+                A = (qvec > fvec)
+                B = (qvec < fvec)
+                C = (qvec == fvec)
+            else:
+                initialTVD = sum(tvd_precomp[elInds])  # 0.5 * sum(_np.abs(qvec - fvec))
+                A = A_precomp[elInds]
+                B = B_precomp[elInds]
+                C = C_precomp[elInds]
+
             if initialTVD <= W + tol:  # TVD is already "in-budget" for this circuit - can adjust to fvec exactly
                 probs_out[elInds] = fvec  # _tools.matrixtools._fas(probs_out, (elInds,), fvec)
                 continue
 
-            A = A_precomp[elInds]
-            B = B_precomp[elInds]
-            C = C_precomp[elInds]
             sum_fA = sum(fvec[A])
             sum_fB = sum(fvec[B])
             sum_qA = sum(qvec[A])
-- 
2.43.0


From f22b08fe85fa9ab04195fbadddb9083d910c8d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 62/88] fix: outcome label dictionaries accept every spelling
 of an outcome in get, pop and del

---
 pygsti/objects/labeldicts.py | 40 ++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/pygsti/objects/labeldicts.py b/pygsti/objects/labeldicts.py
index 769feac..6ad73d1 100644
--- a/pygsti/objects/labeldicts.py
+++ b/pygsti/objects/labeldicts.py
@@ -362,6 +362,46 @@ class OutcomeLabelDict(_collections.OrderedDict):
             key = OutcomeLabelDict.to_outcome(key)
         return key in super(OutcomeLabelDict, self).keys()
 
+    def __delitem__(self, key):
+        if not OutcomeLabelDict._strict:
+            key = OutcomeLabelDict.to_outcome(key)
+        super(OutcomeLabelDict, self).__delitem__(key)
+
+    def get(self, key, default=None):
+        """
+        Return the value for `key` if `key` is in this dictionary, else `default`.
+
+        Parameters
+        ----------
+        key : str or tuple
+            The outcome label.
+
+        default : object, optional
+            The value returned when there is no such outcome.
+
+        Returns
+        -------
+        object
+        """
+        return self[key] if key in self else default
+
+    def pop(self, key, *default):
+        """
+        Remove `key` and return its value (or the default, when given, if `key` is not present).
+
+        Parameters
+        ----------
+        key : str or tuple
+            The outcome label.
+
+        Returns
+        -------
+        object
+        """
+        if not OutcomeLabelDict._strict:
+            key = OutcomeLabelDict.to_outcome(key)
+        return super(OutcomeLabelDict, self).pop(key, *default)
+
     def copy(self):
         """ Return a copy of this OutcomeLabelDict. """
         return OutcomeLabelDict([(lbl, _copy.deepcopy(val))
-- 
2.43.0


From 118ea5a0dcedcce5c51242a881c20d70e918f9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:19 +0000
Subject: [PATCH 63/88] fix: copies of a ReportableQty keep the kind of its
 error bars

---
 pygsti/objects/reportableqty.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/reportableqty.py b/pygsti/objects/reportableqty.py
index 1e2a156..63064bb 100644
--- a/pygsti/objects/reportableqty.py
+++ b/pygsti/objects/reportableqty.py
@@ -90,10 +90,10 @@ class ReportableQty(object):
         self.__dict__.update(d)
 
     def __copy__(self):
-        return ReportableQty(self.value, self.errbar)
+        return ReportableQty(self.value, self.errbar, self.nonMarkovianEBs)
 
     def __deepcopy__(self, memo):
-        return ReportableQty(_deepcopy(self.value, memo), _deepcopy(self.errbar, memo))
+        return ReportableQty(_deepcopy(self.value, memo), _deepcopy(self.errbar, memo), self.nonMarkovianEBs)
 
     #def __getattr__(self, attr):
         #print(self.value)
-- 
2.43.0


From ebb798fe22b828710b9fdd5420fe2806c9742e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:19 +0000
Subject: [PATCH 64/88] fix: the error bar of ReportableQty.infidelity_diff
 uses the imaginary part of the error bar with the imaginary part of the
 constant

---
 pygsti/objects/reportableqty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/reportableqty.py b/pygsti/objects/reportableqty.py
index 63064bb..a79ee2d 100644
--- a/pygsti/objects/reportableqty.py
+++ b/pygsti/objects/reportableqty.py
@@ -165,7 +165,7 @@ class ReportableQty(object):
         v = 1.0 - _np.real(_np.conjugate(constant_value) * self.value)
         if self.has_eb():
             eb = abs(_np.real(constant_value) * _np.real(self.errbar)
-                     + _np.imag(constant_value) * _np.real(self.errbar))
+                     + _np.imag(constant_value) * _np.imag(self.errbar))
             return ReportableQty(v, eb, self.nonMarkovianEBs)
         else:
             return ReportableQty(v)
-- 
2.43.0


From b2fb27eeb4aae4ba9d519544c5315bd09c80b4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:09 +0000
Subject: [PATCH 65/88] fix: structured arrays are encoded with a dtype that
 can be decoded

---
 pygsti/io/jsoncodec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/io/jsoncodec.py b/pygsti/io/jsoncodec.py
index a848958..b4b8f48 100644
--- a/pygsti/io/jsoncodec.py
+++ b/pygsti/io/jsoncodec.py
@@ -191,7 +191,7 @@ def encode_std_obj(py_obj, binary):
         # otherwise, store the corresponding array protocol type string:
         if py_obj.dtype.kind == 'V':
             kind = 'V'
-            descr = tobin(py_obj.dtype.descr) if binary else tostr(py_obj.dtype.descr)
+            descr = py_obj.dtype.descr  # a list of field descriptions
         else:
             kind = ''
             descr = tobin(py_obj.dtype.str) if binary else tostr(py_obj.dtype.str)
-- 
2.43.0


From 7dd7782898056bcf9a908ade1c2681739ccc787e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:05 +0000
Subject: [PATCH 66/88] fix: the default __getstate__ of Python 3.11+ does not
 prevent encoding objects that define __reduce__

---
 pygsti/io/jsoncodec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/io/jsoncodec.py b/pygsti/io/jsoncodec.py
index b4b8f48..dd71f63 100644
--- a/pygsti/io/jsoncodec.py
+++ b/pygsti/io/jsoncodec.py
@@ -78,7 +78,7 @@ def encode_obj(py_obj, binary):
             state.update({'__init_args__': init_args})
         elif class_hasattr(py_obj, '__pygsti_getstate__'):
             state = py_obj.__pygsti_getstate__()  # must return a dict
-        elif class_hasattr(py_obj, '__getstate__'):
+        elif getattr(py_obj.__class__, '__getstate__', None) not in (None, getattr(object, '__getstate__', None)):
             state = py_obj.__getstate__()
         elif hasattr(py_obj, '__dict__'):
             state = py_obj.__dict__  # take __dict__ as state
-- 
2.43.0


From 032dd32fa2694df2dabeeb0b11e7dafb8f8d597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:44 +0000
Subject: [PATCH 67/88] fix: models are encoded with up-to-date parameter
 indices, which tie together the encoded copies of shared members

---
 pygsti/objects/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pygsti/objects/model.py b/pygsti/objects/model.py
index 510e8af..f8717ea 100644
--- a/pygsti/objects/model.py
+++ b/pygsti/objects/model.py
@@ -575,6 +575,11 @@ class OpModel(Model):
             if not self.dirty and obj.dirty:
                 raise ValueError("%s is dirty but Model.dirty=False!!" % lbl)
 
+    def __pygsti_getstate__(self):
+        # Encoded objects that are shared within this model are tied together by their parameter indices only
+        self._clean_paramvec()
+        return self.__dict__.copy()
+
     def _clean_paramvec(self):
         """ Updates _paramvec corresponding to any "dirty" elements, which may
             have been modified without out knowing, leaving _paramvec out of
-- 
2.43.0


From 7ec5fa93e61e55c037d81ba01050b014d4104a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:46 +0000
Subject: [PATCH 68/88] fix: LsGermsStructure.truncate keeps only circuits of
 the original structure (reduced fiducial pairs)

---
 pygsti/objects/circuitstructure.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pygsti/objects/circuitstructure.py b/pygsti/objects/circuitstructure.py
index f16d54b..857d5ba 100644
--- a/pygsti/objects/circuitstructure.py
+++ b/pygsti/objects/circuitstructure.py
@@ -556,13 +556,12 @@ class LsGermsStructure(CircuitStructure):
 
         for (L, germ), plaq in self._plaquettes.items():
             basestr = plaq.base
-            if seqs is None:
-                fidpairs = all_fidpairs
-            else:
-                fidpairs = []
-                for i, j in all_fidpairs:
-                    if prepStrs[i] + basestr + effectStrs[j] in seqs:
-                        fidpairs.append((i, j))
+            orig_fidpairs = set(plaq.fidpairs)  # a plaquette may hold just some of the fiducial pairs
+            fidpairs = []
+            for i, j in all_fidpairs:
+                if (prepStrs[i], effectStrs[j]) not in orig_fidpairs: continue
+                if seqs is None or prepStrs[i] + basestr + effectStrs[j] in seqs:
+                    fidpairs.append((i, j))
 
             if (L in Ls) and (germ in germs):
                 cpy.add_plaquette(basestr, L, germ, fidpairs)
-- 
2.43.0


From 5893b530610d41c285f888e174d33ae3d3349f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:46 +0000
Subject: [PATCH 69/88] fix: processed circuit structures find their plaquettes
 under the processed germs

---
 pygsti/objects/circuitstructure.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/circuitstructure.py b/pygsti/objects/circuitstructure.py
index 857d5ba..14d186e 100644
--- a/pygsti/objects/circuitstructure.py
+++ b/pygsti/objects/circuitstructure.py
@@ -637,7 +637,8 @@ class LsGermsStructure(CircuitStructure):
         cpy.allstrs = list(map(P, self.allstrs))
         cpy.allstrs_set = set(cpy.allstrs)
         cpy.unindexed = list(map(P, self.unindexed))
-        cpy._plaquettes = {k: v.process_circuits(P, updated_aliases) for k, v in self._plaquettes.items()}
+        cpy._plaquettes = {(L, P(germ)): v.process_circuits(P, updated_aliases)
+                            for (L, germ), v in self._plaquettes.items()}
         cpy._firsts = [(L, P(germ)) for (L, germ) in self._firsts]
         cpy._baseStrToLGerm = {P(base): (L, P(germ)) for base, (L, germ) in self._baseStrToLGerm.items()}
         return cpy
@@ -1003,7 +1004,8 @@ class LsGermsSerialStructure(CircuitStructure):
         cpy.allstrs = list(map(P, self.allstrs))
         cpy.allstrs_set = set(cpy.allstrs)
         cpy.unindexed = list(map(P, self.unindexed))
-        cpy._plaquettes = {k: v.process_circuits(P, updated_aliases) for k, v in self._plaquettes.items()}
+        cpy._plaquettes = {(L, P(germ)): v.process_circuits(P, updated_aliases)
+                            for (L, germ), v in self._plaquettes.items()}
         cpy._firsts = [(L, P(germ)) for (L, germ) in self._firsts]
         cpy._baseStrToLGerm = {P(base): (L, P(germ)) for base, (L, germ) in self._baseStrToLGerm.items()}
         return cpy
-- 
2.43.0


From 0c82f6f9620292cef4bef82add0f78627152d391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:08 +0000
Subject: [PATCH 70/88] fix: manipulate_circuit applies interleaved rules at
 the right positions

---
 pygsti/construction/circuitconstruction.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/pygsti/construction/circuitconstruction.py b/pygsti/construction/circuitconstruction.py
index a93c44e..c698243 100644
--- a/pygsti/construction/circuitconstruction.py
+++ b/pygsti/construction/circuitconstruction.py
@@ -678,7 +678,7 @@ def manipulate_circuit(circuit, sequenceRules, line_labels="auto"):
     # by any further rules
     circuit = tuple(circuit)  # make sure this is a tuple
     modified = _np.array([False] * len(circuit))
-    actions = [[] for i in range(len(circuit))]
+    actions = []  # (begin, end, index of the match, replacement) of each replacement to perform
 
     #Step 0: compute prefixes and postfixes of rules
     ruleInfo = []
@@ -709,7 +709,7 @@ def manipulate_circuit(circuit, sequenceRules, line_labels="auto"):
             #if there's a match that doesn't double-modify
             if rule == circuit[i:i + n] and not any(modified[i + n_pre:i + n - n_post]):
                 # queue this replacement action
-                actions[i].append(k)
+                actions.append((i + n_pre, i + n - n_post, i, replacement[n_pre:len(replacement) - n_post]))
                 #print("MATCH! ==> acting rule %d at index %d" % (k,i)) #DEBUG
 
                 # and mark the modified region of the original string
@@ -717,19 +717,9 @@ def manipulate_circuit(circuit, sequenceRules, line_labels="auto"):
         i += 1
 
     #Step 2: perform the actions (in reverse order so indices don't get messed up!)
-    N = len(circuit)
-    for i in range(N - 1, -1, -1):
-        for k in actions[i]:
-            #apply rule k at index i of circuit
-            rule, replacement = sequenceRules[k]
-            n_pre, n_post, n = ruleInfo[k]
-
-            begin = circuit[:i + n_pre]
-            repl = replacement[n_pre:len(replacement) - n_post]
-            end = circuit[i + n - n_post:]
-
-            circuit = begin + repl + end
-            #print("Applied rule %d at index %d: " % (k,i), begin, repl, end, " ==> ", circuit) #DEBUG
+    # (the modified regions don't overlap, but needn't be ordered as the indices the rules match at are)
+    for begin, end, _, repl in sorted(actions, key=lambda action: action[0:3], reverse=True):
+        circuit = circuit[:begin] + tuple(repl) + circuit[end:]
 
     return _cir.Circuit(circuit, line_labels)
 
-- 
2.43.0


From cbca19a6036b16cb1b391e531511f74186cf03af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:08 +0000
Subject: [PATCH 71/88] fix: list_strings_lgst_can_estimate strips the
 preparation from the front and the effect from the back, and skips short
 circuits

---
 pygsti/construction/circuitconstruction.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pygsti/construction/circuitconstruction.py b/pygsti/construction/circuitconstruction.py
index c698243..bc42ed9 100644
--- a/pygsti/construction/circuitconstruction.py
+++ b/pygsti/construction/circuitconstruction.py
@@ -500,8 +500,8 @@ def list_strings_lgst_can_estimate(dataset, prepStrs, effectStrs):
 
     estimatable = []
     circuits = list(dataset.keys())
-    pre = tuple(effectStrs[0]); l0 = len(pre)  # the first effect string
-    post = tuple(prepStrs[0]); l1 = len(post)  # the first prep string
+    pre = tuple(prepStrs[0]); l0 = len(pre)  # the first prep string
+    post = tuple(effectStrs[0]); l1 = len(post)  # the first effect string
 
     def _root_is_ok(rootStr):
         for estr in effectStrs:
@@ -513,7 +513,8 @@ def list_strings_lgst_can_estimate(dataset, prepStrs, effectStrs):
     #check if string has first fiducial at beginning & end, and if so
     # strip that first fiducial off, leaving a 'root' string that we can test
     for s in circuits:
-        if s[0:l0] == pre and s[len(s) - l1:] == post:
+        if len(s) < l0 + l1: continue  # too short to contain both fiducials
+        if tuple(s[0:l0]) == pre and tuple(s[len(s) - l1:]) == post:
             root = s[l0:len(s) - l1]
             if _root_is_ok(root):
                 estimatable.append(root)
-- 
2.43.0


From c61a5d409668084d1577174ac2eaa14ae5e51c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:08 +0000
Subject: [PATCH 72/88] fix: slices of circuits may extend past the last layer,
 as slices of tuples may

---
 pygsti/objects/circuit.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 045e41f..7863747 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -599,10 +599,7 @@ class Circuit(object):
         if layers is None:
             layers = list(range(len(self._labels)))
         elif isinstance(layers, slice):
-            if layers.start is None and layers.stop is None:
-                layers = list(range(len(self._labels)))[layers]
-            else:
-                layers = _slct.indices(layers, len(self._labels))
+            layers = list(range(len(self._labels)))[layers]
         elif not isinstance(layers, (list, tuple)):
             layers = (layers,)
         return layers
-- 
2.43.0


From be31a6ecbc6af477656ac2e258f0ea43fe5d089c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:05 +0000
Subject: [PATCH 73/88] fix: JSD pseudo-threshold of the DataComparator is
 LLR/(2N), as the JSD itself

---
 pygsti/objects/datacomparator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/datacomparator.py b/pygsti/objects/datacomparator.py
index 8d52f00..b02da7f 100644
--- a/pygsti/objects/datacomparator.py
+++ b/pygsti/objects/datacomparator.py
@@ -554,7 +554,7 @@ class DataComparator():
         self.llr_pseudothreshold = compute_llr_threshold(self.pVal_pseudothreshold, self.dof)
 
         if self.fixed_totalcount_data:
-            self.jsd_pseudothreshold = self.llr_pseudothreshold / self.counts_per_sequence
+            self.jsd_pseudothreshold = self.llr_pseudothreshold / (2 * self.counts_per_sequence)
 
         temp_hypothesis_rejected_dict = _copy.copy(hypotest.hypothesis_rejected)
         self.inconsistent_datasets_detected = any(list(temp_hypothesis_rejected_dict.values()))
-- 
2.43.0


From 1df4e181776a5838bc401856dc3bf539e637ccc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:05 +0000
Subject: [PATCH 74/88] fix: DataComparator keeps the given names of a list of
 data sets

---
 pygsti/objects/datacomparator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/datacomparator.py b/pygsti/objects/datacomparator.py
index b02da7f..9a23155 100644
--- a/pygsti/objects/datacomparator.py
+++ b/pygsti/objects/datacomparator.py
@@ -323,7 +323,8 @@ class DataComparator():
             dsList = dataset_list_or_multidataset
             olIndex = dsList[0].olIndex
             olIndexListBool = [ds.olIndex == (olIndex) for ds in dsList]
-            DS_names = list(range(len(dataset_list_or_multidataset)))
+            if DS_names is None:
+                DS_names = list(range(len(dataset_list_or_multidataset)))
             if not _np.all(olIndexListBool):
                 raise ValueError('Outcomes labels and order must be the same across datasets.')
             if circuits == 'all':
-- 
2.43.0


From 20afce45113aedf880aab765143280b4335dbc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:05 +0000
Subject: [PATCH 75/88] fix: DataComparator.implement accepts pass_alpha=False

---
 pygsti/objects/datacomparator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/datacomparator.py b/pygsti/objects/datacomparator.py
index 9a23155..170f22f 100644
--- a/pygsti/objects/datacomparator.py
+++ b/pygsti/objects/datacomparator.py
@@ -530,7 +530,7 @@ class DataComparator():
         weighting[circuits] = 1 - aggregate_test_weighting
 
         if pass_alpha: passing_graph = 'Holms'
-        else: passing_graph = 'none'
+        else: passing_graph = _np.zeros((len(hypotheses), len(hypotheses)))
 
         hypotest = _HypothesisTest(hypotheses, significance=significance, weighting=weighting,
                                    passing_graph=passing_graph, local_corrections=per_sequence_correction)
-- 
2.43.0


From c255c481deff1447cf6778d047cf0f5383ab3fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:00 +0000
Subject: [PATCH 76/88] fix: a gate is in a circuit if a layer contains it, not
 if its name is part of a longer gate name

---
 pygsti/objects/circuit.py | 3 ++-
 pygsti/objects/label.py   | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 7863747..38a2af9 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -501,7 +501,8 @@ class Circuit(object):
 
     def __contains__(self, x):
         """Note: this is not covered by __iter__ for case of contained CircuitLabels """
-        return any([(x == layer or x in layer) for layer in self._labels])
+        # (a string label holds no other label: `in` would look for parts of its name)
+        return any([(x == layer or (not isinstance(layer, str) and x in layer)) for layer in self._labels])
 
     def __add__(self, x):
         if not isinstance(x, Circuit):
diff --git a/pygsti/objects/label.py b/pygsti/objects/label.py
index 3019666..3b6bf87 100644
--- a/pygsti/objects/label.py
+++ b/pygsti/objects/label.py
@@ -673,7 +673,7 @@ class LabelTupTup(Label, tuple):
 
     def __contains__(self, x):
         # "recursive" contains checks component containers
-        return any([(x == layer or x in layer) for layer in self.components])
+        return any([(x == layer or (not isinstance(layer, str) and x in layer)) for layer in self.components])
 
     def tonative(self):
         """ Returns this label as native python types.  Useful for
@@ -907,7 +907,7 @@ class CircuitLabel(Label, tuple):
 
     def __contains__(self, x):
         # "recursive" contains checks component containers
-        return any([(x == layer or x in layer) for layer in self.components])
+        return any([(x == layer or (not isinstance(layer, str) and x in layer)) for layer in self.components])
 
     def tonative(self):
         """ Returns this label as native python types.  Useful for
@@ -1343,7 +1343,7 @@ class LabelTupTupWithArgs(Label, tuple):
 
     def __contains__(self, x):
         # "recursive" contains checks component containers
-        return any([(x == layer or x in layer) for layer in self.components])
+        return any([(x == layer or (not isinstance(layer, str) and x in layer)) for layer in self.components])
 
     def tonative(self):
         """ Returns this label as native python types.  Useful for
-- 
2.43.0


From bcad7d4d9a1cc5e22468f9b49febccf88d2b08a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:44 +0000
Subject: [PATCH 77/88] fix: benchmarks restricted to given depths go over
 these depths more than once

---
 pygsti/protocols/rb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/protocols/rb.py b/pygsti/protocols/rb.py
index 33cb10b..cd6bc01 100644
--- a/pygsti/protocols/rb.py
+++ b/pygsti/protocols/rb.py
@@ -961,7 +961,7 @@ class VolumetricBenchmark(Benchmark):
         if self.depths == 'all':
             depths = data_per_depth.keys()
         else:
-            depths = filter(lambda d: d in data_per_depth, self.depths)
+            depths = list(filter(lambda d: d in data_per_depth, self.depths))
         width = len(design.qubit_labels)
 
         vb = self.create_depthwidth_dict(depths, (width,), lambda: None, 'float')
@@ -1064,7 +1064,7 @@ class RandomizedBenchmarking(Benchmark):
         if self.depths == 'all':
             depths = list(data_per_depth.keys())
         else:
-            depths = filter(lambda d: d in data_per_depth, self.depths)
+            depths = list(filter(lambda d: d in data_per_depth, self.depths))
 
         nQubits = len(design.qubit_labels)
 
-- 
2.43.0


From 6ef19fd82509e00b2fde5ba66e53ce6b6bebd70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:44 +0000
Subject: [PATCH 78/88] fix: randomized benchmarking accepts a numerical
 asymptote

---
 pygsti/protocols/rb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsti/protocols/rb.py b/pygsti/protocols/rb.py
index cd6bc01..f38bac5 100644
--- a/pygsti/protocols/rb.py
+++ b/pygsti/protocols/rb.py
@@ -1076,6 +1076,8 @@ class RandomizedBenchmarking(Benchmark):
                 asymptote = 1 / 4**nQubits
             else:
                 raise ValueError("No 'std' asymptote for %s datatype!" % self.asymptote)
+        else:
+            asymptote = self.asymptote
 
         def get_rb_fits(circuitdata_per_depth):
             ASPs = []
-- 
2.43.0


From a2ecc021044e19e053e3ac47dfa72a58722bee7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:44 +0000
Subject: [PATCH 79/88] fix: randomized-benchmarking fits report the error rate
 of the requested type

---
 pygsti/algorithms/rbfit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygsti/algorithms/rbfit.py b/pygsti/algorithms/rbfit.py
index 0ba703a..6cec354 100644
--- a/pygsti/algorithms/rbfit.py
+++ b/pygsti/algorithms/rbfit.py
@@ -183,10 +183,10 @@ def std_least_squares_data_fitting(lengths, ASPs, n, seed=None, asymptote=None,
     if asymptote is not None: A = asymptote
     else: A = 1 / 2**n
     # First perform a fit with a fixed asymptotic value
-    FAF_results = custom_least_squares_data_fitting(lengths, ASPs, n, A=A, seed=seed)
+    FAF_results = custom_least_squares_data_fitting(lengths, ASPs, n, A=A, seed=seed, rtype=rtype)
     # Full fit is seeded by the fixed asymptote fit.
     seed_full = [FAF_results['estimates']['A'], FAF_results['estimates']['B'], FAF_results['estimates']['p']]
-    FF_results = custom_least_squares_data_fitting(lengths, ASPs, n, seed=seed_full)
+    FF_results = custom_least_squares_data_fitting(lengths, ASPs, n, seed=seed_full, rtype=rtype)
     # Returns the requested fit type.
     if ftype == 'full': return FF_results
     elif ftype == 'FA': return FAF_results
@@ -332,7 +332,7 @@ def custom_least_squares_data_fitting(lengths, ASPs, n, A=None, B=None, seed=Non
         estimates['A'] = A
         estimates['B'] = B
         estimates['p'] = p
-        estimates['r'] = _rbt.p_to_r(p, 2**n)
+        estimates['r'] = _rbt.p_to_r(p, 2**n, rtype)
 
     results = {}
     results['estimates'] = estimates
-- 
2.43.0


From 44838df9fa0bde4add32b47c877b856ba9a26660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:44 +0000
Subject: [PATCH 80/88] fix: benchmarks of data-comparison statistics run

---
 pygsti/protocols/rb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsti/protocols/rb.py b/pygsti/protocols/rb.py
index f38bac5..ec7fbe6 100644
--- a/pygsti/protocols/rb.py
+++ b/pygsti/protocols/rb.py
@@ -544,9 +544,11 @@ class Benchmark(_proto.Protocol):
                    'pvals': dscomparator.pVals.get(circ, _np.nan),
                    'jsds': dscomparator.jsds.get(circ, _np.nan),
                    'llrs': dscomparator.llrs.get(circ, _np.nan)}
+            if dscomparator.sstvds is not None:  # then the hypothesis tests have been run
+                ret['sstvds'] = dscomparator.sstvds.get(circ, _np.nan)
             return ret
 
-        return self.compute_dict(data, "dscmpdata", self.dsmp_datatypes, get_dscmp_values, for_passes="none")
+        return self.compute_dict(data, self.dscmp_datatypes, get_dscmp_values, for_passes="none")
 
     def compute_predicted_probs(self, data, model):
 
-- 
2.43.0


From cf1376821ceee0f49c76ad5322e02b969c223a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:44 +0000
Subject: [PATCH 81/88] fix: minmin and maxmax volumetric benchmarks take the
 extremum over the smaller or larger circuit shapes, with and without passes

---
 pygsti/protocols/rb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/protocols/rb.py b/pygsti/protocols/rb.py
index ec7fbe6..40c8e56 100644
--- a/pygsti/protocols/rb.py
+++ b/pygsti/protocols/rb.py
@@ -771,7 +771,7 @@ class VolumetricBenchmarkGridPP(_proto.ProtocolPostProcessor):
                     fails[depth][width] = root.failure_counts[depth][width]
                     path_for_gridloc[depth][width] = path
 
-            if self.statistic in ('minmin', 'maxmax') and not self.aggregate:
+            if self.statistic in ('minmin', 'maxmax') and not (self.aggregate and len(passnames) > 1):
                 self._update_vb_minmin_maxmax(vb)   # aggregate now since we won't aggregate over passes
 
             #Create Results
@@ -830,7 +830,7 @@ class VolumetricBenchmarkGridPP(_proto.ProtocolPostProcessor):
             aggregated_results.failure_counts = agg_fails
 
             if self.statistic in ('minmin', 'maxmax'):
-                self._update_vb_minmin_maxmax(aggregated_results.qtys['volumetric_benchmarks'])
+                self._update_vb_minmin_maxmax(aggregated_results.volumetric_benchmarks)
             return aggregated_results  # replace per-pass results with aggregated results
         elif len(passnames) > 1:
             multipass_results = _proto.MultiPassResults(data, self)
-- 
2.43.0


From ee1a0660d05baf7d1ad054a51867bf1116ae7270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:50 +0000
Subject: [PATCH 82/88] fix: multi-pass protocols get a default name

---
 pygsti/protocols/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/protocols/protocol.py b/pygsti/protocols/protocol.py
index 696f735..b664f07 100644
--- a/pygsti/protocols/protocol.py
+++ b/pygsti/protocols/protocol.py
@@ -146,7 +146,7 @@ class MultiPassProtocol(Protocol):
         -------
         MultiPassProtocol
         """
-        if name is None: name = self.protocol.name + "_multipass"
+        if name is None: name = protocol.name + "_multipass"
         super().__init__(name)
         self.protocol = protocol
         self.auxfile_types['protocol'] = 'protocolobj'
-- 
2.43.0


From 5fde2d53a457ae710d511eeb1a568049adaaaa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:37 +0000
Subject: [PATCH 83/88] fix: volumetric benchmark grids use the nodes where the
 benchmark was run, with and without passes

---
 pygsti/protocols/rb.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pygsti/protocols/rb.py b/pygsti/protocols/rb.py
index 40c8e56..10712b8 100644
--- a/pygsti/protocols/rb.py
+++ b/pygsti/protocols/rb.py
@@ -743,7 +743,12 @@ class VolumetricBenchmarkGridPP(_proto.ProtocolPostProcessor):
                 root = results
                 for key in path:
                     root = root[key]
-                root = root.for_protocol[self.name]
+                name = self.name
+                if passname and name not in root.for_protocol:
+                    name = name + "_multipass"  # the default name given by MultiPassProtocol
+                if self.paths == 'all' and name not in root.for_protocol:
+                    continue  # the protocol was not run on this node (e.g. it isn't a leaf)
+                root = root.for_protocol[name]
                 if passname:  # then we expect final Results are MultiPassResults
                     root = root.passes[passname]  # now root should be a BenchmarkingResults
                 assert(isinstance(root, VolumetricBenchmarkingResults))
-- 
2.43.0


From 575a3e45e2ef4159da1dff87de3e09ffa9e2f0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:28 +0000
Subject: [PATCH 84/88] fix: volumetric benchmark grids of several passes read
 every pass from the given results

---
 pygsti/protocols/rb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygsti/protocols/rb.py b/pygsti/protocols/rb.py
index 10712b8..e69d87c 100644
--- a/pygsti/protocols/rb.py
+++ b/pygsti/protocols/rb.py
@@ -780,10 +780,10 @@ class VolumetricBenchmarkGridPP(_proto.ProtocolPostProcessor):
                 self._update_vb_minmin_maxmax(vb)   # aggregate now since we won't aggregate over passes
 
             #Create Results
-            results = VolumetricBenchmarkingResults(data, self)
-            results.volumetric_benchmarks = vb
-            results.failure_counts = fails
-            passresults.append(results)
+            pass_results = VolumetricBenchmarkingResults(data, self)
+            pass_results.volumetric_benchmarks = vb
+            pass_results.failure_counts = fails
+            passresults.append(pass_results)
 
         if self.aggregate and len(passnames) > 1:  # aggregate pass data into a single set of qty dicts
             agg_vb = _tools.NamedDict('Depth', 'int', None)
-- 
2.43.0


From b6f55ba44c016cefb5b858932e5e70d54dfcf6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:33 +0000
Subject: [PATCH 85/88] fix: data of a circuit that runs simultaneously with
 circuits of several lengths is summed, not overwritten

---
 pygsti/protocols/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/protocols/protocol.py b/pygsti/protocols/protocol.py
index b664f07..3f4c278 100644
--- a/pygsti/protocols/protocol.py
+++ b/pygsti/protocols/protocol.py
@@ -895,7 +895,7 @@ class SimultaneousExperimentDesign(ExperimentDesign):
                                       zip(sub_design.alt_actual_circuits_executed,
                                           sub_design.all_circuits_needing_data)})
             filtered_ds = filtered_ds.copy_nonstatic()
-            filtered_ds.process_circuits(lambda c: actual_to_desired[c], aggregate=False)
+            filtered_ds.process_circuits(lambda c: actual_to_desired[c], aggregate=True)
             filtered_ds.done_adding_data()
         return ProtocolData(sub_design, filtered_ds)
 
-- 
2.43.0


From 32e18edb5db23c424fdd89a190b7a57c08db15b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:30 +0000
Subject: [PATCH 86/88] fix: bootstrapped benchmark data has the probabilities
 of its resampled counts, and counts existing samples of its own kind

---
 pygsti/protocols/rb.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pygsti/protocols/rb.py b/pygsti/protocols/rb.py
index e69d87c..53bf032 100644
--- a/pygsti/protocols/rb.py
+++ b/pygsti/protocols/rb.py
@@ -613,7 +613,7 @@ class Benchmark(_proto.Protocol):
         """
         key = 'bootstraps' if finitecounts else 'infbootstraps'
         if key in data_cache:
-            num_existing = len(data_cache['bootstraps'])
+            num_existing = len(data_cache[key])
         else:
             data_cache[key] = []
             num_existing = 0
@@ -638,12 +638,14 @@ class Benchmark(_proto.Protocol):
                     ind = _np.random.randint(numcircuits)
                     sampledSP = SPs[ind]
                     totalcounts = total_counts[depth][ind] if finitecounts else None
-                    bcache['success_probabilities'][depth].append(sampledSP)
                     if finitecounts:
-                        bcache['success_counts'][depth].append(_np.random.binomial(totalcounts, sampledSP))
+                        sampledSC = _np.random.binomial(totalcounts, sampledSP)
+                        bcache['success_counts'][depth].append(sampledSC)
                         bcache['total_counts'][depth].append(totalcounts)
+                        bcache['success_probabilities'][depth].append(sampledSC / totalcounts)
                     else:
                         bcache['success_counts'][depth].append(sampledSP)
+                        bcache['success_probabilities'][depth].append(sampledSP)
 
                     #ind = _np.random.randint(numcircuits)  # note: old code picked different random ints
                     #totalcounts = total_counts[depth][ind] if finitecounts else None  # need this if a new randint
@@ -651,8 +653,9 @@ class Benchmark(_proto.Protocol):
                     sampledHDpdf = _np.array(sampledHDcounts) / _np.sum(sampledHDcounts)
 
                     if finitecounts:
-                        bcache['hamming_distance_counts'][depth].append(
-                            list(_np.random.multinomial(totalcounts, sampledHDpdf)))
+                        sampledHDcounts = _np.random.multinomial(totalcounts, sampledHDpdf)
+                        bcache['hamming_distance_counts'][depth].append(list(sampledHDcounts))
+                        sampledHDpdf = _np.array(sampledHDcounts) / totalcounts
                     else:
                         bcache['hamming_distance_counts'][depth].append(sampledHDpdf)
 
-- 
2.43.0


From 0797317f518c746722247aff4bcf8e4971d96ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:24 +0000
Subject: [PATCH 87/88] fix: bartlett_spectrum uses the given transform

---
 pygsti/extras/drift/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/extras/drift/signal.py b/pygsti/extras/drift/signal.py
index 31aace5..6b535c7 100644
--- a/pygsti/extras/drift/signal.py
+++ b/pygsti/extras/drift/signal.py
@@ -379,7 +379,7 @@ def bartlett_spectrum(x, numspectra, counts=1, null_hypothesis=None, transform='
     for i in range(0, numspectra):
         junk, powers = spectrum(x[i * length:((i + 1) * length)], counts=counts,
                                 null_hypothesis=null_hypothesis[i * length:((i + 1) * length)],
-                                returnfrequencies=False)
+                                transform=transform, returnfrequencies=False)
         spectra[i, :] = powers
 
     bartlett_spectrum = _np.mean(spectra, axis=0)
-- 
2.43.0


From 87852c3593190151f12ebb05348c1e86b82a3947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:24 +0000
Subject: [PATCH 88/88] fix: amplitudes_at_frequencies normalizes the amplitude
 of frequency 0 at any position

---
 pygsti/extras/drift/signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/extras/drift/signal.py b/pygsti/extras/drift/signal.py
index 6b535c7..2f0c88d 100644
--- a/pygsti/extras/drift/signal.py
+++ b/pygsti/extras/drift/signal.py
@@ -575,8 +575,8 @@ def amplitudes_at_frequencies(freqInds, timeseries, times=None, transform='dct')
 
         if transform == 'dct':
             temp = _dct(timeseries[o], norm='ortho')[freqInds] / _np.sqrt(len(timeseries[o]) / 2)
-            if 0. in freqInds:
-                temp[0] = temp[0] / _np.sqrt(2)
+            for i, ind in enumerate(freqInds):
+                if ind == 0: temp[i] = temp[i] / _np.sqrt(2)
             amplitudes[o] = list(temp)
 
         else:
-- 
2.43.0

