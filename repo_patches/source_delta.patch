From d4b18508f9f4001441afc9e1322a9381a3865e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:17 +0000
Subject: [PATCH 01/67] fix: check the neighbors of a negative position in
 Fiber.__setitem__

---
 fibertree/core/fiber.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index b85828c..184948f 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2087,6 +2087,16 @@ class Fiber:
 
         position = key
 
+        #
+        # Like __getitem__, count negative positions from the end, so the
+        # neighbor checks below look at the actual neighbors
+        #
+        if isinstance(position, int) and position < 0:
+            position += len(self.coords)
+
+            if position < 0:
+                raise IndexError(f"The index ({key}) is out of range")
+
         #
         # TBD: Get isinstance of CoordPayload to work...
         #
-- 
2.43.0


From 5e8de48c26019c46ebaeb018d6b0bb6d15fffa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:41 +0000
Subject: [PATCH 02/67] fix: make Fiber.updateCoords visit every fiber and
 reject colliding coordinates before changing anything

---
 fibertree/core/fiber.py | 85 ++++++++++++++++++++++++-----------------
 1 file changed, 51 insertions(+), 34 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 184948f..354dc9b 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2448,7 +2448,9 @@ class Fiber:
         Raises
         ------
 
-        Nothing
+        CoordinateError
+            Two elements of an "ordered" and "unique" fiber would get
+            the same coordinate, in which case nothing is updated
 
 
         Notes
@@ -2464,7 +2466,7 @@ class Fiber:
         increasing and re-orders to make sure `self.coords` and
         `self.payloads` preserve monotonacity.
 
-        The "unique" property is not checked.
+        The "unique" property is only checked for "ordered" fibers.
 
         """
 
@@ -2477,52 +2479,67 @@ class Fiber:
         if rankid is not None:
             depth = self._rankid2depth(rankid)
 
-        if depth > 0:
-            # Recurse down to depth...
-            for p in self.payloads:
-                p.updateCoords(func, depth=depth - 1, new_shape=new_shape)
-                return None
-
-        # Update my coordinates
-
-        no_sort_needed = True
+        # Find the fibers to update
 
-        last_coord = None
+        fibers = [self]
 
-        for i in range(len(self.coords)):
-            new_coord = func(i, self.coords[i], self.payloads[i])
-            self.coords[i] = new_coord
+        for _ in range(depth):
+            fibers = [p for fiber in fibers for p in fiber.payloads]
 
-            no_sort_needed = no_sort_needed and ((last_coord is None) or (last_coord <= new_coord))
-            last_coord = new_coord
-
-        if self._ordered and not no_sort_needed:
-            #
-            # Resort the coords/payloads
-            #
-            # self.logger.debug("Fiber.updateCoords() - sort needed")
+        #
+        # Compute and check all the new coordinates before changing
+        # any fiber, so that a rejected update leaves the tree as it was
+        #
+        updates = [fiber._newCoords(func) for fiber in fibers]
 
-            zipped_cp = zip(self.coords, self.payloads)
-            sorted_cp = sorted(zipped_cp)
-            self.coords, self.payloads = [list(tuple) for tuple in zip(*sorted_cp)]
+        for fiber, (coords, payloads) in zip(fibers, updates):
+            fiber.coords[:] = coords
+            fiber.payloads[:] = payloads
 
         #
-        # Update the fiber's rank_id and/or shape
+        # Update the fibers' rank_id and/or shape
         #
-        if new_rank_id is not None:
-            self.getRankAttrs().setId(new_rank_id)
+        for fiber in fibers:
+            if len(fiber.coords) == 0:
+                continue
 
-        if new_shape is not None:
-            self.getRankAttrs().setShape(new_shape)
+            if new_rank_id is not None and depth == 0:
+                fiber.getRankAttrs().setId(new_rank_id)
 
-        new_shape = self.getRankAttrs().getShape()
+            if new_shape is not None:
+                fiber.getRankAttrs().setShape(new_shape)
 
-        assert isinstance(new_shape, type(self.coords[0])), \
-            "Type of shape must match shape of coordinates"
+            assert isinstance(fiber.getRankAttrs().getShape(), type(fiber.coords[0])), \
+                "Type of shape must match shape of coordinates"
 
         return None
 
 
+    def _newCoords(self, func):
+        """Compute the coordinates (and matching payloads) `func` gives this fiber
+
+        See `Fiber.updateCoords()`, does not change the fiber.
+
+        """
+
+        coords = [func(i, c, p) for i, (c, p) in enumerate(zip(self.coords, self.payloads))]
+        payloads = list(self.payloads)
+
+        if self._ordered:
+            #
+            # Re-sort the coords/payloads
+            #
+            order = sorted(range(len(coords)), key=lambda i: coords[i])
+
+            coords = [coords[i] for i in order]
+            payloads = [payloads[i] for i in order]
+
+            if self._unique and any(a == b for a, b in zip(coords, coords[1:])):
+                raise CoordinateError
+
+        return coords, payloads
+
+
     def updatePayloads(self, func, depth=0, rankid=None):
         """Update the values of the payloads of a fiber
 
-- 
2.43.0


From bf9cc790dcac590a0b79a4fcb54162625b3bab42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:50 +0000
Subject: [PATCH 03/67] fix: box the results of Fiber.updatePayloads and store
 them at their own positions

---
 fibertree/core/fiber.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 354dc9b..5599516 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2585,8 +2585,9 @@ class Fiber:
                 p.updatePayloads(func, depth=depth - 1)
         else:
             # Update my payloads
-            for i, (c, p) in enumerate(self.iterOccupancy(tick=False)):
-                self.payloads[i] = func(i, c, p)
+            for i, (c, p) in enumerate(zip(self.coords, self.payloads)):
+                if not Payload.isEmpty(p, default=self.getDefault()):
+                    self.payloads[i] = Payload.maybe_box(func(i, c, p))
 
         return None
 
-- 
2.43.0


From ed45abb4e50c8f5aa1156a676b7b1e8234555e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:16 +0000
Subject: [PATCH 04/67] fix: reject an existing coordinate in Fiber.insert

---
 fibertree/core/fiber.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 5599516..937ca54 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1374,6 +1374,9 @@ class Fiber:
 
         Fiber._deprecated("Fiber.insert() is deprecated use getPayloadRef()")
 
+        if self._unique and coord in self.coords:
+            raise CoordinateError
+
         payload = Payload.maybe_box(value)
 
         try:
-- 
2.43.0


From 0d78bdbd257d7e9728b0f2642aa8131e530a081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:45 +0000
Subject: [PATCH 05/67] fix: do not add the absent side of a union or
 difference to the rank's fibers

---
 fibertree/core/iterators.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 4bbf87a..060d1ab 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -910,7 +910,7 @@ def __or__(self, other):
                         Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
                         a_pos += 1
 
-                    b_default = self.b_fiber._createDefault()
+                    b_default = self.b_fiber._createDefault(addtorank=False)
                     yield a_coord, ("A", a_payload, b_default)
                     a_coord, a_payload = _get_next(a)
 
@@ -920,7 +920,7 @@ def __or__(self, other):
                         Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
                         b_pos += 1
 
-                    a_default = self.a_fiber._createDefault()
+                    a_default = self.a_fiber._createDefault(addtorank=False)
                     yield b_coord, ("B", a_default, b_payload)
                     b_coord, b_payload = _get_next(b)
 
@@ -929,7 +929,7 @@ def __or__(self, other):
                     Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
                     a_pos += 1
 
-                b_default = self.b_fiber._createDefault()
+                b_default = self.b_fiber._createDefault(addtorank=False)
                 yield a_coord, ("A", a_payload, b_default)
                 a_coord, a_payload = _get_next(a)
 
@@ -938,7 +938,7 @@ def __or__(self, other):
                         Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
                         b_pos += 1
 
-                    a_default = self.a_fiber._createDefault()
+                    a_default = self.a_fiber._createDefault(addtorank=False)
                     yield b_coord, ("B", a_default, b_payload)
                     b_coord, b_payload = _get_next(b)
 
@@ -1013,23 +1013,23 @@ def __xor__(self, other):
                     b_coord, b_payload = _get_next(b)
 
                 elif a_coord < b_coord:
-                    b_default = self.b_fiber._createDefault()
+                    b_default = self.b_fiber._createDefault(addtorank=False)
                     yield a_coord, ("A", a_payload, b_default)
                     a_coord, a_payload = _get_next(a)
 
                 # a_coord > b_coord
                 else:
-                    a_default = self.a_fiber._createDefault()
+                    a_default = self.a_fiber._createDefault(addtorank=False)
                     yield b_coord, ("B", a_default, b_payload)
                     b_coord, b_payload = _get_next(b)
 
             while a_coord is not None:
-                b_default = self.b_fiber._createDefault()
+                b_default = self.b_fiber._createDefault(addtorank=False)
                 yield a_coord, ("A", a_payload, b_default)
                 a_coord, a_payload = _get_next(a)
 
             while b_coord is not None:
-                a_default = self.a_fiber._createDefault()
+                a_default = self.a_fiber._createDefault(addtorank=False)
                 yield b_coord, ("B", a_default, b_payload)
                 b_coord, b_payload = _get_next(b)
 
-- 
2.43.0


From 9a80900e7b703c783f16a58d8853afffd99fa72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:24 +0000
Subject: [PATCH 06/67] fix: populate removes exactly the untouched element and
 its sub-fibers, whatever the loop body did to the destination

---
 fibertree/core/fiber.py     | 22 ++++++++++++++++++++
 fibertree/core/iterators.py | 41 ++++++++++++++++++++++---------------
 fibertree/core/rank.py      | 31 ++++++++++++++++++++++++++++
 3 files changed, 77 insertions(+), 17 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 937ca54..8f6faa3 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -961,6 +961,28 @@ class Fiber:
 
         return payload
 
+    def _disown(self, payload):
+        """Tell the rank of a sub-fiber that it is no longer in this fiber
+
+        The sub-fiber, and all the fibers below it, are removed from
+        the ranks they belong to.
+
+        """
+
+        owner = self.getOwner()
+
+        if owner is None or not isinstance(payload, Fiber):
+            return
+
+        if payload.getOwner() is None or payload.getOwner() is not owner.getNextRank():
+            return
+
+        for p in payload.payloads:
+            payload._disown(p)
+
+        owner.getNextRank().remove(payload)
+
+
     def _deletePayload(self, coord):
         """Remove a payload """
 
diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 060d1ab..1e00e30 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -1169,7 +1169,7 @@ def __lshift__(self, other, start_pos=None):
                 # Find the position this coordinate should be inserted into
                 get_payload_pos = None
                 if self.a_fiber.coords:
-                    a_pos += bisect.bisect_left(self.a_fiber.coords[a_pos:], b_coord)
+                    a_pos = bisect.bisect_left(self.a_fiber.coords, b_coord)
 
                     # If we have already found the location of the coordinate,
                     # we can go directly to that location
@@ -1204,23 +1204,30 @@ def __lshift__(self, other, start_pos=None):
                 yield b_coord, (a_payload, b_payload)
 
                 # If this was never updated, remove it
-                if maybe_remove and (isinstance(a_payload, type(self.a_fiber)) and \
-                        len(a_payload) == 0) or \
-                        (not isinstance(a_payload, type(self.a_fiber)) and \
-                        a_payload == self.a_fiber.getDefault()):
-                    # Clear the fiber
-                    index = bisect.bisect_left(self.a_fiber.coords, b_coord)
-                    del self.a_fiber.coords[index]
-                    del self.a_fiber.payloads[index]
-
-                    # Remove the payload from its owning rank (if relevant)
-                    if self.a_fiber.getOwner() is not None and \
-                            self.a_fiber.getOwner().getNextRank() is not None:
-                        popped = self.a_fiber.getOwner().getNextRank().pop()
+                if isinstance(a_payload, type(self.a_fiber)):
+                    remove = maybe_remove and a_payload.isEmpty()
+                else:
+                    remove = a_payload == self.a_fiber.getDefault()
 
-                        # Make sure that the rank was not modified in the
-                        # middle and we actually popped off the correct fiber
-                        assert id(a_payload) == id(popped)
+                if remove:
+                    # Clear the fiber, unless the loop body already replaced
+                    # or removed the element
+                    index = bisect.bisect_left(self.a_fiber.coords, b_coord)
+                    if index < len(self.a_fiber.coords) \
+                            and self.a_fiber.payloads[index] is a_payload:
+                        del self.a_fiber.coords[index]
+                        del self.a_fiber.payloads[index]
+
+                        # Remove the payload from its owning rank (if relevant)
+                        owner = self.a_fiber.getOwner()
+                        if owner is not None and owner.getNextRank() is not None:
+                            # Make sure that, if the rank was modified in the
+                            # middle, the tree was modified with it
+                            last = owner.getNextRank().getFibers()[-1]
+                            assert last is a_payload or any(
+                                last is p for fiber in owner.getFibers() for p in fiber.payloads)
+
+                            self.a_fiber._disown(a_payload)
 
                     # We did not actually insert anything, we need to undo the
                     # += 1 from later
diff --git a/fibertree/core/rank.py b/fibertree/core/rank.py
index d1f2c64..dad9fc6 100644
--- a/fibertree/core/rank.py
+++ b/fibertree/core/rank.py
@@ -6,6 +6,7 @@ A class used to implement a rank (or dimension) of a tensor.
 
 """
 
+import copy
 import logging
 import pickle
 
@@ -503,6 +504,36 @@ class Rank:
         fiber.setOwner(None)
         return fiber
 
+    def remove(self, fiber):
+        """
+        Remove a specific fiber (if it is in the rank)
+
+        Parameters
+        ----------
+
+        fiber: Fiber
+            The fiber to remove
+
+        Returns
+        _______
+
+        None
+
+        """
+        #
+        # Recently added fibers are the most likely to be removed
+        #
+        for i in reversed(range(len(self.fibers))):
+            if self.fibers[i] is fiber:
+                del self.fibers[i]
+                break
+
+        #
+        # The fiber keeps the attributes it had as part of the rank
+        #
+        fiber.setOwner(None)
+        fiber.setRankAttrs(copy.deepcopy(self._attrs))
+
 #
 # Linked list methods
 #
-- 
2.43.0


From 33ee57a8188bb8d0c0666854204cee8a3a456479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:43 +0000
Subject: [PATCH 07/67] fix: keep the rank lists up to date in append, extend,
 insert, position assignment, fiber assignment and clear

---
 fibertree/core/fiber.py | 79 ++++++++++++++++++++++++++++-------------
 1 file changed, 55 insertions(+), 24 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 8f6faa3..923077a 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -961,6 +961,31 @@ class Fiber:
 
         return payload
 
+    def _adopt(self, payload):
+        """Tell the next rank about a sub-fiber being put into this fiber
+
+        The sub-fiber, and all the fibers below it, join the ranks
+        they belong to. As in `Tensor.setRoot()` a sub-fiber that is
+        already part of a rank is copied.
+
+        Returns the payload to use.
+
+        """
+
+        owner = self.getOwner()
+
+        if owner is None or owner.getNextRank() is None or not isinstance(payload, Fiber):
+            return payload
+
+        if payload.getOwner() is not None:
+            payload = payload.copy(preserve_owner=False)
+
+        owner.getNextRank().append(payload)
+        payload.payloads[:] = [payload._adopt(p) for p in payload.payloads]
+
+        return payload
+
+
     def _disown(self, payload):
         """Tell the rank of a sub-fiber that it is no longer in this fiber
 
@@ -1372,23 +1397,15 @@ class Fiber:
 
         Fiber._deprecated("Fiber.insertOrLookup() is deprecated use getPayloadRef()")
 
-        if value is None:
-            value = self._createDefault()
-
-        payload = Payload.maybe_box(value)
+        index = self._coord2pos(coord)
 
-        index = 0
-        try:
-            index = next(x for x, val in enumerate(self.coords) if val >= coord)
-            if self.coords[index] == coord:
-                return self.payloads[index]
-            self.coords.insert(index, coord)
-            self.payloads.insert(index, payload)
+        if self._coordExists(coord, index):
             return self.payloads[index]
-        except StopIteration:
-            self.coords.append(coord)
-            self.payloads.append(payload)
-            return self.payloads[-1]
+
+        if value is not None:
+            value = self._adopt(Payload.maybe_box(value))
+
+        return self._create_payload(coord, payload=value)
 
 
     def insert(self, coord, value):
@@ -1399,7 +1416,7 @@ class Fiber:
         if self._unique and coord in self.coords:
             raise CoordinateError
 
-        payload = Payload.maybe_box(value)
+        payload = self._adopt(Payload.maybe_box(value))
 
         try:
             index = next(x for x, val in enumerate(self.coords) if val > coord)
@@ -2148,8 +2165,9 @@ class Fiber:
         #
         # A payload of None just updates the coordinate
         #
-        if payload is not None:
-            self.payloads[position] = Payload.maybe_box(payload)
+        if payload is not None and payload is not self.payloads[position]:
+            self._disown(self.payloads[position])
+            self.payloads[position] = self._adopt(Payload.maybe_box(payload))
 
 
     def __len__(self):
@@ -2337,6 +2355,9 @@ class Fiber:
 
         """
 
+        for p in self.payloads:
+            self._disown(p)
+
         self.coords.clear()
         self.payloads.clear()
 
@@ -2382,7 +2403,7 @@ class Fiber:
             assert self.maxCoord() is None or self.maxCoord() < coord, \
                    "Fiber coordinates in 'ordered' fibers must be monotonically increasing"
 
-        payload = Payload.maybe_box(value)
+        payload = self._adopt(Payload.maybe_box(value))
 
         self.coords.append(coord)
         self.payloads.append(payload)
@@ -2428,7 +2449,7 @@ class Fiber:
                 "Fiber coordinates in 'ordered' fibers must be monotonically increasing"
 
         self.coords.extend(other.coords)
-        self.payloads.extend(other.payloads)
+        self.payloads.extend([self._adopt(p) for p in other.payloads])
 
         return None
 
@@ -3056,10 +3077,20 @@ class Fiber:
             #
             # Clear out any existing data
             #
+            for p in self.payloads:
+                self._disown(p)
+
             self.coords = []
             self.payloads = []
 
-        self._setDefault(other.getDefault())
+        #
+        # The default of a rank of fibers is not a value to be assigned
+        #
+        owner = self.getOwner()
+
+        if owner is None or owner.getNextRank() is None:
+            self._setDefault(other.getDefault())
+
         for c, p in other:
             ref = self.getPayloadRef(c)
             ref <<= p
@@ -4658,7 +4689,7 @@ class Fiber:
         owners[None] = self.getOwner()
         self.setOwner(None)
 
-        for c, p in self.iterOccupancy(tick=False):
+        for c, p in zip(self.coords, self.payloads):
             if isinstance(p, Fiber):
                 owners[c] = p._detach_owner()
 
@@ -4669,7 +4700,7 @@ class Fiber:
         if owner is not None:
             self.setRankAttrs(copy.deepcopy(owner.getAttrs()))
 
-        for c, p in self.iterOccupancy(tick=False):
+        for c, p in zip(self.coords, self.payloads):
             if isinstance(p, Fiber):
                 p._attach_attrs(owners[c])
 
@@ -4678,7 +4709,7 @@ class Fiber:
         """Reattach the owners to this fiber"""
         self.setOwner(owners[None])
 
-        for c, p in self.iterOccupancy(tick=False):
+        for c, p in zip(self.coords, self.payloads):
             if isinstance(p, Fiber):
                 p._attach_owner(owners[c])
 
-- 
2.43.0


From b3291bbaaf801464b11101a1f35ca34f6804f6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:41 +0000
Subject: [PATCH 08/67] fix: setRoot releases the fibers of the old root and
 leaves fibers of other tensors where they are

---
 fibertree/core/fiber.py  | 11 +++++++++++
 fibertree/core/rank.py   | 11 ++++++++---
 fibertree/core/tensor.py |  8 +++++++-
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 923077a..298fdf5 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4672,6 +4672,17 @@ class Fiber:
         return copied
 
 
+    def _clone(self):
+        """Copy the fiber, but not the fibers below it"""
+
+        clone = copy.copy(self)
+        clone.coords = list(self.coords)
+        clone.payloads = [Payload(p.value) if isinstance(p, Payload) else p for p in self.payloads]
+        clone._rank_attrs = copy.deepcopy(self._rank_attrs)
+
+        return clone
+
+
     def __deepcopy__(self, memo):
         """__deepcopy__
 
diff --git a/fibertree/core/rank.py b/fibertree/core/rank.py
index dad9fc6..3eac8ec 100644
--- a/fibertree/core/rank.py
+++ b/fibertree/core/rank.py
@@ -287,6 +287,9 @@ class Rank:
 
         """
 
+        for fiber in self.fibers:
+            self._release(fiber)
+
         self.fibers = []
 
     #
@@ -528,9 +531,11 @@ class Rank:
                 del self.fibers[i]
                 break
 
-        #
-        # The fiber keeps the attributes it had as part of the rank
-        #
+        self._release(fiber)
+
+    def _release(self, fiber):
+        """End the ownership of a fiber, which keeps the rank's attributes"""
+
         fiber.setOwner(None)
         fiber.setRankAttrs(copy.deepcopy(self._attrs))
 
diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 2a3b92d..9445a9c 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -756,8 +756,14 @@ class Tensor:
         #       transistion from raw fibers as payloads to fibers in
         #       Payload
 
-        for p in fiber.getPayloads():
+        for i, p in enumerate(fiber.getPayloads()):
             if Payload.contains(p, Fiber):
+                #
+                # Sub-fibers that belong to another tensor stay there
+                #
+                if isinstance(p, Fiber) and p.getOwner() is not None:
+                    p = fiber.payloads[i] = p._clone()
+
                 self._addFiber(Payload.get(p), level + 1)
 
     def getRoot(self):
-- 
2.43.0


From 74b3a5b00a10dad306be3d48e43a8d077e3a3de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:11 +0000
Subject: [PATCH 09/67] fix: fibers created below an absent element do not
 enter the rank lists

---
 fibertree/core/fiber.py     | 13 +++++++++++++
 fibertree/core/iterators.py |  6 +++---
 fibertree/core/rank.py      |  1 +
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 298fdf5..15ece4d 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -246,6 +246,12 @@ class Fiber:
         #
         self.setOwner(None)
 
+        #
+        # True for a fiber whose owner does not list it, see
+        # _instantiateDefault()
+        #
+        self._outside_rank = False
+
         # Create a rank_attrs
         if rank_attrs is not None:
             self.setRankAttrs(rank_attrs)
@@ -977,6 +983,9 @@ class Fiber:
         if owner is None or owner.getNextRank() is None or not isinstance(payload, Fiber):
             return payload
 
+        if self._outside_rank:
+            return payload
+
         if payload.getOwner() is not None:
             payload = payload.copy(preserve_owner=False)
 
@@ -1637,6 +1646,8 @@ class Fiber:
         else:
             next_default = None
 
+        addtorank = addtorank and not self._outside_rank
+
         return Fiber._instantiateDefault(owner, default, next_default, addtorank)
 
 
@@ -1724,8 +1735,10 @@ class Fiber:
                     else:
                         #
                         # Set the owner, but do not add to rank
+                        # (nor any fiber that gets created below it)
                         #
                         value.setOwner(owner.next_rank)
+                        value._outside_rank = True
                 else:
                     value._setDefault(next_default)
             else:
diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 1e00e30..53e076c 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -1223,9 +1223,9 @@ def __lshift__(self, other, start_pos=None):
                         if owner is not None and owner.getNextRank() is not None:
                             # Make sure that, if the rank was modified in the
                             # middle, the tree was modified with it
-                            last = owner.getNextRank().getFibers()[-1]
-                            assert last is a_payload or any(
-                                last is p for fiber in owner.getFibers() for p in fiber.payloads)
+                            for last in owner.getNextRank().getFibers()[-1:]:
+                                assert last is a_payload or any(
+                                    last is p for fiber in owner.getFibers() for p in fiber.payloads)
 
                             self.a_fiber._disown(a_payload)
 
diff --git a/fibertree/core/rank.py b/fibertree/core/rank.py
index 3eac8ec..85beaa1 100644
--- a/fibertree/core/rank.py
+++ b/fibertree/core/rank.py
@@ -486,6 +486,7 @@ class Rank:
         #
         # Add fiber to list of fibers of rank
         #
+        fiber._outside_rank = False
         self.fibers.append(fiber)
 
     def pop(self):
-- 
2.43.0


From 32c37620c6d9fd634b1583cf92ecb73f188262f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:29 +0000
Subject: [PATCH 10/67] fix: populate inserts at the start of a destination
 emptied by the loop body

---
 fibertree/core/iterators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 53e076c..fb75406 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -1168,6 +1168,7 @@ def __lshift__(self, other, start_pos=None):
 
                 # Find the position this coordinate should be inserted into
                 get_payload_pos = None
+                a_pos = 0
                 if self.a_fiber.coords:
                     a_pos = bisect.bisect_left(self.a_fiber.coords, b_coord)
 
-- 
2.43.0


From 9dbefde911f96db4cf75bc39b9a3aa11c3b8820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 11/67] fix: Fiber.project accepts a fiber without a non-empty
 element

---
 fibertree/core/fiber.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 15ece4d..0c9c00a 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1291,8 +1291,10 @@ class Fiber:
 
         # Get an example of a coordinate if one was not provided
         if coord_ex is None:
-            if len(self) > 0:
-                coord_ex, _ = next(self.iterOccupancy(tick=False))
+            if self.isLazy():
+                coord_ex, _ = next(self.iterOccupancy(tick=False), (0, None))
+            elif len(self) > 0:
+                coord_ex = self.coords[0]
             else:
                 coord_ex = 0
 
-- 
2.43.0


From a69bff6f92d4ff29e0396653ea76898559401ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 12/67] fix: an order-reversing project keeps the default of
 its source

---
 fibertree/core/fiber.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 0c9c00a..90cfb80 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1314,6 +1314,7 @@ class Fiber:
                     return reversed(self.cps)
 
             fiber = Fiber.fromIterator(reversed_iterator)
+            fiber._setDefault(self.getDefault())
 
         else:
             fiber = self
-- 
2.43.0


From ea1312eb8cb063d1fa44ead99da6a4a44ebc891c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 13/67] fix: intersect an empty fiber with a fiber of tuple
 coordinates

---
 fibertree/core/iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index fb75406..cbec2c8 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -715,7 +715,7 @@ def __and__(self, other):
             len_a = len(a_coord) if isinstance(a_coord, tuple) else 1
             len_b = len(b_coord) if isinstance(b_coord, tuple) else 1
 
-            if len_a == len_b:
+            if len_a == len_b or a_coord is None or b_coord is None:
                 def succ_next(a, a_coord, a_payload, b, b_coord, b_payload):
                     return *_get_next(a), *_get_next(b)
 
-- 
2.43.0


From a30b94aaebb3ea92102d4b973703d46dc9570600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:14 +0000
Subject: [PATCH 14/67] fix: leader-follower intersection does not start at a
 position another search saved

---
 fibertree/core/iterators.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index cbec2c8..0e48554 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -516,8 +516,6 @@ def intersection(*args, **kwargs):
             fibers = args
 
             def __iter__(self):
-                start_pos = [None] * (len(self.fibers) - 1)
-
                 is_collecting = Metrics.isCollecting()
                 leader_traced = False
                 traces = [""] * len(self.fibers)
@@ -534,12 +532,7 @@ def intersection(*args, **kwargs):
 
                     payloads = [p]
                     for j, fiber in enumerate(self.fibers[1:]):
-                        p_fiber = fiber.getPayload(c, start_pos=start_pos[j], trace=traces[j + 1])
-
-                        saved = fiber.getSavedPos()
-                        if saved > 0:
-                            start_pos[j] = saved
-
+                        p_fiber = fiber.getPayload(c, trace=traces[j + 1])
                         payloads.append(p_fiber)
 
                     yield CoordPayload(c, tuple(payloads))
-- 
2.43.0


From 2abc4f9a17ba409d665d3b5741155d0c2cb60b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 15/67] fix: the absent sides of an n-ary union come from the
 arguments

---
 fibertree/core/iterators.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 0e48554..b3482de 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -582,6 +582,7 @@ def union(*args):
     class union_iterator:
         nested = nested_result
         num_args = len(args)
+        fibers = args
 
         def __iter__(self):
             for c, np in self.nested:
@@ -604,6 +605,13 @@ def union(*args):
                     p[0] = "A" + p[0]
 
                 p[1] = np
+
+                # The nested unions cannot know the defaults of the arguments
+                # two levels down, so the absent ones come from the arguments
+                for i, fiber in enumerate(self.fibers):
+                    if chr(ord("A") + i) not in p[0]:
+                        p[i + 1] = fiber._createDefault(addtorank=False)
+
                 yield CoordPayload(c, tuple(p))
 
     fiber = args[0].fromIterator(union_iterator, active_range=args[0].getActive())
-- 
2.43.0


From a3c91402499577bbc59bc5df62b9449c95109b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 16/67] fix: intersecting coordinates of different lengths
 keeps uncompressed and lazy operands intact

---
 fibertree/core/iterators.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index b3482de..4211962 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -631,6 +631,16 @@ def _get_next(iter_):
 
     return CoordPayload(coord, payload)
 
+def _extend_coords(iter_, extra):
+    """_extend_coords
+
+    Iterate over the same payloads, with `extra` appended to each coordinate
+
+    """
+    for coord, payload in iter_:
+        prefix = coord if isinstance(coord, tuple) else (coord,)
+        yield CoordPayload(prefix + extra, payload)
+
 #
 # Merge methods
 #
@@ -724,12 +734,8 @@ def __and__(self, other):
                     return a_coord
 
             elif len_a < len_b:
-                if isinstance(a_coord, int):
-                    extra = (ANY,) * (len_b - 1)
-                    a = self.a_fiber.project(trans_fn=lambda c: (c,) + extra).__iter__(tick=False)
-                else:
-                    extra = (ANY,) * (len_b - len_a)
-                    a = self.a_fiber.project(trans_fn=lambda c: c + extra).__iter__(tick=False)
+                extra = (ANY,) * (len_b - len_a)
+                a = _extend_coords(self.a_fiber.__iter__(tick=False), extra)
 
                 a_coord, a_payload = _get_next(a)
 
@@ -741,12 +747,8 @@ def __and__(self, other):
 
             # len_a > len_b
             else:
-                if isinstance(b_coord, int):
-                    extra = (ANY,) * (len_a - 1)
-                    b = self.b_fiber.project(trans_fn=lambda c: (c,) + extra).__iter__(tick=False)
-                else:
-                    extra = (ANY,) * (len_a - len_b)
-                    b = self.b_fiber.project(trans_fn=lambda c: c + extra).__iter__(tick=False)
+                extra = (ANY,) * (len_a - len_b)
+                b = _extend_coords(self.b_fiber.__iter__(tick=False), extra)
 
                 b_coord, b_payload = _get_next(b)
 
-- 
2.43.0


From d3c85d5536b22cc756afb322e27b2e92bfec8b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 17/67] fix: project checks its start position against the
 projected interval

---
 fibertree/core/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 90cfb80..cebfdda 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1328,7 +1328,7 @@ class Fiber:
 
             if interval is not None:
                 assert start_pos == 0 \
-                    or fiber.coords[start_pos - 1] < interval[0]
+                    or trans_fn(fiber.coords[start_pos - 1]) < interval[0]
 
         # Build the iterator
         class project_iterator:
-- 
2.43.0


From 8380f8714d40c74c8fae9ccd13316e489dca90ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 18/67] fix: prune stops when trans_fn returns None, as
 documented

---
 fibertree/core/fiber.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index cebfdda..8f112e1 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1124,7 +1124,11 @@ class Fiber:
             def __iter__(self):
                 f_iter = self.fiber.__iter__(tick=False, start_pos=self.start)
                 for i, (c, p) in enumerate(f_iter):
-                    if self.trans(i, c, p):
+                    keep = self.trans(i, c, p)
+                    if keep is None:
+                        return
+
+                    if keep:
                         yield c, p
 
         result = Fiber.fromIterator(prune_iterator, active_range=self.getActive())
-- 
2.43.0


From 88b0ac61dadffdf767ffcd0eeeacba10ed7f539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:03 +0000
Subject: [PATCH 19/67] fix: an order-reversing project follows the format of
 its source

---
 fibertree/core/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 8f112e1..653ba3c 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1312,7 +1312,7 @@ class Fiber:
 
             # Build an iterator over the reversed fiber
             class reversed_iterator:
-                cps = list(zip(self.coords, self.payloads))
+                cps = list(self.__iter__(tick=False))
 
                 def __iter__(self):
                     return reversed(self.cps)
-- 
2.43.0


From 2b5b454c3863d7728775eea2e028fc2e51edefde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:03 +0000
Subject: [PATCH 20/67] fix: equality of fibers does not depend on the formats
 and active ranges of their ranks

---
 fibertree/core/fiber.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 653ba3c..9b6def5 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -14,7 +14,7 @@ import bisect
 import copy
 import sys
 from functools import partialmethod
-from itertools import product
+from itertools import product, zip_longest
 
 import numbers
 import pickle
@@ -4757,14 +4757,14 @@ class Fiber:
         if not isinstance(other, Fiber):
             return False
 
-        for c, (mask, ps, po) in self | other:
-            if mask == "A":
+        # Only the content counts, not how the ranks' formats present it
+        for es, eo in zip_longest(self.iterOccupancy(tick=False),
+                                  other.iterOccupancy(tick=False)):
+            if es is None or eo is None:
                 return False
 
-            if mask == "B":
-                return False
-
-            if mask == "AB" and ps != po:
+            (cs, ps), (co, po) = es, eo
+            if cs != co or ps != po:
                 return False
 
         return True
-- 
2.43.0


From 9b355fcdc775b909066bf0eaade46232a2ae3ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:10 +0000
Subject: [PATCH 21/67] fix: count the value of a rank-0 tensor

---
 fibertree/core/tensor.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 9445a9c..4cfa7c8 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -1134,7 +1134,13 @@ class Tensor:
         fiber of the tensor. See `Fiber.countValues()` for details.
 
         """
-        return self.getRoot().countValues()
+        root = self.getRoot()
+
+        if isinstance(root, Payload):
+            # Handle rank-0 tensor
+            return 0 if Payload.isEmpty(root) else 1
+
+        return root.countValues()
 
 
     def __iter__(self):
-- 
2.43.0


From 2048487e9116db4f0817f9a7d54dd1529d4c45e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:36 +0000
Subject: [PATCH 22/67] fix: Fiber.copy(preserve_owner=False) gives every fiber
 its owner back

---
 fibertree/core/fiber.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 9b6def5..ca56754 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4738,7 +4738,10 @@ class Fiber:
 
     def _attach_owner(self, owners):
         """Reattach the owners to this fiber"""
-        self.setOwner(owners[None])
+        # A fiber reached twice (e.g. from two halos) had its owner
+        # collected the first time only
+        if owners[None] is not None:
+            self.setOwner(owners[None])
 
         for c, p in zip(self.coords, self.payloads):
             if isinstance(p, Fiber):
-- 
2.43.0


From 94763a4ef8ff1fca1e560ac15ee0215f17d206c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 23/67] fix: Fiber.unflattenRanks returns a fiber with its own
 payloads

---
 fibertree/core/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index ca56754..3213aa0 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4506,7 +4506,7 @@ class Fiber:
         # Traverse the rank being unflattened in order to collect all
         # the coordinates/payloads to put in the final top (c1) rank
         #
-        for cx, p0 in zip(self.coords, self.payloads):
+        for cx, p0 in zip(self.coords, copy.deepcopy(self).payloads):
             #
             # Little dance to get the coordinates of the two ranks,
             # which also deals with the case where the coordinates
-- 
2.43.0


From 85a4ca61f89e5297a0d6c054fdb0f51771c1e29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:17 +0000
Subject: [PATCH 24/67] fix: restructuring ranks below the root includes the
 sub-fibers with only default values

---
 fibertree/core/fiber.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 3213aa0..49456f3 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4643,15 +4643,19 @@ class Fiber:
     def updatePayloadsBelow(self, func, *args, depth=0, **kwargs):
         """updatePayloadsBelow
 
-        Utility function used as a closure on updatePayloads() to
-        change all the payloads in fibers at `depth` in the tree by
-        applying `func` with parameters *args and **kwargs to the
-        payloads.
+        Utility function to change all the payloads in fibers at
+        `depth` in the tree by applying `func` with parameters *args
+        and **kwargs to the payloads.
 
         """
 
-        update_lambda = lambda i, c, p: func(p, *args, **kwargs)
-        return self.updatePayloads(update_lambda, depth=depth)
+        if depth > 0:
+            for p in self.payloads:
+                p.updatePayloadsBelow(func, *args, depth=depth - 1, **kwargs)
+        else:
+            # Unlike updatePayloads(), include the empty fibers: they change
+            # their number of ranks with all of the others
+            self.payloads = [func(p, *args, **kwargs) for p in self.payloads]
 
 
     splitUniformBelow = partialmethod(updatePayloadsBelow,
@@ -4666,8 +4670,9 @@ class Fiber:
     splitUnEqualBelow = partialmethod(updatePayloadsBelow,
                                       splitUnEqual)
 
+    # There is nothing to swap in a fiber with only default values
     swapRanksBelow = partialmethod(updatePayloadsBelow,
-                                   swapRanks)
+                                   lambda f: Fiber(default=Fiber()) if f.isEmpty() else f.swapRanks())
 
     flattenRanksBelow = partialmethod(updatePayloadsBelow,
                                       flattenRanks)
-- 
2.43.0


From 67c614890867abc3df29d2a0c2be8a9b48115690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:31 +0000
Subject: [PATCH 25/67] fix: the upper fiber of a split covers a first
 partition that begins before its active range

---
 fibertree/core/fiber.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 49456f3..9ad25fd 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4044,6 +4044,11 @@ class Fiber:
             upper.coords.append(part)
             upper.payloads.append(lower)
 
+        # The first partition may begin before the active range does
+        active_start, active_end = self.getActive()
+        if upper.coords and upper.coords[0] < active_start:
+            upper.setActive((upper.coords[0], active_end))
+
         return upper
 
 #
-- 
2.43.0


From 9d307fdf67f9c7e18195c78db615e2132cb18c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:22 +0000
Subject: [PATCH 26/67] fix: a split into relative coordinates makes the active
 ranges of the partitions relative as well

---
 fibertree/core/fiber.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 9ad25fd..1b936eb 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -3612,7 +3612,10 @@ class Fiber:
 
                 range_start = max(part, self.fiber.getActive()[0])
                 range_end = min(part + self.step, self.fiber.getActive()[1])
-                active_range = (range_start, range_end)
+                if relativeCoords:
+                    active_range = (range_start - part, range_end - part)
+                else:
+                    active_range = (range_start, range_end)
 
                 return part, coords, payloads, active_range
 
@@ -3796,7 +3799,10 @@ class Fiber:
 
                 range_start = max(self.splits[ind], self.fiber.getActive()[0])
                 range_end = min(self.splits[ind + 1], self.fiber.getActive()[1])
-                active_range = (range_start, range_end)
+                if relative:
+                    active_range = (range_start - self.splits[ind], range_end - self.splits[ind])
+                else:
+                    active_range = (range_start, range_end)
 
                 return self.splits[ind], coords, payloads, active_range
 
-- 
2.43.0


From 3d8d8ee81135257765b509f5106a1fbea7fe0bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:31 +0000
Subject: [PATCH 27/67] fix: a position assignment the next rank rejects keeps
 the old fiber in its rank

---
 fibertree/core/fiber.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 1b936eb..88826e4 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2186,8 +2186,9 @@ class Fiber:
         # A payload of None just updates the coordinate
         #
         if payload is not None and payload is not self.payloads[position]:
+            payload = self._adopt(Payload.maybe_box(payload))
             self._disown(self.payloads[position])
-            self.payloads[position] = self._adopt(Payload.maybe_box(payload))
+            self.payloads[position] = payload
 
 
     def __len__(self):
-- 
2.43.0


From a3b77aa140d9be047df31a7e16c1a1485f51f221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:02 +0000
Subject: [PATCH 28/67] fix: a tensor loaded from YAML keeps its name

---
 fibertree/core/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 4cfa7c8..c84c88b 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -243,7 +243,7 @@ class Tensor:
             t._root = Payload(root)
             return t
 
-        return Tensor.fromFiber(rank_ids, root, shape=shape)
+        return Tensor.fromFiber(rank_ids, root, shape=shape, name=name)
 
 
     @classmethod
-- 
2.43.0


From 1ca58e4442c22c5c20b3db26a8b7113a8f18927c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:23 +0000
Subject: [PATCH 29/67] fix: read tuple coordinates and shapes back from YAML

---
 fibertree/core/fiber.py  | 11 ++++++++++-
 fibertree/core/tensor.py |  4 ++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 88826e4..b4e7f18 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -37,6 +37,15 @@ from .rank_attrs import RankAttrs
 module_logger = logging.getLogger('fibertree.core.fiber')
 
 
+class FibertreeLoader(yaml.SafeLoader):
+    """Safe YAML loader that also reads tuples (e.g., flattened coordinates)"""
+
+
+FibertreeLoader.add_constructor(
+    "tag:yaml.org,2002:python/tuple",
+    lambda loader, node: tuple(loader.construct_sequence(node, deep=True)))
+
+
 #
 # Define an error class
 #
@@ -4963,7 +4972,7 @@ class Fiber:
 
         with open(yamlfile, 'r') as stream:
             try:
-                y_file = yaml.safe_load(stream)
+                y_file = yaml.load(stream, Loader=FibertreeLoader)
             except yaml.YAMLError as exc:
                 print(exc)
                 exit(1)
diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index c84c88b..652f6e4 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -15,7 +15,7 @@ import yaml
 from copy import deepcopy
 
 from .rank    import Rank
-from .fiber   import Fiber
+from .fiber   import Fiber, FibertreeLoader
 from .payload import Payload
 
 #
@@ -1959,7 +1959,7 @@ class Tensor:
 
         with open(file, 'r') as stream:
             try:
-                y_file = yaml.safe_load(stream)
+                y_file = yaml.load(stream, Loader=FibertreeLoader)
             except yaml.YAMLError as exc:
                 print(exc)
                 exit(1)
-- 
2.43.0


From 0fa9645e1036b0423dda2af52be220f9dd5a3996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:27 +0000
Subject: [PATCH 30/67] fix: a default given for a fiber loaded from YAML
 reaches its leaf fibers

---
 fibertree/core/fiber.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index b4e7f18..49eee14 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4984,7 +4984,7 @@ class Fiber:
             print("Yaml is not a fiber")
             exit(1)
 
-        newfiber = Fiber.dict2fiber(y_file)
+        newfiber = Fiber.dict2fiber(y_file, default=default)
 
         return (newfiber.getCoords(), newfiber.getPayloads())
 
@@ -5003,7 +5003,7 @@ class Fiber:
 #
 
     @staticmethod
-    def dict2fiber(y_payload_dict, level=0):
+    def dict2fiber(y_payload_dict, level=0, default=0):
         """Parse a yaml-based tensor payload, creating Fibers as appropriate"""
 
         if isinstance(y_payload_dict, dict) and 'fiber' in y_payload_dict:
@@ -5034,11 +5034,15 @@ class Fiber:
 
             f_payloads = []
             for y_f_payload in y_f_payloads:
-                f_payloads.append(Fiber.dict2fiber(y_f_payload, level + 1))
+                f_payloads.append(Fiber.dict2fiber(y_f_payload,
+                                                   level + 1,
+                                                   default))
             #
             # Turn into a fiber
             #
-            subtree = Fiber(coords=f_coords, payloads=f_payloads)
+            subtree = Fiber(coords=f_coords,
+                            payloads=f_payloads,
+                            default=default)
         else:
             # Got scalars, so format is unchanged
             subtree = y_payload_dict
-- 
2.43.0


From 29684ee2296a2be7a7157d15234677d5f688d282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:31 +0000
Subject: [PATCH 31/67] fix: a fiber and its dictionary do not share their
 coordinates

---
 fibertree/core/fiber.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 49eee14..d2c6310 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -5029,7 +5029,7 @@ class Fiber:
             #
             # Process corrdinates and payloads
             #
-            f_coords = y_fiber['coords']
+            f_coords = list(y_fiber['coords'])
             y_f_payloads = y_fiber['payloads']
 
             f_payloads = []
@@ -5056,7 +5056,7 @@ class Fiber:
         assert not self.isLazy()
 
         f = {'fiber':
-             {'coords': self.coords,
+             {'coords': list(self.coords),
               'payloads': [Payload.payload2dict(p) for p in self.payloads]}}
 
         return f
-- 
2.43.0


From 9f6b885e4b2f0b2992de765485511ba146ac8d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:52 +0000
Subject: [PATCH 32/67] fix: Fiber.fromRandom leaves out a missing sub-fiber
 when the default is not 0

---
 fibertree/core/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index d2c6310..1e823fa 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -524,7 +524,7 @@ class Fiber:
                     if payload.isEmpty():
                         continue
             else:
-                if default == 0:
+                if default == 0 or len(shape) > 1:
                     continue
 
                 payload = 0
-- 
2.43.0


From 8da0002fbb873095b7b273922411f82d63943d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:56 +0000
Subject: [PATCH 33/67] fix: Fiber.fromRandom fills the shape at density 1 when
 the default lies in its interval

---
 fibertree/core/fiber.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 1e823fa..eb5ad35 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -514,6 +514,8 @@ class Fiber:
             if random.random() < density[0]:
                 if len(shape) == 1:
                     payload = random.randint(1, interval)
+                    while payload == default and interval > 1:
+                        payload = random.randint(1, interval)
                     if payload == default:
                         continue
                 else:
-- 
2.43.0


From f0907df2d0cbff9344452a5a693ac50e4a778c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:00 +0000
Subject: [PATCH 34/67] fix: uncompress a fiber without elements

---
 fibertree/core/fiber.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index eb5ad35..f1a7623 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -3051,13 +3051,21 @@ class Fiber:
             # Find a fiber at the leaf level
             #
             f = self
-            while isinstance(f.payloads[0], Fiber):
+            while f.payloads and isinstance(f.payloads[0], Fiber):
                 f = f.payloads[0]
 
             #
-            # Use the **unboxed** default from the leaf level fiber
+            # Use the **unboxed** default from the leaf level fiber,
+            # or from the leaf rank if the tree ends before that level
             #
-            return Payload.get(f.getDefault())
+            rank = f.getOwner()
+
+            while rank is not None and rank.getNextRank() is not None:
+                rank = rank.getNextRank()
+
+            default = f.getDefault() if rank is None else rank.getDefault()
+
+            return Payload.get(default)
 
         f = []
 
-- 
2.43.0


From e0898d2ebfbd349890ec9a9673a518a54cff1bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:04 +0000
Subject: [PATCH 35/67] fix: a tensor loaded from YAML keeps its default

---
 fibertree/core/tensor.py | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 652f6e4..c80564a 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -136,7 +136,10 @@ class Tensor:
         if (yamlfile != ""):
             assert(rank_ids is None and shape is None)
 
-            (rank_ids, root, shape, name) = self.parse(yamlfile)
+            (rank_ids, root, shape, name, y_default) = self.parse(yamlfile)
+
+            if y_default != 0:
+                default = y_default
 
             if shape is None:
                 shape = root.estimateShape()
@@ -228,14 +231,8 @@ class Tensor:
         yamlfile: string
             Filename of file containing a YAML representation of a tensor
 
-
-        Todo
-        ----
-
-        YAML file does not provide a non-zero default value
-
         """
-        (rank_ids, root, shape, name) = Tensor.parse(yamlfile)
+        (rank_ids, root, shape, name, default) = Tensor.parse(yamlfile)
 
         if not isinstance(root, Fiber):
             t = Tensor(rank_ids=[], shape=shape, name=name)
@@ -243,7 +240,11 @@ class Tensor:
             t._root = Payload(root)
             return t
 
-        return Tensor.fromFiber(rank_ids, root, shape=shape, name=name)
+        return Tensor.fromFiber(rank_ids,
+                                root,
+                                shape=shape,
+                                name=name,
+                                default=default)
 
 
     @classmethod
@@ -1999,6 +2000,11 @@ class Tensor:
             # TBD: Maybe extract something from filename
             name = ""
 
+        #
+        # Get default value
+        #
+        default = y_tensor.get('default', 0)
+
         #
         # Make sure key "root" exists
         #
@@ -2012,9 +2018,9 @@ class Tensor:
         # Generate the tree recursively
         #   Note: fibers are added into self.ranks inside method
         #
-        fiber = Fiber.dict2fiber(y_root[0])
+        fiber = Fiber.dict2fiber(y_root[0], default=default)
 
-        return (rank_ids, fiber, shape, name)
+        return (rank_ids, fiber, shape, name, default)
 
 
     def dump(self, filename):
@@ -2033,6 +2039,15 @@ class Tensor:
                         'name': self.getName(),
                         'root': [root_dict]}}
 
+        #
+        # Only a default other than 0 needs to be recorded
+        #
+        if self.ranks:
+            default = Payload.get(self.getDefault())
+
+            if default != 0:
+                tensor_dict['tensor']['default'] = default
+
         with open(filename, 'w') as file:
             yaml.dump(tensor_dict, file)
 
-- 
2.43.0


From 774232b7ccb5e8c245dc10308fa004cdbab51754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:08 +0000
Subject: [PATCH 36/67] fix: the YAML and dictionary forms of a fiber keep its
 declared shape

---
 fibertree/core/fiber.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index f1a7623..695b05f 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -356,7 +356,9 @@ class Fiber:
 
         """
 
-        (coords, payloads) = Fiber.parse(yamlfile, default)
+        (coords, payloads, shape) = Fiber.parse(yamlfile, default)
+
+        kwargs.setdefault('shape', shape)
 
         return cls(coords, payloads, default=default, **kwargs)
 
@@ -4996,7 +4998,9 @@ class Fiber:
 
         newfiber = Fiber.dict2fiber(y_file, default=default)
 
-        return (newfiber.getCoords(), newfiber.getPayloads())
+        return (newfiber.getCoords(),
+                newfiber.getPayloads(),
+                newfiber.getRankAttrs().getShape())
 
 
 
@@ -5052,6 +5056,7 @@ class Fiber:
             #
             subtree = Fiber(coords=f_coords,
                             payloads=f_payloads,
+                            shape=y_fiber.get('shape'),
                             default=default)
         else:
             # Got scalars, so format is unchanged
@@ -5069,6 +5074,12 @@ class Fiber:
              {'coords': list(self.coords),
               'payloads': [Payload.payload2dict(p) for p in self.payloads]}}
 
+        #
+        # The shape of an owned fiber belongs to its rank
+        #
+        if self.getOwner() is None and self.getRankAttrs().getShape() is not None:
+            f['fiber']['shape'] = self.getRankAttrs().getShape()
+
         return f
 
 #
-- 
2.43.0


From 40d6b411d9688053714d7e3333e3256de2b26229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:57 +0000
Subject: [PATCH 37/67] fix: getPayloadRef records a use only when a trace was
 asked for

---
 fibertree/core/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 695b05f..5d8b1db 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -932,7 +932,7 @@ class Fiber:
         else:
             payload = self._create_payload(coords[0])
 
-        if Metrics.isCollecting():
+        if Metrics.isCollecting() and trace is not None:
             Metrics.addUse(self.getRankAttrs().getId(), coords[0], index, type_=trace)
 
         if len(coords) > 1:
-- 
2.43.0


From 4f5ffa81a79f4659d532dcec95575b4d78f6041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:02 +0000
Subject: [PATCH 38/67] fix: collecting while populating a fiber of undeclared
 shape no longer asserts

---
 fibertree/core/iterators.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 4211962..1b7255e 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -1136,7 +1136,7 @@ def __lshift__(self, other, start_pos=None):
             inserting = False
             old_end = 0
             to_insert = []
-            insert_pos = self.a_fiber.getShape(all_ranks=False, authoritative=True)
+            insert_pos = self.a_fiber.getShape(all_ranks=False)
             insert_start_pos = None
 
             for b_pos, (b_coord, b_payload) in enumerate(b):
@@ -1151,7 +1151,6 @@ def __lshift__(self, other, start_pos=None):
                     a_max = self.a_fiber.maxCoord()
                     if b_pos == 0 and a_max is not None and compressed_output:
                         inserting = b_coord < a_max
-                        assert insert_pos is not None
 
                     # Read the B coordinate
                     if b_traced:
-- 
2.43.0


From 7b69188a139de0b6ac61f776e4bbfe57836ec7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:37 +0000
Subject: [PATCH 39/67] fix: symmetric difference, difference and n-ary union
 no longer tick for their operands

---
 fibertree/core/iterators.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 1b7255e..9789701 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -585,7 +585,7 @@ def union(*args):
         fibers = args
 
         def __iter__(self):
-            for c, np in self.nested:
+            for c, np in self.nested.__iter__(tick=False):
                 p = [None] * (self.num_args + 1)
 
                 # This is the mask
@@ -1004,8 +1004,8 @@ def __xor__(self, other):
         b_fiber = other
 
         def __iter__(self):
-            a = self.a_fiber.__iter__()
-            b = self.b_fiber.__iter__()
+            a = self.a_fiber.__iter__(tick=False)
+            b = self.b_fiber.__iter__(tick=False)
 
             a_coord, a_payload = _get_next(a)
             b_coord, b_payload = _get_next(b)
@@ -1350,8 +1350,8 @@ def __sub__(self, other):
         b_fiber = other
 
         def __iter__(self):
-            a = self.a_fiber.__iter__()
-            b = self.b_fiber.__iter__()
+            a = self.a_fiber.__iter__(tick=False)
+            b = self.b_fiber.__iter__(tick=False)
 
             a_coord, a_payload = _get_next(a)
             b_coord, b_payload = _get_next(b)
-- 
2.43.0


From 9c15049797bada32cd0108f94b1564b7baffcd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:41 +0000
Subject: [PATCH 40/67] fix: co-iterating fibers of a flattened (list-named)
 rank works while collecting

---
 fibertree/core/iterators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 9789701..24e925f 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -520,7 +520,7 @@ def intersection(*args, **kwargs):
                 leader_traced = False
                 traces = [""] * len(self.fibers)
                 if is_collecting:
-                    rank = self.fibers[0].getRankAttrs().getId()
+                    rank = str(self.fibers[0].getRankAttrs().getId())
                     traces = ["intersect_" + str(Metrics.getLabel(rank)) \
                               for _ in range(len(self.fibers))]
 
@@ -703,7 +703,7 @@ def __and__(self, other):
             a_traced = False
             b_traced = False
             if is_collecting:
-                rank = self.a_fiber.getRankAttrs().getId()
+                rank = str(self.a_fiber.getRankAttrs().getId())
                 a_label = str(Metrics.getLabel(rank))
                 b_label = str(Metrics.getLabel(rank))
 
@@ -872,7 +872,7 @@ def __or__(self, other):
             a_traced = False
             b_traced = False
             if is_collecting:
-                rank = self.a_fiber.getRankAttrs().getId()
+                rank = str(self.a_fiber.getRankAttrs().getId())
                 a_label = str(Metrics.getLabel(rank))
                 b_label = str(Metrics.getLabel(rank))
 
@@ -1110,7 +1110,7 @@ def __lshift__(self, other, start_pos=None):
             a_write_traced = False
             b_traced = False
             if is_collecting:
-                rank = self.a_fiber.getRankAttrs().getId()
+                rank = str(self.a_fiber.getRankAttrs().getId())
                 a_label = str(Metrics.getLabel(rank))
                 b_label = str(Metrics.getLabel(rank))
                 compressed_output = self.a_fiber.getRankAttrs().getFormat() == "C"
-- 
2.43.0


From 2df93d43699988cb130614fe5cbbd49586279d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:44 +0000
Subject: [PATCH 41/67] fix: iterating over a shape records its iterations in
 the iter trace

---
 fibertree/core/fiber.py     | 4 ++--
 fibertree/core/iterators.py | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 5d8b1db..0ee77f9 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -859,7 +859,7 @@ class Fiber:
             const_used = True
 
         if Metrics.isCollecting() and trace is not None:
-            Metrics.addUse(self.getRankAttrs().getId(), coords[0], index, type_=trace)
+            Metrics.addUse(str(self.getRankAttrs().getId()), coords[0], index, type_=trace)
 
         if not const_used and len(coords) > 1:
             assert Payload.contains(payload, Fiber), \
@@ -933,7 +933,7 @@ class Fiber:
             payload = self._create_payload(coords[0])
 
         if Metrics.isCollecting() and trace is not None:
-            Metrics.addUse(self.getRankAttrs().getId(), coords[0], index, type_=trace)
+            Metrics.addUse(str(self.getRankAttrs().getId()), coords[0], index, type_=trace)
 
         if len(coords) > 1:
             # Recurse to the next level's fiber
diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 24e925f..1a98bb2 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -208,11 +208,13 @@ def iterRangeShape(self, start, end, step=1, tick=True):
 
     is_collecting, rank = _prep_metrics_inc(self)
 
+    trace = None
     if is_collecting and tick:
         Metrics.registerRank(rank)
+        trace = "iter"
 
     for c in range(start, end, step):
-        p = self.getPayload(c)
+        p = self.getPayload(c, trace=trace)
         yield CoordPayload(c, p)
 
         if is_collecting and tick:
@@ -242,11 +244,13 @@ def iterRangeShapeRef(self, start, end, step=1, tick=True):
 
     is_collecting, rank = _prep_metrics_inc(self)
 
+    trace = None
     if is_collecting and tick:
         Metrics.registerRank(rank)
+        trace = "iter"
 
     for c in range(start, end, step):
-        p = self.getPayloadRef(c)
+        p = self.getPayloadRef(c, trace=trace)
         yield CoordPayload(c, p)
 
         if is_collecting and tick:
-- 
2.43.0


From bae997b33a76c29a6f381746cc7e7ac295273b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:03 +0000
Subject: [PATCH 42/67] fix: a trace whose rank was never reached does not keep
 an old file's rows

---
 fibertree/core/metrics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/metrics.py b/fibertree/core/metrics.py
index 396df81..5026c72 100644
--- a/fibertree/core/metrics.py
+++ b/fibertree/core/metrics.py
@@ -655,11 +655,13 @@ class Metrics:
         None
 
         """
-        file_trace, mem_trace, _ = cls.traces[rank][type_]
+        file_trace, mem_trace, is_started = cls.traces[rank][type_]
         assert file_trace is not None
 
         trace_strs = [",".join(str(val) for val in line) + "\n" for line in file_trace]
-        with open(cls.prefix + "-" + rank + "-" + type_ + ".csv", "a") as f:
+        # A trace that was never started must not keep an earlier file's rows
+        mode = "a" if is_started else "w"
+        with open(cls.prefix + "-" + rank + "-" + type_ + ".csv", mode) as f:
             f.write("".join(trace_strs))
 
         cls.traces[rank][type_] = ([], mem_trace, True)
-- 
2.43.0


From 140909facaa3ae247188f18ca9dbdee8247b0c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:06 +0000
Subject: [PATCH 43/67] fix: a trace requested after its rank was reached
 starts with a header

---
 fibertree/core/metrics.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/metrics.py b/fibertree/core/metrics.py
index 5026c72..7156ebd 100644
--- a/fibertree/core/metrics.py
+++ b/fibertree/core/metrics.py
@@ -631,10 +631,23 @@ class Metrics:
             cls.traces[rank][type_] = (None, None, False)
 
         file_trace, mem_trace, is_started = cls.traces[rank][type_]
+
+        # Tracing something already traced must not drop its rows
+        if (mem_trace if consumable else file_trace) is not None:
+            return
+
+        new_trace = (None, [], False) if consumable else ([], None, False)
+        cls.traces[rank][type_] = new_trace
+
+        # The rank may already have been reached
+        if rank in cls.line_order or rank in cls.rank_matches:
+            cls._startTrace(rank, type_)
+
+        is_started = cls.traces[rank][type_][2]
         if consumable:
-            cls.traces[rank][type_] = (file_trace, [], is_started)
+            cls.traces[rank][type_] = (file_trace, new_trace[1], is_started)
         else:
-            cls.traces[rank][type_] = ([], mem_trace, is_started)
+            cls.traces[rank][type_] = (new_trace[0], mem_trace, is_started)
 
     @classmethod
     def _writeTrace(cls, rank, type_):
-- 
2.43.0


From 31f17ec99e9d02e76daecd69849ec9b3fcaafb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:36 +0000
Subject: [PATCH 44/67] fix: a projection inside a co-iteration is associated
 with its loop

---
 fibertree/core/fiber.py   |  6 +++---
 fibertree/core/metrics.py | 42 ++++++++++++++++++++++++++++++---------
 2 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 0ee77f9..9f1b1a5 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1362,14 +1362,14 @@ class Fiber:
 
                 # Associate the src and dst ranks
                 if Metrics.isCollecting():
-                    src_rank = self.fbr.getRankAttrs().getId()
-                    Metrics.matchRanks(src_rank, self.rank)
+                    src_rank = str(self.fbr.getRankAttrs().getId())
+                    Metrics.matchRanks(src_rank, str(self.rank))
 
             def __iter__(self):
                 is_collecting = Metrics.isCollecting()
                 traced = False
                 if is_collecting:
-                    src_rank = self.fbr.getRankAttrs().getId()
+                    src_rank = str(self.fbr.getRankAttrs().getId())
                     if tick:
                         Metrics.registerRank(src_rank)
 
diff --git a/fibertree/core/metrics.py b/fibertree/core/metrics.py
index 7156ebd..7ab3f0c 100644
--- a/fibertree/core/metrics.py
+++ b/fibertree/core/metrics.py
@@ -491,6 +491,11 @@ class Metrics:
         for rank in all_matches:
             cls.all_rank_matches[rank] = all_matches.difference({rank})
 
+        # One of the ranks may already be part of the loop order
+        for rank in cls.loop_order or []:
+            if rank in all_matches:
+                cls._startMatches(rank)
+
     @classmethod
     def registerRank(cls, rank):
         """Register a rank as a part of the loop order
@@ -523,15 +528,7 @@ class Metrics:
             for type_ in cls.traces[rank]:
                 cls._startTrace(rank, type_)
 
-        for src_rank, dst_ranks in cls.all_rank_matches.items():
-            if rank not in dst_ranks:
-                continue
-
-            cls.rank_matches[src_rank] = rank
-
-            if src_rank in cls.traces.keys():
-                for type_ in cls.traces[src_rank]:
-                    cls._startTrace(src_rank, type_)
+        cls._startMatches(rank)
 
     @classmethod
     def setNumCachedUses(cls, num_cached_uses):
@@ -554,6 +551,33 @@ class Metrics:
 
         cls.num_cached_uses = num_cached_uses
 
+    @classmethod
+    def _startMatches(cls, rank):
+        """Associate the matches of a registered rank with its loop
+
+        Parameters
+        ----------
+
+        rank: str
+            The name of the registered rank
+
+        Returns
+        -------
+
+        None
+
+        """
+        for src_rank, dst_ranks in cls.all_rank_matches.items():
+            if rank not in dst_ranks or src_rank in cls.line_order \
+                    or cls.rank_matches.get(src_rank) == rank:
+                continue
+
+            cls.rank_matches[src_rank] = rank
+
+            if src_rank in cls.traces.keys():
+                for type_ in cls.traces[src_rank]:
+                    cls._startTrace(src_rank, type_)
+
     @classmethod
     def _startTrace(cls, rank, type_="iter"):
         """Start to trace the given rank
-- 
2.43.0


From 2e2f9a83c9472a774f4379efc540a03318db09e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:07 +0000
Subject: [PATCH 45/67] fix: the last element a projection delivers is traced
 even if its consumer stops

---
 fibertree/core/fiber.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 9f1b1a5..eeb0914 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1392,11 +1392,14 @@ class Fiber:
 
                     if self.interv is None \
                             or (c >= self.interv[0] and c < self.interv[1]):
-                        yield c, p
-
+                        # Stamp the access with the iteration that asked for it
                         if traced:
                             Metrics.addUse(src_rank, old_c, i + j,
                                 type_=trace, iteration_num=iteration)
+
+                        yield c, p
+
+                        if traced:
                             iteration = Metrics.getIter().copy()
 
         if interval:
-- 
2.43.0


From 6ad1857129098e37657a35901a46628274eac93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:47 +0000
Subject: [PATCH 46/67] fix: transforms and queries do not tick for the fibers
 they visit

---
 fibertree/core/fiber.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index eeb0914..6ab74d8 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -577,7 +577,7 @@ class Fiber:
 
         f_out = cls(**kwargs, default=fiber.getDefault())
 
-        for c, (f_ref, f_val) in f_out << fiber:
+        for c, (f_ref, f_val) in (f_out << fiber).__iter__(tick=False):
             f_ref <<= f_val
 
         return f_out
@@ -2743,7 +2743,7 @@ class Fiber:
             if shape and all_ranks:
                 # Not authoritative
                 rest = []
-                for _, p in self:
+                for _, p in self.__iter__(tick=False):
                     if not isinstance(p, Fiber):
                         continue
 
@@ -3034,7 +3034,7 @@ class Fiber:
         f = []
 
         shape_fiber = Fiber(coords=list(range(shape[level])), initial=1)
-        for c, (mask, p, _) in self | shape_fiber:
+        for c, (mask, p, _) in (self | shape_fiber).__iter__(tick=False):
 
             if (mask == "AB"):
                 if Payload.contains(p, Fiber):
@@ -3136,7 +3136,7 @@ class Fiber:
         if owner is None or owner.getNextRank() is None:
             self._setDefault(other.getDefault())
 
-        for c, p in other:
+        for c, p in other.__iter__(tick=False):
             ref = self.getPayloadRef(c)
             ref <<= p
 
@@ -4411,7 +4411,7 @@ class Fiber:
             default = p1.getDefault()
 
             low_shape = p1.getShape(all_ranks=False, authoritative=True)
-            for c0, p0 in p1:
+            for c0, p0 in p1.__iter__(tick=False):
                 new_coord = self._flattenCoords(c1,
                                                 c0,
                                                 style=style,
@@ -4481,7 +4481,7 @@ class Fiber:
         coords = []
         payloads = []
         union_fiber = union(*to_merge)
-        for c, ps in union_fiber:
+        for c, ps in union_fiber.__iter__(tick=False):
             coords.append(c)
             new_merge = Payload.get(ps)[1:]
             payloads.append(Fiber._mergeToFibertree(new_merge, merge_fn))
-- 
2.43.0


From 4ea1009d7a4f33edfca3c0beebf867e8d99f9054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:01 +0000
Subject: [PATCH 47/67] fix: intersect, union and populate traces count skipped
 elements in their positions

---
 fibertree/core/iterators.py | 91 +++++++++++++++++++++----------------
 1 file changed, 53 insertions(+), 38 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 1a98bb2..44f71c6 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -530,9 +530,10 @@ def intersection(*args, **kwargs):
 
                     leader_traced = Metrics.isTraced(rank, traces[0])
 
-                for i, (c, p) in enumerate(self.fibers[0].__iter__(tick=False)):
+                leader = _PosIter(self.fibers[0])
+                for c, p in leader:
                     if leader_traced:
-                        Metrics.addUse(rank, c, i, type_=traces[0])
+                        Metrics.addUse(rank, c, leader.pos, type_=traces[0])
 
                     payloads = [p]
                     for j, fiber in enumerate(self.fibers[1:]):
@@ -635,6 +636,34 @@ def _get_next(iter_):
 
     return CoordPayload(coord, payload)
 
+class _PosIter:
+    """Iterate over a fiber without ticking, tracking the position of the last
+    element delivered
+
+    In a compressed fiber, that is the index of the element, so any elements
+    that are skipped because they are empty are counted
+    """
+    def __init__(self, fiber, start_pos=None):
+        self.iter_ = fiber.__iter__(tick=False, start_pos=start_pos)
+        self.fiber = fiber
+        self.pos = -1 if start_pos is None else start_pos - 1
+        self.skips = not fiber.isLazy() \
+            and fiber.getRankAttrs().getFormat() == "C"
+
+    def __iter__(self):
+        return self
+
+    def __next__(self):
+        coord, payload = next(self.iter_)
+
+        self.pos += 1
+        if self.skips:
+            coords = self.fiber.coords
+            while self.pos < len(coords) and coords[self.pos] != coord:
+                self.pos += 1
+
+        return CoordPayload(coord, payload)
+
 def _extend_coords(iter_, extra):
     """_extend_coords
 
@@ -717,12 +746,9 @@ def __and__(self, other):
                 a_traced = Metrics.isTraced(rank, a_trace)
                 b_traced = Metrics.isTraced(rank, b_trace)
 
-                a_pos = 0
-                b_pos = 0
-
             # Get the iterators
-            a = self.a_fiber.__iter__(tick=False)
-            b = self.b_fiber.__iter__(tick=False)
+            a = a_elems = _PosIter(self.a_fiber)
+            b = b_elems = _PosIter(self.b_fiber)
 
             a_coord, a_payload = _get_next(a)
             b_coord, b_payload = _get_next(b)
@@ -739,7 +765,8 @@ def __and__(self, other):
 
             elif len_a < len_b:
                 extra = (ANY,) * (len_b - len_a)
-                a = _extend_coords(self.a_fiber.__iter__(tick=False), extra)
+                a_elems = _PosIter(self.a_fiber)
+                a = _extend_coords(a_elems, extra)
 
                 a_coord, a_payload = _get_next(a)
 
@@ -752,7 +779,8 @@ def __and__(self, other):
             # len_a > len_b
             else:
                 extra = (ANY,) * (len_a - len_b)
-                b = _extend_coords(self.b_fiber.__iter__(tick=False), extra)
+                b_elems = _PosIter(self.b_fiber)
+                b = _extend_coords(b_elems, extra)
 
                 b_coord, b_payload = _get_next(b)
 
@@ -766,12 +794,10 @@ def __and__(self, other):
                 if a_coord == b_coord:
 
                     if a_traced:
-                        Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
-                        a_pos += 1
+                        Metrics.addUse(rank, a_coord, a_elems.pos, type_=a_trace)
 
                     if b_traced:
-                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
-                        b_pos += 1
+                        Metrics.addUse(rank, b_coord, b_elems.pos, type_=b_trace)
 
                     yield succ_yield(a_coord, b_coord), (a_payload, b_payload)
 
@@ -782,8 +808,7 @@ def __and__(self, other):
 
                 if a_coord < b_coord:
                     if a_traced:
-                        Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
-                        a_pos += 1
+                        Metrics.addUse(rank, a_coord, a_elems.pos, type_=a_trace)
 
                     if is_collecting:
                         Metrics.incIter(rank)
@@ -794,8 +819,7 @@ def __and__(self, other):
 
                 if a_coord > b_coord:
                     if b_traced:
-                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
-                        b_pos += 1
+                        Metrics.addUse(rank, b_coord, b_elems.pos, type_=b_trace)
 
                     if is_collecting:
                         Metrics.incIter(rank)
@@ -805,10 +829,10 @@ def __and__(self, other):
                     continue
 
             if a_traced and a_coord is not None:
-                Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
+                Metrics.addUse(rank, a_coord, a_elems.pos, type_=a_trace)
 
             if b_traced and b_coord is not None:
-                Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
+                Metrics.addUse(rank, b_coord, b_elems.pos, type_=b_trace)
 
             if is_collecting:
                 Metrics.incIter(rank)
@@ -886,11 +910,8 @@ def __or__(self, other):
                 a_traced = Metrics.isTraced(rank, a_trace)
                 b_traced = Metrics.isTraced(rank, b_trace)
 
-                a_pos = 0
-                b_pos = 0
-
-            a = self.a_fiber.__iter__(tick=False)
-            b = self.b_fiber.__iter__(tick=False)
+            a = a_elems = _PosIter(self.a_fiber)
+            b = b_elems = _PosIter(self.b_fiber)
 
             a_coord, a_payload = _get_next(a)
             b_coord, b_payload = _get_next(b)
@@ -898,12 +919,10 @@ def __or__(self, other):
             while a_coord is not None and b_coord is not None:
                 if a_coord == b_coord:
                     if a_traced:
-                        Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
-                        a_pos += 1
+                        Metrics.addUse(rank, a_coord, a_elems.pos, type_=a_trace)
 
                     if b_traced:
-                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
-                        b_pos += 1
+                        Metrics.addUse(rank, b_coord, b_elems.pos, type_=b_trace)
 
                     yield a_coord, ("AB", a_payload, b_payload)
 
@@ -914,8 +933,7 @@ def __or__(self, other):
 
                 elif a_coord < b_coord:
                     if a_traced:
-                        Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
-                        a_pos += 1
+                        Metrics.addUse(rank, a_coord, a_elems.pos, type_=a_trace)
 
                     b_default = self.b_fiber._createDefault(addtorank=False)
                     yield a_coord, ("A", a_payload, b_default)
@@ -924,8 +942,7 @@ def __or__(self, other):
                 # a_coord > b_coord
                 else:
                     if b_traced:
-                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
-                        b_pos += 1
+                        Metrics.addUse(rank, b_coord, b_elems.pos, type_=b_trace)
 
                     a_default = self.a_fiber._createDefault(addtorank=False)
                     yield b_coord, ("B", a_default, b_payload)
@@ -933,8 +950,7 @@ def __or__(self, other):
 
             while a_coord is not None:
                 if a_traced:
-                    Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
-                    a_pos += 1
+                    Metrics.addUse(rank, a_coord, a_elems.pos, type_=a_trace)
 
                 b_default = self.b_fiber._createDefault(addtorank=False)
                 yield a_coord, ("A", a_payload, b_default)
@@ -942,8 +958,7 @@ def __or__(self, other):
 
             while b_coord is not None:
                     if b_traced:
-                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
-                        b_pos += 1
+                        Metrics.addUse(rank, b_coord, b_elems.pos, type_=b_trace)
 
                     a_default = self.a_fiber._createDefault(addtorank=False)
                     yield b_coord, ("B", a_default, b_payload)
@@ -1129,7 +1144,7 @@ def __lshift__(self, other, start_pos=None):
 
             # Add coordinates/payloads to a_fiber where necessary
             maybe_remove = False
-            b = self.b_fiber.__iter__(tick=False)
+            b = _PosIter(self.b_fiber)
 
             # Track the fiber position
             a_pos = self.spec_pos
@@ -1158,7 +1173,7 @@ def __lshift__(self, other, start_pos=None):
 
                     # Read the B coordinate
                     if b_traced:
-                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
+                        Metrics.addUse(rank, b_coord, b.pos, type_=b_trace)
 
                     # If we are inserting into a compressed fiber, we need
                     # to search for the coordinate
-- 
2.43.0


From 2b0ea1b1fefcab556b41fc3714dccb21e99a9fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:05 +0000
Subject: [PATCH 48/67] fix: project traces address the element read, also when
 skipping or reversing

---
 fibertree/core/fiber.py     | 29 ++++++++++++++++++-----------
 fibertree/core/iterators.py |  8 ++++----
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 6ab74d8..30e0f03 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -26,7 +26,7 @@ from .any import Any
 from .coord_payload import CoordPayload
 from .iterators import coiterShape, coiterShapeRef, coiterActiveShape, \
     coiterActiveShapeRef, coiterRangeShape, coiterRangeShapeRef, intersection, \
-    union
+    union, _PosIter
 from .metrics import Metrics
 from .payload import Payload
 from .rank_attrs import RankAttrs
@@ -1324,16 +1324,24 @@ class Fiber:
             assert not self.isLazy()
 
             # Build an iterator over the reversed fiber
+            pos_iter = _PosIter(self)
+            elems = [(cp, pos_iter.pos) for cp in pos_iter]
+
             class reversed_iterator:
-                cps = list(self.__iter__(tick=False))
+                cps = elems
 
                 def __iter__(self):
-                    return reversed(self.cps)
+                    return (cp for cp, _ in reversed(self.cps))
+
+            # The elements keep the positions they have in this fiber
+            positions = [pos for _, pos in reversed(elems)]
 
             fiber = Fiber.fromIterator(reversed_iterator)
             fiber._setDefault(self.getDefault())
+            fiber.getRankAttrs().setId(self.getRankAttrs().getId())
 
         else:
+            positions = None
             fiber = self
 
         # If there is a start_pos, make sure it is in range
@@ -1377,15 +1385,10 @@ class Fiber:
                     trace = "project_" + label
                     traced = Metrics.isTraced(src_rank, trace)
 
-                    if self.start is None:
-                        i = 0
-                    else:
-                        i = self.start
-
                     iteration = Metrics.getIter().copy()
 
-                fiter = self.fbr.__iter__(tick=self.tck, start_pos=self.start)
-                for j, (old_c, p) in enumerate(fiter):
+                fiter = _PosIter(self.fbr, tick=self.tck, start_pos=self.start)
+                for old_c, p in fiter:
                     c = self.trans(old_c)
                     if self.interv is not None and c >= self.interv[1]:
                         break
@@ -1394,7 +1397,11 @@ class Fiber:
                             or (c >= self.interv[0] and c < self.interv[1]):
                         # Stamp the access with the iteration that asked for it
                         if traced:
-                            Metrics.addUse(src_rank, old_c, i + j,
+                            pos = fiter.pos
+                            if positions is not None:
+                                pos = positions[pos]
+
+                            Metrics.addUse(src_rank, old_c, pos,
                                 type_=trace, iteration_num=iteration)
 
                         yield c, p
diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 44f71c6..20b606f 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -637,14 +637,14 @@ def _get_next(iter_):
     return CoordPayload(coord, payload)
 
 class _PosIter:
-    """Iterate over a fiber without ticking, tracking the position of the last
-    element delivered
+    """Iterate over a fiber, tracking the position of the last element
+    delivered
 
     In a compressed fiber, that is the index of the element, so any elements
     that are skipped because they are empty are counted
     """
-    def __init__(self, fiber, start_pos=None):
-        self.iter_ = fiber.__iter__(tick=False, start_pos=start_pos)
+    def __init__(self, fiber, tick=False, start_pos=None):
+        self.iter_ = fiber.__iter__(tick=tick, start_pos=start_pos)
         self.fiber = fiber
         self.pos = -1 if start_pos is None else start_pos - 1
         self.skips = not fiber.isLazy() \
-- 
2.43.0


From 654ff8ed0a0986cb6d9188cc1cfbcc7943946f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:27 +0000
Subject: [PATCH 49/67] fix: numOps of a kernel that executed no payload
 operation is 0

---
 fibertree/model/compute.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/fibertree/model/compute.py b/fibertree/model/compute.py
index 9b9833c..4f8d859 100644
--- a/fibertree/model/compute.py
+++ b/fibertree/model/compute.py
@@ -35,10 +35,7 @@ class Compute:
     def numOps(dump, op):
         """Compute the number of operations executed by this kernel """
         metric = "payload_" + op
-        if(metric in dump["Compute"].keys()):
-            return dump["Compute"][metric]
-        else:
-            return 0
+        return dump.get("Compute", {}).get(metric, 0)
 
     @staticmethod
     def numSwaps(tensor, depth, radix, next_latency):
-- 
2.43.0


From ca90b03ad55339a95bbc9a5ced8281aa67d8edab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:23 +0000
Subject: [PATCH 50/67] fix: the traffic models look up the staging area of
 each binding in its own rank

---
 fibertree/model/traffic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fibertree/model/traffic.py b/fibertree/model/traffic.py
index e23d083..03b9beb 100644
--- a/fibertree/model/traffic.py
+++ b/fibertree/model/traffic.py
@@ -471,9 +471,10 @@ class Traffic:
         shapes = []
         for i, info in enumerate(bind_info):
             if pin_intermediate_writes(info):
-                shape = formats[tensor].tensor.getShape(authoritative=True)
+                bound = formats[info[0]].tensor
+                shape = bound.getShape(authoritative=True)
                 assert shape is not None
-                shapes.append(shape[formats[tensor].tensor.getRankIds().index(rank)])
+                shapes.append(shape[bound.getRankIds().index(info[1])])
 
             else:
                 shapes.append(None)
-- 
2.43.0


From 91d3355595ee3f59a0e471ee50a925e370793419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:27 +0000
Subject: [PATCH 51/67] fix: filterTrace keeps repeated accesses to a point

---
 fibertree/model/traffic.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fibertree/model/traffic.py b/fibertree/model/traffic.py
index 03b9beb..0271840 100644
--- a/fibertree/model/traffic.py
+++ b/fibertree/model/traffic.py
@@ -58,11 +58,9 @@ class Traffic:
                 if data_in == data_fil:
                     f_out.write(line_in)
 
+                    # The next access may be to the same point
                     line_in = f_in.readline()
-                    line_fil = f_fil.readline()
-
                     data_in = get_data(line_in)
-                    data_fil = get_data(line_fil)[:len(data_in)]
 
                 elif data_in < data_fil:
                     line_in = f_in.readline()
-- 
2.43.0


From 70a4e35b85a0d29fbbc48cb16814d0d4c1539310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:50 +0000
Subject: [PATCH 52/67] fix: the cache model accepts accesses that share an
 iteration stamp

---
 fibertree/model/traffic.py | 58 +++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/fibertree/model/traffic.py b/fibertree/model/traffic.py
index 0271840..e949c53 100644
--- a/fibertree/model/traffic.py
+++ b/fibertree/model/traffic.py
@@ -636,20 +636,26 @@ class Traffic:
         """
         @functools.total_ordering
         class ListElem:
-            def __init__(self, bind_pos, next_access, obj):
+            def __init__(self, bind_pos, next_access, next_point, obj):
                 self.next_access = next_access
+                self.next_point = next_point
                 self.obj = obj
                 self.pos = bind_pos
 
             def __eq__(self, other):
-                return self.next_access == other.next_access and self.pos == other.pos
+                return self.next_access == other.next_access and \
+                    self.pos == other.pos and self.next_point == other.next_point
 
             def __lt__(self, other):
                 if self.next_access != other.next_access:
                     return self.next_access < other.next_access
 
                 # Fall back on the position if the next access is at the same point
-                return self.pos < other.pos
+                if self.pos != other.pos:
+                    return self.pos < other.pos
+
+                # Many accesses of a trace can share an iteration stamp
+                return self.next_point < other.next_point
 
             def __repr__(self):
                 return str((self.next_access, self.obj, self.pos))
@@ -677,47 +683,41 @@ class Traffic:
                 num_ranks, obj, objs, occupancy, order, shapes, sim_info, trace):
             next_evict, pinned, _ = sim_info
             next_access = trace[num_ranks * 2 + 2:num_ranks * 3 + 2]
+            next_point = trace[num_ranks * 3 + 2:-2]
             tensor, _, type_ = bind_info[bind_pos]
 
+            # If this element is in the cache, find it and, unless it is
+            # pinned, take it out of the eviction order
+            list_elem = None
+            if obj in objs[tensor][type_]:
+                list_elem = objs[tensor][type_][obj][1]
+
+                if obj not in pinned[tensor][type_]:
+                    i = next_evict.bisect_left(list_elem)
+                    while next_evict[i] is not list_elem:
+                        i += 1
+                    del next_evict[i]
+
             # Do not buffer if never used again
             if trace[num_ranks * 2 + 2] is None:
-                if obj in objs[tensor][type_]:
-                    if next_evict and next_evict[0].obj == obj:
-                        list_elem = next_evict.pop(0)
-                    else:
-                        assert obj in pinned[tensor][type_]
-                        list_elem = objs[tensor][type_][obj][1]
-
+                if list_elem is not None:
                     list_elem.next_access = [float("inf")]
 
-                else:
-                    list_elem = None
-
                 sim_info = next_evict, pinned, list_elem
                 return False, sim_info
 
-            # If this element is in the cache, but not pinned
-            if next_evict and next_evict[0].obj == obj \
-                    and next_evict[0].pos == bind_pos:
-                list_elem = next_evict.pop(0)
+            # If this element is in the cache, keep it there
+            if list_elem is not None:
                 list_elem.next_access = next_access
+                list_elem.next_point = next_point
 
-                next_evict.add(list_elem)
-                sim_info = next_evict, pinned, list_elem
-
-                return True, sim_info
-
-            # If the element is pinned
-            elif obj in pinned[tensor][type_]:
-                list_elem = objs[tensor][type_][obj][1]
-                list_elem.next_access = next_access
+                if obj not in pinned[tensor][type_]:
+                    next_evict.add(list_elem)
 
                 sim_info = next_evict, pinned, list_elem
                 return True, sim_info
 
-            assert obj not in objs[tensor][type_]
-
-            list_elem = ListElem(bind_pos, next_access, obj)
+            list_elem = ListElem(bind_pos, next_access, next_point, obj)
             sim_info = next_evict, pinned, list_elem
             # Definitely buffer if there is space in the buffer
             if occupancy + line_sz <= capacity:
-- 
2.43.0


From 797ff05ec8e678cb360537936710bf089092fc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:05 +0000
Subject: [PATCH 53/67] fix: intersectors accept batches from before the first
 fiber

---
 fibertree/model/intersect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fibertree/model/intersect.py b/fibertree/model/intersect.py
index 71e1b0d..fa7edf9 100644
--- a/fibertree/model/intersect.py
+++ b/fibertree/model/intersect.py
@@ -76,7 +76,7 @@ class LeaderFollowerIntersector(Intersector):
         new_intersects = len(traces[0])
 
         # Throw away the header, since we don't need it
-        if not self.started:
+        if not self.started and traces[0]:
             self.started = True
             new_intersects -= 1
 
@@ -204,7 +204,7 @@ class TwoFingerIntersector(Intersector):
         trace1 = traces[1]
 
         # Throw away the header, since we don't need it
-        if not self.started:
+        if not self.started and trace0:
             self.started = True
 
             self.num_ranks = (len(trace0[0]) - 1) // 2
-- 
2.43.0


From 9a53dda1c7adc300bc231324eb0a7368957c31e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 54/67] fix: intersectors fed several fibers at once compare
 within fibers only

---
 fibertree/model/intersect.py | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/fibertree/model/intersect.py b/fibertree/model/intersect.py
index fa7edf9..29f819f 100644
--- a/fibertree/model/intersect.py
+++ b/fibertree/model/intersect.py
@@ -121,7 +121,9 @@ class SkipAheadIntersector(Intersector):
 
         def get_next(trace, i):
             if i + 1 < len(trace):
-                return trace[i + 1][self.num_ranks:self.num_ranks * 2], i + 1
+                row = trace[i + 1]
+                # The iteration stamp of the outer ranks identifies the fiber
+                return row[:self.num_ranks - 1] + row[self.num_ranks * 2 - 1:-1], i + 1
             return None, None
 
         point0, i0 = get_next(trace0, i0)
@@ -130,13 +132,19 @@ class SkipAheadIntersector(Intersector):
         if point0 is None or point1 is None:
             return
 
-        assert point0 is not None and point1 is not None and point0[:-1] == point1[:-1]
-
         fiber = point0[:-1]
         curr = None
 
         while point0 and point1:
-            if point0 == point1:
+            # If only one operand has (more) elements in this fiber, there is
+            # nothing to compare them to
+            if point0[:-1] != point1[:-1]:
+                if point0[:-1] < point1[:-1]:
+                    point0, i0 = get_next(trace0, i0)
+                else:
+                    point1, i1 = get_next(trace1, i1)
+
+            elif point0 == point1:
                 self.num_intersects += 1
                 curr = None
 
@@ -217,7 +225,9 @@ class TwoFingerIntersector(Intersector):
 
         def get_next(trace, i):
             if i + 1 < len(trace):
-                return trace[i + 1][self.num_ranks:self.num_ranks * 2], i + 1
+                row = trace[i + 1]
+                # The iteration stamp of the outer ranks identifies the fiber
+                return row[:self.num_ranks - 1] + row[self.num_ranks * 2 - 1:-1], i + 1
             return None, None
 
         point0, i0 = get_next(trace0, i0)
@@ -226,11 +236,22 @@ class TwoFingerIntersector(Intersector):
         if point0 is None or point1 is None:
             return
 
-        assert point0 is not None and point1 is not None and point0[:-1] == point1[:-1]
-
         fiber = point0[:-1]
 
         while point0 and point1:
+            # If only one operand has (more) elements in this fiber, there is
+            # nothing to compare them to
+            if point0[:-1] != point1[:-1]:
+                if point0[:-1] < point1[:-1]:
+                    point0, i0 = get_next(trace0, i0)
+                else:
+                    point1, i1 = get_next(trace1, i1)
+
+                if point0:
+                    fiber = point0[:-1]
+
+                continue
+
             self.num_intersects += 1
 
             if point0 == point1:
-- 
2.43.0


From df2cbcf01bea65239181e8376a940a766e0ac140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 55/67] fix: numSwaps depends on coordinates only, accepts
 empty fibers and radix "N"

---
 fibertree/model/compute.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/fibertree/model/compute.py b/fibertree/model/compute.py
index 4f8d859..8614f2c 100644
--- a/fibertree/model/compute.py
+++ b/fibertree/model/compute.py
@@ -72,18 +72,18 @@ class Compute:
         # Recurse if necessary
         if depth > 0:
             depth -= 1
-            for _, payload in fiber:
+            for payload in Compute._getLists(fiber):
                 swaps += Compute._numSwapsTree(payload, depth, radix, next_latency)
             return swaps
 
         # Otherwise merge
         coords = []
-        for _, payload in fiber:
+        for payload in Compute._getLists(fiber):
             coords.append(sorted([-c for c in payload.getCoords()]))
 
         while len(coords) > 1:
             new = []
-            if radix > len(coords):
+            if not isinstance(radix, int) or radix > len(coords):
                 radix = len(coords)
 
             for i in range(0, len(coords), radix):
@@ -97,6 +97,17 @@ class Compute:
 
         return swaps
 
+    @staticmethod
+    def _getLists(fiber):
+        """
+        Get the fibers below this one that take part in a swap, whatever
+        values they hold
+        """
+        if fiber.getRankAttrs().getFormat() == "U":
+            return [payload for _, payload in fiber.iterShape(tick=False)]
+
+        return [payload for payload in fiber.getPayloads() if len(payload) > 0]
+
     @staticmethod
     def _merge(coords, radix, next_latency):
         """
@@ -117,6 +128,9 @@ class Compute:
 
         # First insert all fibers
         for i, list_ in enumerate(coords):
+            if len(list_) == 0:
+                continue
+
             elem = (list_.pop(), i)
             j = bisect.bisect_right(head, elem)
             compares += len(head) - j + 1
-- 
2.43.0


From 5a572bc02e6e1cb28e8605cff202bb053b536e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:34 +0000
Subject: [PATCH 56/67] fix: intersectors identify fibers by stamp and
 coordinates

---
 fibertree/model/intersect.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fibertree/model/intersect.py b/fibertree/model/intersect.py
index 29f819f..fcb32cb 100644
--- a/fibertree/model/intersect.py
+++ b/fibertree/model/intersect.py
@@ -122,8 +122,9 @@ class SkipAheadIntersector(Intersector):
         def get_next(trace, i):
             if i + 1 < len(trace):
                 row = trace[i + 1]
-                # The iteration stamp of the outer ranks identifies the fiber
-                return row[:self.num_ranks - 1] + row[self.num_ranks * 2 - 1:-1], i + 1
+                # The iteration stamp and the coordinates of the outer ranks
+                # identify the fiber
+                return row[:self.num_ranks - 1] + row[self.num_ranks:-1], i + 1
             return None, None
 
         point0, i0 = get_next(trace0, i0)
@@ -226,8 +227,9 @@ class TwoFingerIntersector(Intersector):
         def get_next(trace, i):
             if i + 1 < len(trace):
                 row = trace[i + 1]
-                # The iteration stamp of the outer ranks identifies the fiber
-                return row[:self.num_ranks - 1] + row[self.num_ranks * 2 - 1:-1], i + 1
+                # The iteration stamp and the coordinates of the outer ranks
+                # identify the fiber
+                return row[:self.num_ranks - 1] + row[self.num_ranks:-1], i + 1
             return None, None
 
         point0, i0 = get_next(trace0, i0)
-- 
2.43.0


From 237dbf9bb09659e185abc5fef035615ffbb59c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 57/67] fix: trace inserting populates over tuple coordinates

---
 fibertree/core/iterators.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 20b606f..d8e4941 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -7,6 +7,7 @@ A module storing the implementations of all of the iterators of the Fiber class
 """
 
 import bisect
+import math
 
 from .any import ANY
 from .coord_payload import CoordPayload
@@ -674,6 +675,28 @@ def _extend_coords(iter_, extra):
         prefix = coord if isinstance(coord, tuple) else (coord,)
         yield CoordPayload(prefix + extra, payload)
 
+def _next_coord(coord):
+    """_next_coord
+
+    Get the smallest coordinate that is larger than `coord`
+
+    """
+    if isinstance(coord, tuple):
+        return coord[:-1] + (_next_coord(coord[-1]),)
+
+    return coord + 1
+
+def _shape_size(shape):
+    """_shape_size
+
+    Get the number of coordinates in a shape
+
+    """
+    if isinstance(shape, tuple):
+        return math.prod(_shape_size(s) for s in shape)
+
+    return shape
+
 #
 # Merge methods
 #
@@ -1153,9 +1176,9 @@ def __lshift__(self, other, start_pos=None):
 
             # Insertion information tracing
             inserting = False
-            old_end = 0
+            old_end = None
             to_insert = []
-            insert_pos = self.a_fiber.getShape(all_ranks=False)
+            insert_pos = _shape_size(self.a_fiber.getShape(all_ranks=False))
             insert_start_pos = None
 
             for b_pos, (b_coord, b_payload) in enumerate(b):
@@ -1262,7 +1285,7 @@ def __lshift__(self, other, start_pos=None):
                     # If we just inserted into a compressed fiber, save the
                     # relevant information
                     if inserting and new_a_payload:
-                        old_end = b_coord + 1
+                        old_end = _next_coord(b_coord)
                         write_pos = insert_pos + len(to_insert)
                         to_insert.append(b_coord)
 
-- 
2.43.0


From 0ddd38e37a97766cc867cbb16f13b7f2a08e0801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:54 +0000
Subject: [PATCH 58/67] fix: a staging access pins a line that is in the cache
 already

---
 fibertree/model/traffic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fibertree/model/traffic.py b/fibertree/model/traffic.py
index e949c53..74c5e11 100644
--- a/fibertree/model/traffic.py
+++ b/fibertree/model/traffic.py
@@ -711,6 +711,10 @@ class Traffic:
                 list_elem.next_access = next_access
                 list_elem.next_point = next_point
 
+                # A staging access pins a line that is in the cache already
+                if shapes[bind_pos] is not None and trace[num_ranks * 2] >= shapes[bind_pos]:
+                    pinned[tensor][type_].add(obj)
+
                 if obj not in pinned[tensor][type_]:
                     next_evict.add(list_elem)
 
-- 
2.43.0


From 16c48b462c599fec735bf4273ba13d492bb3828a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:46 +0000
Subject: [PATCH 59/67] fix: estimateShape counts the maximum coordinate of
 every fiber of a rank

---
 fibertree/core/fiber.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 30e0f03..27dea72 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2835,8 +2835,11 @@ class Fiber:
         new_shape = Fiber._transCoord(max_coord, lambda c: c + 1)
         if len(shape) < level + 1:
             shape.append(new_shape)
+        elif shape[level] == 0:
+            # Only empty fibers so far
+            shape[level] = new_shape
         else:
-            shape[level] = max(shape[level], Fiber._transCoord(max_coord))
+            shape[level] = max(shape[level], new_shape)
 
         #
         # Recursively process payloads that are Fibers
-- 
2.43.0


From c45fa522b46cc2beee6de5da86fd7fdc32fa5515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 60/67] fix: the absent side of a nested merge gets the
 defaults of the operands at every level

---
 fibertree/core/fiber.py     |  9 +++++++++
 fibertree/core/iterators.py | 12 ++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 27dea72..4f89141 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -261,6 +261,10 @@ class Fiber:
         #
         self._outside_rank = False
 
+        # Creates the default payload of a lazy fiber, whose operands know
+        # their defaults at every level
+        self._default_fn = None
+
         # Create a rank_attrs
         if rank_attrs is not None:
             self.setRankAttrs(rank_attrs)
@@ -1146,6 +1150,7 @@ class Fiber:
 
         result = Fiber.fromIterator(prune_iterator, active_range=self.getActive())
         result._setDefault(self.getDefault())
+        result._default_fn = lambda: self._createDefault(addtorank=False)
         result.getRankAttrs().setId(self.getRankAttrs().getId())
 
         return result
@@ -1421,6 +1426,7 @@ class Fiber:
 
         result = Fiber.fromIterator(project_iterator, active_range=(min_, max_))
         result._setDefault(self.getDefault())
+        result._default_fn = lambda: self._createDefault(addtorank=False)
         if rank_id is not None:
             result.getRankAttrs().setId(rank_id)
 
@@ -1666,6 +1672,9 @@ class Fiber:
 
         """
 
+        if self._default_fn is not None:
+            return Payload.maybe_box(self._default_fn())
+
         owner = self.getOwner()
 
         default = self.getDefault()
diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index d8e4941..97d0aa6 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -545,6 +545,7 @@ def intersection(*args, **kwargs):
 
     # Call the constructor via the first argument
     fiber = args[0].fromIterator(intersection_iterator, active_range=args[0].getActive())
+    fiber._default_fn = lambda: _create_defaults(args)
     fiber.getRankAttrs().setId(args[0].getRankAttrs().getId())
     return fiber
 
@@ -622,11 +623,18 @@ def union(*args):
 
     fiber = args[0].fromIterator(union_iterator, active_range=args[0].getActive())
     fiber._setDefault(tuple([""]+[arg.getDefault() for arg in args]))
+    fiber._default_fn = lambda: _create_defaults(args, "")
     fiber.getRankAttrs().setId(args[0].getRankAttrs().getId())
     return fiber
 #
 # Private functions for used in merge methods
 #
+def _create_defaults(fibers, *mask):
+    """Create the payload a merge of the fibers has where all are absent"""
+    return tuple(Payload.maybe_box(p) for p in mask) \
+        + tuple(fiber._createDefault(addtorank=False) for fiber in fibers)
+
+
 def _get_next(iter_):
     """get_next"""
 
@@ -863,6 +871,7 @@ def __and__(self, other):
             return
 
     fiber = self.fromIterator(and_iterator, active_range=self.getActive())
+    fiber._default_fn = lambda: _create_defaults([self, other])
     fiber.getRankAttrs().setId(self.getRankAttrs().getId())
     return fiber
 
@@ -989,6 +998,7 @@ def __or__(self, other):
 
     result = self.fromIterator(or_iterator, active_range=self.getActive())
     result._setDefault(("", self.getDefault(), other.getDefault()))
+    result._default_fn = lambda: _create_defaults([self, other], "")
     result.getRankAttrs().setId(self.getRankAttrs().getId())
 
     return result
@@ -1080,6 +1090,7 @@ def __xor__(self, other):
 
     result = self.fromIterator(xor_iterator, active_range=self.getActive())
     result._setDefault(("", self.getDefault(), other.getDefault()))
+    result._default_fn = lambda: _create_defaults([self, other], "")
     result.getRankAttrs().setId(self.getRankAttrs().getId())
 
     return result
@@ -1417,6 +1428,7 @@ def __sub__(self, other):
 
     result = self.fromIterator(sub_iterator, active_range=self.getActive())
     result._setDefault(self.getDefault())
+    result._default_fn = lambda: self._createDefault(addtorank=False)
     result.getRankAttrs().setId(self.getRankAttrs().getId())
 
     return result
-- 
2.43.0


From 2c0122729aabfba9badf8ee1b8526ea2920a4760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 61/67] fix: updatePayloads() keeps the rank lists in step

When the function given to Fiber.updatePayloads() returned another
fiber, the tree had the new fiber but the rank below still listed (and
was reported by) the old one.
---
 fibertree/core/fiber.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 4f89141..6fd5a0d 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2686,7 +2686,12 @@ class Fiber:
             # Update my payloads
             for i, (c, p) in enumerate(zip(self.coords, self.payloads)):
                 if not Payload.isEmpty(p, default=self.getDefault()):
-                    self.payloads[i] = Payload.maybe_box(func(i, c, p))
+                    payload = Payload.maybe_box(func(i, c, p))
+
+                    if payload is not p:
+                        payload = self._adopt(payload)
+                        self._disown(p)
+                        self.payloads[i] = payload
 
         return None
 
-- 
2.43.0


From 129bc66a52343449a19315c1ff046f0785ea38e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 62/67] fix: a fiber outside the rank lists does not take
 fibers out of them

---
 fibertree/core/fiber.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 6fd5a0d..03f9100 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1025,6 +1025,9 @@ class Fiber:
         if owner is None or not isinstance(payload, Fiber):
             return
 
+        if self._outside_rank:
+            return
+
         if payload.getOwner() is None or payload.getOwner() is not owner.getNextRank():
             return
 
-- 
2.43.0


From a252b193b468490a049f80b6da8b2d9b6d90ea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:23 +0000
Subject: [PATCH 63/67] fix: CoordPayload <<= assigns the value instead of
 adding it

---
 fibertree/core/coord_payload.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/coord_payload.py b/fibertree/core/coord_payload.py
index eb81233..6810c7e 100644
--- a/fibertree/core/coord_payload.py
+++ b/fibertree/core/coord_payload.py
@@ -230,7 +230,9 @@ class CoordPayload():
         if isinstance(other, CoordPayload):
             self.payload <<= other.payload
         else:
-            self.payload <<= self.payload + other
+            self.payload <<= other
+
+        return self
 
 
     #
-- 
2.43.0


From 29c105b545db52365bb94bbc11661edb9da4349a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:27 +0000
Subject: [PATCH 64/67] fix: assigning an element of a fiber to a payload
 assigns its payload

---
 fibertree/core/payload.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fibertree/core/payload.py b/fibertree/core/payload.py
index 72b425e..6378f70 100644
--- a/fibertree/core/payload.py
+++ b/fibertree/core/payload.py
@@ -476,6 +476,12 @@ class Payload:
         if Metrics.isCollecting():
             Metrics.incCount("Compute", "payload_update", 1)
 
+        #
+        # Of an element of a fiber, assign the payload
+        #
+        if type(other).__name__ == "CoordPayload":
+            other = other.payload
+
         if isinstance(other, Payload):
             self.value = other.value
         else:
-- 
2.43.0


From a8deb58a5cb7651418edb745e2746096cd869602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:50 +0000
Subject: [PATCH 65/67] fix: arithmetic with an element of a fiber is counted
 once

---
 fibertree/core/payload.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/fibertree/core/payload.py b/fibertree/core/payload.py
index 6378f70..ea6a759 100644
--- a/fibertree/core/payload.py
+++ b/fibertree/core/payload.py
@@ -384,9 +384,18 @@ class Payload:
 #
 # Arithmetic operations
 #
+    @staticmethod
+    def _operand(other):
+        """The payload of an element of a fiber, and anything else as it is"""
+
+        return other.payload if type(other).__name__ == "CoordPayload" else other
+
+
     def __add__(self, other):
         """__add__"""
 
+        other = Payload._operand(other)
+
         if isinstance(other, Payload):
             ans = self.value + other.value
         else:
@@ -412,6 +421,7 @@ class Payload:
     def __iadd__(self, other):
         """__iadd__"""
         old = self.value
+        other = Payload._operand(other)
 
         if isinstance(other, Payload):
             self.value = self.value + other.value
@@ -476,11 +486,7 @@ class Payload:
         if Metrics.isCollecting():
             Metrics.incCount("Compute", "payload_update", 1)
 
-        #
-        # Of an element of a fiber, assign the payload
-        #
-        if type(other).__name__ == "CoordPayload":
-            other = other.payload
+        other = Payload._operand(other)
 
         if isinstance(other, Payload):
             self.value = other.value
@@ -519,6 +525,8 @@ class Payload:
     def __mul__(self, other):
         """__mul__"""
 
+        other = Payload._operand(other)
+
         if isinstance(other, Payload):
             ans = self.value * other.value
         else:
@@ -555,6 +563,8 @@ class Payload:
     def __imul__(self, other):
         """__imul__"""
 
+        other = Payload._operand(other)
+
         if isinstance(other, Payload):
             self.value = self.value * other.value
         else:
-- 
2.43.0


From af69ac7a64eba39d0480b5f6c0b8b2e39eb58041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:41 +0000
Subject: [PATCH 66/67] fix: n-ary intersection keeps the tuple payloads of its
 first operand

---
 fibertree/core/iterators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 97d0aa6..57f86f4 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -504,11 +504,13 @@ def intersection(*args, **kwargs):
         # Lazy implementation
         class intersection_iterator:
             nested = nested_result
+            num_args = len(args)
 
             def __iter__(self):
                 for c, np in self.nested.__iter__(tick=False):
                     p = []
-                    while isinstance(Payload.get(np), tuple):
+                    # The payloads of the first argument may be tuples as well
+                    for _ in range(self.num_args - 1):
                         val = Payload.get(np)
                         p.append(val[1])
                         np = val[0]
-- 
2.43.0


From f15bcca290ef6af4395bf80830992e26debb332b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:11 +0000
Subject: [PATCH 67/67] fix: a traced look-up does not move the point of the
 loop nest

---
 fibertree/core/fiber.py   | 36 ++++++++++++++++++++++++++++++-----
 fibertree/core/metrics.py | 40 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 71 insertions(+), 5 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 03f9100..7acf99f 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -862,7 +862,12 @@ class Fiber:
             payload = Payload.maybe_box(default)
             const_used = True
 
+        point = None
         if Metrics.isCollecting() and trace is not None:
+            # Only a loop moves on to the coordinate, a look-up does not
+            if trace != "iter":
+                point = Metrics.getPoint()
+
             Metrics.addUse(str(self.getRankAttrs().getId()), coords[0], index, type_=trace)
 
         if not const_used and len(coords) > 1:
@@ -870,10 +875,18 @@ class Fiber:
                 "getPayload too many coordinates"
 
             # Recurse to the next level's fiber
-            return payload.getPayload(*coords[1:],
-                                      default=default,
-                                      allocate=allocate,
-                                      trace=trace)
+            payload = payload.getPayload(*coords[1:],
+                                         default=default,
+                                         allocate=allocate,
+                                         trace=trace)
+
+            if point is not None:
+                Metrics.setPoint(point)
+
+            return payload
+
+        if point is not None:
+            Metrics.setPoint(point)
 
         if start_pos is not None:
             if existing or index == 0:
@@ -936,14 +949,27 @@ class Fiber:
         else:
             payload = self._create_payload(coords[0])
 
+        point = None
         if Metrics.isCollecting() and trace is not None:
+            # Only a loop moves on to the coordinate, a look-up does not
+            if trace != "iter":
+                point = Metrics.getPoint()
+
             Metrics.addUse(str(self.getRankAttrs().getId()), coords[0], index, type_=trace)
 
         if len(coords) > 1:
             # Recurse to the next level's fiber
             assert Payload.contains(payload, Fiber), "Too many coordinates"
 
-            return payload.getPayloadRef(*coords[1:], trace=trace)
+            payload = payload.getPayloadRef(*coords[1:], trace=trace)
+
+            if point is not None:
+                Metrics.setPoint(point)
+
+            return payload
+
+        if point is not None:
+            Metrics.setPoint(point)
 
         if start_pos is not None:
             self.setSavedPos(index, distance=index - start_pos)
diff --git a/fibertree/core/metrics.py b/fibertree/core/metrics.py
index 7ab3f0c..a409744 100644
--- a/fibertree/core/metrics.py
+++ b/fibertree/core/metrics.py
@@ -360,6 +360,46 @@ class Metrics:
         cls.fiber_label[iter_rank] += 1
         return cls.fiber_label[iter_rank] - 1
 
+    @classmethod
+    def getPoint(cls):
+        """Get the point the loop nest has reached
+
+        Parameters
+        ----------
+
+        None
+
+        Returns
+        -------
+
+        point: List[int]
+            A copy of the current coordinate of each loop rank
+
+        """
+        assert cls.collecting
+
+        return cls.point.copy()
+
+    @classmethod
+    def setPoint(cls, point):
+        """Set the point the loop nest has reached
+
+        Parameters
+        ----------
+
+        point: List[int]
+            The current coordinate of each loop rank
+
+        Returns
+        -------
+
+        None
+
+        """
+        assert cls.collecting
+
+        cls.point = point
+
     @classmethod
     def incCount(cls, line, metric, inc):
         """Increment a count metric during collection
-- 
2.43.0

