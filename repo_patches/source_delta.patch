From 733318d65ffc4f1a7896cc54ddec9f1d2ffef870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:00 +0000
Subject: [PATCH 01/32] fix: SequenceList.append keeps time order when an entry
 starts at 0

---
 src/aligned_textgrid/sequence_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index 5cf3b9e..408340f 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -201,7 +201,7 @@ class SequenceList(Sequence):
         elif hasattr(value, "time"):
             this_time = value.time
         
-        if len(self.starts) > 0 and all(self.starts):
+        if len(self.starts) > 0 and all(s is not None for s in self.starts):
             insert_idx = self.starts.searchsorted(this_time)
             self._values.insert(insert_idx, value)
             return
-- 
2.43.0


From bc2d33535ccb28835a610370925a3b9206d129f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:08 +0000
Subject: [PATCH 02/32] fix: SequenceList.concat keeps a plain list of values
 so the list stays editable

---
 src/aligned_textgrid/sequence_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index 408340f..e7dbeb5 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -229,7 +229,7 @@ class SequenceList(Sequence):
         intervals._shift(increment)          
         
         new_values = self + intervals
-        self._values = new_values
+        self._values = list(new_values)
 
        
     def remove(self:Sequence[SeqVar], x:SeqVar)->None:
-- 
2.43.0


From dba7cac299f98a07419eb36ee95b17c261c84189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:24 +0000
Subject: [PATCH 03/32] fix: editing a tier keeps neighbour links within super
 instances

---
 src/aligned_textgrid/sequences/tiers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index f68a872..40a8134 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -138,11 +138,14 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
     def __set_precedence(self)->None:
         for idx,seq in enumerate(self._sequence_list):
             self.__set_intier(seq)
-            if idx == 0:
+            # precedence doesn't cross the edges of super instances
+            if idx == 0 or \
+               self._sequence_list[idx-1].super_instance is not seq.super_instance:
                 seq.set_initial()
             else:
                 seq.set_prev(self._sequence_list[idx-1])
-            if idx == len(self._sequence_list)-1:
+            if idx == len(self._sequence_list)-1 or \
+               self._sequence_list[idx+1].super_instance is not seq.super_instance:
                 seq.set_final()
             else:
                 seq.set_fol(self._sequence_list[idx+1])
-- 
2.43.0


From 595d0e258a9eed619440740fd54fef4bc8cc81c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:34 +0000
Subject: [PATCH 04/32] fix: SequenceTier.pop relinks the remaining neighbours
 in every tier

---
 src/aligned_textgrid/sequences/tiers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 40a8134..93655b7 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -174,8 +174,7 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         """
         if entry in self.sequence_list:
             self.sequence_list.remove(entry)
-            if self.superset_class is Top:
-                self.__set_precedence()
+            self.__set_precedence()
         else:
             raise Exception("Entry not in tier")                    
 
-- 
2.43.0


From 4f36f9206bd9e0e86d2feaf0208dc7aeaed96f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:44 +0000
Subject: [PATCH 05/32] fix: set_super_instance detaches the interval from its
 previous super instance

---
 src/aligned_textgrid/sequences/sequences.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 5bde7fe..0bc92c8 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -127,6 +127,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
         if super_instance is None:
             warnings.warn("No superset instance provided")   
         elif isinstance(super_instance, self.superset_class) and not super_instance is self.super_instance:
+            self.remove_superset()
             self.super_instance = super_instance
             self.super_instance.append_subset_list(self)
         else:
-- 
2.43.0


From 81aa0ef1718ec6567ca9fb51723e4cc05eeb064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:30 +0000
Subject: [PATCH 06/32] fix: intervals that TierGroup adds to close internal
 gaps are also added to the lower tier

---
 src/aligned_textgrid/sequences/tiers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 93655b7..23ed449 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -470,9 +470,9 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                         new_starts = boundaries[:-1][~np.isin(boundaries[:-1], lowers.starts)]
                         new_ends = boundaries[1:][~np.isin(boundaries[1:], lowers.ends)]
                         for s, e in zip(new_starts, new_ends):
-                            lowers.append(
-                                lowers[0].entry_class((s, e, ""))
-                            )
+                            filler = lowers[0].entry_class((s, e, ""))
+                            lowers.append(filler)
+                            lower_tier.append(filler, re_relate = False)
 
                 u_durs = np.array([
                     u.end - u.start
-- 
2.43.0


From abf35bfb438caad6ca8df752f46315bde3e3eb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:39 +0000
Subject: [PATCH 07/32] fix: set_subset_list releases the intervals it replaces

---
 src/aligned_textgrid/sequences/sequences.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 0bc92c8..1ed02db 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -150,7 +150,12 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
             return
 
         if all([isinstance(subint, self.subset_class) for subint in subset_list]):
-            self._subset_list = SequenceList(*subset_list)
+            new_list = SequenceList(*subset_list)
+            for element in self._subset_list:
+                if not any(element is x for x in new_list):
+                    element.super_instance = None
+                    element.within = None
+            self._subset_list = new_list
             for element in subset_list:
                 if not self is element.super_instance:
                     element.remove_superset()
-- 
2.43.0


From 775840aa3d35609aacb9a13b8255f633941c7f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:48 +0000
Subject: [PATCH 08/32] fix: append_subset_list and set_super_instance also set
 the within relationship

---
 src/aligned_textgrid/sequences/sequences.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 1ed02db..e6d7cc3 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -184,6 +184,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
             if subset_instance.super_instance:
                 subset_instance.remove_superset()
             self._subset_list.append(subset_instance)
+            self._set_within()
             self._set_subset_precedence()
             # avoid recursion
             if not self is subset_instance.super_instance:
-- 
2.43.0


From 02bb119f584c1ebe00bd156a9951660bf093dfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:58 +0000
Subject: [PATCH 09/32] fix: custom_classes returns classes in the order named
 by return_order

---
 src/aligned_textgrid/custom_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/custom_classes.py b/src/aligned_textgrid/custom_classes.py
index 1669264..48af75d 100644
--- a/src/aligned_textgrid/custom_classes.py
+++ b/src/aligned_textgrid/custom_classes.py
@@ -146,7 +146,7 @@ def custom_classes(
         if type(return_order[0]) is int:
             return_list = [class_out_list[idx] for idx in return_order]
         elif type(return_order[0]) is str:
-            return_idx = [return_order.index(x) for x in class_list]
+            return_idx = [class_list.index(x) for x in return_order]
             return_list = [class_out_list[idx] for idx in return_idx] 
         return return_list
 
-- 
2.43.0


From 68184eae4e4ec264f2e8320d56153dc3ecd70db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:07 +0000
Subject: [PATCH 10/32] fix: PointsGroup.xmax is the latest time, not the
 latest first point

---
 src/aligned_textgrid/points/tiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index cdbf1f3..adefbd7 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -318,7 +318,7 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     @property    
     def xmax(self):
         times = np.array(
-            [t.xmin for t in self.tier_list]
+            [t.xmax for t in self.tier_list]
         )
         return times.max()
     
-- 
2.43.0


From e3f3f65b1ecd958e7f55e8772b1eb857560b5e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:16 +0000
Subject: [PATCH 11/32] fix: nested iteration over one SequenceInterval visits
 every subset interval

---
 src/aligned_textgrid/sequences/sequences.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index e6d7cc3..62b148e 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -424,20 +424,11 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
         return self.subset_list[idx]
 
     def __iter__(self):
-        self.current = 0
-        return self
+        return iter(self.subset_list)
     
     def __len__(self)->int:
         return len(self.subset_list)
     
-    def __next__(self):
-        if self.current < len(self.subset_list):
-            this_seg = self.subset_list[self.current]
-            self.current+=1
-            return this_seg
-        else:
-            raise StopIteration
-        
     def index(
             self,
             subset_instance:'SequenceInterval'
-- 
2.43.0


From 3f8bfa599b6f9b2002cd73f13d342d49b0c7f729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:25 +0000
Subject: [PATCH 12/32] fix: fol_distance and prev_distance count a neighbour
 at time 0

---
 src/aligned_textgrid/points/points.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aligned_textgrid/points/points.py b/src/aligned_textgrid/points/points.py
index 83e6f96..6a81b46 100644
--- a/src/aligned_textgrid/points/points.py
+++ b/src/aligned_textgrid/points/points.py
@@ -139,10 +139,10 @@ class  SequencePoint(SequenceBaseClass, PrecedenceMixins, InTierMixins, WithinMi
 
     @property
     def fol_distance(self):
-        if self.fol and self.fol.time:
+        if self.fol and self.fol.time is not None:
             return self.fol.time - self.time
         
-        if self.fol and not self.fol.time:
+        if self.fol and self.fol.time is None:
             warnings.warn("Final point")
             return None
 
@@ -152,10 +152,10 @@ class  SequencePoint(SequenceBaseClass, PrecedenceMixins, InTierMixins, WithinMi
         
     @property
     def prev_distance(self):
-        if self.prev and self.prev.time:
+        if self.prev and self.prev.time is not None:
             return self.prev.time - self.time
         
-        if self.prev and not self.prev.time:
+        if self.prev and self.prev.time is None:
             warnings.warn("initial point")
             return None
 
-- 
2.43.0


From eb2a3690403c6da4254a9f0d490df61af3e2cf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:34 +0000
Subject: [PATCH 13/32] fix: tiers with integer times can be shifted by a
 fractional increment

---
 src/aligned_textgrid/points/tiers.py    | 2 +-
 src/aligned_textgrid/sequences/tiers.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index adefbd7..2f7b99a 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -167,7 +167,7 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
             return None
         
     def _shift(self, increment):
-        self.times += increment
+        self.times = self.times + increment
     
     def cleanup(self):
         pass
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 23ed449..93cc89a 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -215,8 +215,8 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
             i.end = t
 
     def _shift(self, increment:float) -> None:
-        self.starts += increment
-        self.ends   += increment
+        self.starts = self.starts + increment
+        self.ends   = self.ends + increment
 
     @property
     def labels(self)->list[str]:
-- 
2.43.0


From 9d6da00b87a937b143369133890b4438eb6a2fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:28 +0000
Subject: [PATCH 14/32] fix: a SequencePointTier built from another keeps
 points added after construction

---
 src/aligned_textgrid/points/tiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index 2f7b99a..b5b52c3 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -91,7 +91,7 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
             name = tier.name
 
         if isinstance(tier, SequencePointTier):
-            entries = tier.entry_list
+            entries = tier.sequence_list
             if tier.name != tier.entry_class.__name__:
                 name = tier.name
         
-- 
2.43.0


From 1360690f53dc1d7c89da5eaa75b4ea79dd2cf85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:37 +0000
Subject: [PATCH 15/32] fix: points appended to a SequencePointTier are linked
 to their neighbours and their tier

---
 src/aligned_textgrid/points/tiers.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index b5b52c3..c390f3e 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -100,11 +100,11 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
         self.name = name
         entry_order = np.argsort([x.time for x in self.entry_list])
         self.entry_list = [self.entry_list[idx] for idx in entry_order]
-        self.sequence_list = SequenceList()
+        self._sequence_list = SequenceList()
        
         for entry in self.entry_list:
             this_point = self.entry_class._cast(entry)
-            self.sequence_list.append(this_point)
+            self._sequence_list.append(this_point)
         self.__set_precedence()
     
     def __getitem__(self, idx):
@@ -136,6 +136,15 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
     def __repr__(self):
         return f"Sequence Point tier of {self.entry_class.__name__};"
 
+    @property
+    def sequence_list(self)->SequenceList:
+        return self._sequence_list
+
+    @sequence_list.setter
+    def sequence_list(self, new:Sequence):
+        self._sequence_list = SequenceList(*new)
+        self.__set_precedence()
+
     @property
     def times(self):
         return self.sequence_list.starts
-- 
2.43.0


From 5cee66cb578ece5bddf4a679088ee61a9776384a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:06 +0000
Subject: [PATCH 16/32] fix: concat of groups keeps entries equal in time and
 label, and works for PointsGroups

---
 src/aligned_textgrid/mixins/tiermixins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index a2d4abf..9b9c546 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -297,9 +297,9 @@ class TierGroupMixins:
         increment = self.xmax
         for t1, t2 in zip(self, new):
             for interval in t2:
-                if interval.super_instance is not None:
+                if getattr(interval, "super_instance", None) is not None:
                     continue
-                if interval in t1:
+                if any(interval is x for x in t1):
                     continue
                 interval._shift(increment)
                 t1.append(interval)
-- 
2.43.0


From 711121ffa302665ab177fcd7a5f74e43ea60325e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:36 +0000
Subject: [PATCH 17/32] fix: AlignedTextGrid.cleanup pads only the interval
 groups that end early

---
 src/aligned_textgrid/aligned_textgrid.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 44706f1..db8746c 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -473,6 +473,9 @@ class AlignedTextGrid(Sequence, WithinMixins):
                     tg.cleanup()
             
             interval_tgs = [tg for tg in self if isinstance(tg, TierGroup)]
+            if len(interval_tgs) < 1:
+                return
+
             tg_starts = np.array([tg.xmin for tg in interval_tgs])
             tg_ends = np.array([tg.xmax for tg in interval_tgs])
 
@@ -480,7 +483,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
             np.allclose(tg_ends.min(), tg_ends.max()):
                 return
             
-            for tg in self.tier_groups:
+            for tg in interval_tgs:
                 if np.allclose(tg.xmin, tg_starts.min()):
                     continue
 
@@ -494,8 +497,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
                     tier.append(interval, re_relate = False)
 
                 
-            for tg in self.tier_groups:
-                if np.allclose(tg.xmax, tg_starts.max()):
+            for tg in interval_tgs:
+                if np.allclose(tg.xmax, tg_ends.max()):
                     continue
 
                 start = tg.xmax
-- 
2.43.0


From 81139e342ea5966b674dba54c29afe21d10b6ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:45 +0000
Subject: [PATCH 18/32] fix: padding intervals from AlignedTextGrid.cleanup are
 related to each other

---
 src/aligned_textgrid/aligned_textgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index db8746c..3919dcd 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -510,8 +510,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
                 for tier, interval in zip(tg, empty_intervals):
                     tier.append(interval, re_relate = False)
             
-            # for tg in self.tier_groups:
-            #     tg.re_relate()
+            for tg in interval_tgs:
+                tg.re_relate()
                 
     def shift(
             self,
-- 
2.43.0


From 349593fd14f364681568f3592775931b42a8c13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:16 +0000
Subject: [PATCH 19/32] fix: return_textgrid always gives duplicate tiers
 unused names

---
 src/aligned_textgrid/aligned_textgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 3919dcd..cd7dcc7 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -802,8 +802,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
         for group in self.tier_groups:
             for tier in group:
                 name = tier.name
-                if name in tier_names:
-                    name = f"{name}_{dup_idx}"
+                while name in tier_names:
+                    name = f"{tier.name}_{dup_idx}"
                     dup_idx += 1 
                 tier_names += [name]
                 out_tg.addTier(tier = tier.return_tier(name))
-- 
2.43.0


From 479e3b6714192a59250cb98fb252d05502ae5dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:41 +0000
Subject: [PATCH 20/32] fix: intervals added by SequenceTier.cleanup are linked
 into the tier

---
 src/aligned_textgrid/sequences/tiers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 93cc89a..ab460d2 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -249,6 +249,7 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         for s,e in zip(new_starts, new_ends):
             new = self.entry_class((s, e, ""))
             self.sequence_list.append(new)
+        self.__set_precedence()
 
         if issubclass(self.subset_class, Bottom):
             if self.within:
-- 
2.43.0


From ffbeda5e02488331cafe991113dd2c9ac3c978c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:07 +0000
Subject: [PATCH 21/32] fix: a TierGroup without a tier of the lowest class
 still contains its tiers

---
 src/aligned_textgrid/mixins/tiermixins.py   | 8 +++++---
 src/aligned_textgrid/sequences/sequences.py | 3 ++-
 src/aligned_textgrid/sequences/tiers.py     | 5 +++--
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index 9b9c546..4e3cb9c 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -112,14 +112,16 @@ class TierMixins:
            and len(new) > 0 \
            and self.within:
             down_tier = self.within_index+1
-            for interval in new.subset_list:
-                self.within[down_tier].append(interval, re_relate = False)
+            if down_tier < len(self.within):
+                for interval in new.subset_list:
+                    self.within[down_tier].append(interval, re_relate = False)
         
         if hasattr(new, "super_instance")\
            and new.super_instance \
            and self.within:
             uptier  = self.within_index-1
-            self.within[uptier].append(new.super_instance, re_relate = False)
+            if uptier >= 0:
+                self.within[uptier].append(new.super_instance, re_relate = False)
             
         if self.within and re_relate:
             self.within.re_relate()
diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 62b148e..2520799 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -111,7 +111,8 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
             self.subset_list += [other]
             if self.intier and self.intier.within:
                 self_tier_idx = self.intier.within_index
-                self.intier.within[self_tier_idx+1].append(other, re_relate = False)
+                if self_tier_idx+1 < len(self.intier.within):
+                    self.intier.within[self_tier_idx+1].append(other, re_relate = False)
             return
         raise ValueError("Appended SequenceInterval must be the subset class of the original.")
 
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index ab460d2..b80fd59 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -256,7 +256,7 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
                 self.within.re_relate()
                 return
         
-        if self.within:
+        if self.within and self.within_index+1 < len(self.within):
             next_tier = self.within[self.within_index+1]
             next_tier.cleanup()
 
@@ -571,7 +571,8 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                 try:
                     next_idx = [x.entry_class for x in tiers].index(curr.subset_class)
                 except ValueError:
-                    return top_to_bottom
+                    # no tier of the subset class
+                    break
                 
                 top_to_bottom.append(tiers[next_idx])
         self.contains = top_to_bottom
-- 
2.43.0


From 8e0f5f811a66ef6ed08d6f0f76d02ba781f779bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:52 +0000
Subject: [PATCH 22/32] fix: fusion also updates the link back from the
 neighbour of the fused interval

---
 src/aligned_textgrid/sequences/sequences.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 2520799..51ce4bb 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -595,6 +595,8 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
 
             fuser.end = fusee.end
             fuser.fol = fusee.fol
+            if fuser.fol.label != "#":
+                fuser.fol.prev = fuser
             fuser.label = label_fun(fuser.label, fusee.label)
 
             new_list = fuser._subset_list + fusee.subset_list
@@ -626,6 +628,8 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
 
             fuser.start = fusee.start
             fuser.prev = fusee.prev
+            if fuser.prev.label != "#":
+                fuser.prev.fol = fuser
             fuser.label = label_fun(fusee.label, fuser.label)
 
             new_list = fusee.subset_list + fuser._subset_list
-- 
2.43.0


From 704ca971e46af470f2add6dd7a613d29466a937e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:01 +0000
Subject: [PATCH 23/32] fix: re-relating a PointsGroup keeps its name

---
 src/aligned_textgrid/points/tiers.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index c390f3e..5b8e26a 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -253,12 +253,19 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
             self,
             tiers: list[SequencePointTier]|Self = [SequencePointTier()]
     ):
+        name = None
+        if hasattr(tiers, "name"):
+            name = tiers.name
+
         if isinstance(tiers, PointsGroup):
             tiers = [tier for tier in tiers]
         self.tier_list = tiers
         self.contains = self.tier_list
         self._set_tier_names()
-        self._name = self.make_name()
+        if name:
+            self._name = name
+        else:
+            self._name = self.make_name()
 
     def __getitem__(
             self,
-- 
2.43.0


From d5dc328d024bf72f620906149def52ae6b86e494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:21 +0000
Subject: [PATCH 24/32] fix: relating tiers never trims an interval to a
 negative duration

---
 src/aligned_textgrid/sequences/tiers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index b80fd59..469c4c9 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -499,10 +499,13 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                     if any_mismatch and not delay_cleanup:
                         s_start = np.array([u.start, u.first.start]).max()
                         s_end = np.array([u.end, u.last.end]).min()
-                        u.start = s_start
-                        u.first.start = s_start
-                        u.end = s_end
-                        u.last.end = s_end
+                        # only trim where both intervals keep a duration
+                        if s_start < min(u.end, u.first.end):
+                            u.start = s_start
+                            u.first.start = s_start
+                        if s_end > max(u.start, u.last.start):
+                            u.end = s_end
+                            u.last.end = s_end
                     
                     if squish and not delay_cleanup:
                         u.cleanup()
-- 
2.43.0


From e5b55efaf39b82c47fac9d6e837c34ee1fcc17b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:20 +0000
Subject: [PATCH 25/32] fix: the subset list alone decides precedence of
 intervals that have a super instance

---
 src/aligned_textgrid/sequences/tiers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 469c4c9..907d656 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -138,14 +138,16 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
     def __set_precedence(self)->None:
         for idx,seq in enumerate(self._sequence_list):
             self.__set_intier(seq)
-            # precedence doesn't cross the edges of super instances
+            # the subset list of the super instance sets precedence
+            if seq.super_instance is not None:
+                continue
             if idx == 0 or \
-               self._sequence_list[idx-1].super_instance is not seq.super_instance:
+               self._sequence_list[idx-1].super_instance is not None:
                 seq.set_initial()
             else:
                 seq.set_prev(self._sequence_list[idx-1])
             if idx == len(self._sequence_list)-1 or \
-               self._sequence_list[idx+1].super_instance is not seq.super_instance:
+               self._sequence_list[idx+1].super_instance is not None:
                 seq.set_final()
             else:
                 seq.set_fol(self._sequence_list[idx+1])
-- 
2.43.0


From 2c97b102d481200d1a20089e7245138d334f8813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:29 +0000
Subject: [PATCH 26/32] fix: extents of groups and textgrids skip empty tiers
 instead of failing

---
 src/aligned_textgrid/aligned_textgrid.py | 15 ++++++++++++---
 src/aligned_textgrid/points/tiers.py     | 12 ++++++------
 src/aligned_textgrid/sequences/tiers.py  | 10 ++++++++--
 3 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index cd7dcc7..b8814bd 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -395,13 +395,19 @@ class AlignedTextGrid(Sequence, WithinMixins):
     def xmin(self)->np.array:
         if len(self) == 0:
             raise ValueError('No minimum time for empty TextGrid.')
-        return np.array([tgroup.xmin for tgroup in self.tier_groups]).min()
+        return min(
+            [tgroup.xmin for tgroup in self.tier_groups if tgroup.xmin is not None],
+            default = None
+        )
 
     @property
     def xmax(self)->np.array:
         if len(self) == 0:
             raise ValueError('No maximum time for empty TextGrid.')
-        return np.array([tgroup.xmax for tgroup in self.tier_groups]).max()
+        return max(
+            [tgroup.xmax for tgroup in self.tier_groups if tgroup.xmax is not None],
+            default = None
+        )
     
     def append(self, tier_group:TierGroup):
         """Append a new TierGroup to an existing 
@@ -472,7 +478,10 @@ class AlignedTextGrid(Sequence, WithinMixins):
                 if isinstance(tg, TierGroup):
                     tg.cleanup()
             
-            interval_tgs = [tg for tg in self if isinstance(tg, TierGroup)]
+            interval_tgs = [
+                tg for tg in self 
+                if isinstance(tg, TierGroup) and tg.xmin is not None
+            ]
             if len(interval_tgs) < 1:
                 return
 
diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index 5b8e26a..e45797f 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -326,17 +326,17 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     
     @property
     def xmin(self):
-        times = np.array(
-            [t.xmin for t in self.tier_list]
+        return min(
+            [t.xmin for t in self.tier_list if t.xmin is not None],
+            default = None
         )
-        return times.min()
 
     @property    
     def xmax(self):
-        times = np.array(
-            [t.xmax for t in self.tier_list]
+        return max(
+            [t.xmax for t in self.tier_list if t.xmax is not None],
+            default = None
         )
-        return times.max()
     
     def __repr__(self):
         n_tiers = len(self.tier_list)
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 907d656..40e5656 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -593,11 +593,17 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
     
     @property
     def xmin(self)->float:
-        return np.array([tier.xmin for tier in self.tier_list]).min()
+        return min(
+            [tier.xmin for tier in self.tier_list if tier.xmin is not None],
+            default = None
+        )
     
     @property
     def xmax(self)->float:
-        return np.array([tier.xmax for tier in self.tier_list]).max()
+        return max(
+            [tier.xmax for tier in self.tier_list if tier.xmax is not None],
+            default = None
+        )
     
     def _project_up(self, interval:SequenceInterval)->None:
         """
-- 
2.43.0


From 8917142e1c6bc54c16abfe3718ae5cee3f061857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:59 +0000
Subject: [PATCH 27/32] fix: an interval removed from a list doesn't keep links
 into it

---
 src/aligned_textgrid/sequences/sequences.py | 4 ++++
 src/aligned_textgrid/sequences/tiers.py     | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 51ce4bb..9438870 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -156,6 +156,8 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
                 if not any(element is x for x in new_list):
                     element.super_instance = None
                     element.within = None
+                    element.set_initial()
+                    element.set_final()
             self._subset_list = new_list
             for element in subset_list:
                 if not self is element.super_instance:
@@ -223,6 +225,8 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
         
         self.super_instance = None
         self.within = None
+        self.set_initial()
+        self.set_final()
 
 
 
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 40e5656..14d3a29 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -176,6 +176,8 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         """
         if entry in self.sequence_list:
             self.sequence_list.remove(entry)
+            entry.set_initial()
+            entry.set_final()
             self.__set_precedence()
         else:
             raise Exception("Entry not in tier")                    
-- 
2.43.0


From f5a44b8eb11083982eec0c36ebf455663a4d6a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:47 +0000
Subject: [PATCH 28/32] fix: set_subset_list takes over every interval of
 another interval's subset list

---
 src/aligned_textgrid/sequences/sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 9438870..675d32e 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -159,7 +159,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
                     element.set_initial()
                     element.set_final()
             self._subset_list = new_list
-            for element in subset_list:
+            for element in new_list:
                 if not self is element.super_instance:
                     element.remove_superset()
                     element.super_instance = self
-- 
2.43.0


From 9d5cfff8ca6df16b56ef764a2f83562e520a2bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:03 +0000
Subject: [PATCH 29/32] fix: save_as_tg of tiers passes the argument praatio
 requires

---
 src/aligned_textgrid/points/tiers.py    | 2 +-
 src/aligned_textgrid/sequences/tiers.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index e45797f..3e36295 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -234,7 +234,7 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
         point_tier = self.return_tier()
         out_tg = Textgrid()
         out_tg.addTier(tier = point_tier)
-        out_tg.save(save_path, "long_textgrid")
+        out_tg.save(save_path, "long_textgrid", includeBlankSpaces=True)
 
 class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     """A collection of point tiers
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 14d3a29..ba094ea 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -344,7 +344,7 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         interval_tier = self.return_tier()
         out_tg = Textgrid()
         out_tg.addTier(tier = interval_tier)
-        out_tg.save(save_path, "long_textgrid")
+        out_tg.save(save_path, "long_textgrid", includeBlankSpaces=True)
 
 
 class TierGroup(Sequence,TierGroupMixins, WithinMixins):
-- 
2.43.0


From 6ab640717d135bffcc6ff4f80cdeeef4dd88c572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:13 +0000
Subject: [PATCH 30/32] fix: the top tier of a TierGroup is relinked when it
 was below another tier before

---
 src/aligned_textgrid/sequences/tiers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index ba094ea..098b28d 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -396,6 +396,8 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                 if hasattr(entry, "super_instance"):
                     
                     entry.remove_superset()
+        # entries that had a superset interval have lost their links to each other
+        self.tier_list[0].sequence_list = self.tier_list[0].sequence_list
         #self.entry_classes = [x.__class__ for x in self.tier_list]
         for tidx, tier in enumerate(self.tier_list):
             if tidx == len(self.tier_list)-1:
-- 
2.43.0


From 8466f1660b22a5a952fdab7709b40ceadd5f9681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:58 +0000
Subject: [PATCH 31/32] fix: TierGroup.cleanup fills intervals before it fills
 tiers

After a child interval at the edge of its parent was removed, a filler on
the lower tier could span several intervals above it and was then trimmed
to a negative duration, or resized its neighbours' parent.
---
 src/aligned_textgrid/sequences/tiers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 098b28d..0e0046b 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -660,7 +660,11 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
 
         if not not_tight:
             return
-        
+
+        # intervals first have their own gaps filled, so that no
+        # gap in a lower tier spans more than one interval above it
+        self.re_relate()
+
         for tier in self:
             tier.cleanup()
         
-- 
2.43.0


From 0f23d7112ecfa5449f103a8c7bf8cb70f03c86ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:54 +0000
Subject: [PATCH 32/32] fix: get_interval_at_point returns None for a point
 outside every interval

It indexed the tier with None (TypeError), so a PolarGrid with one level
outside the ranges could not be made at all.
---
 src/aligned_textgrid/points/points.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/points.py b/src/aligned_textgrid/points/points.py
index 6a81b46..278e8b7 100644
--- a/src/aligned_textgrid/points/points.py
+++ b/src/aligned_textgrid/points/points.py
@@ -222,7 +222,10 @@ class  SequencePoint(SequenceBaseClass, PrecedenceMixins, InTierMixins, WithinMi
                 The SequenceInterval within which the current point falls
         """
         if tier and isinstance(tier, SequenceTier):
-            return tier[self.get_interval_index_at_time(tier)]
+            int_idx = self.get_interval_index_at_time(tier)
+            if int_idx is None:
+                return None
+            return tier[int_idx]
 
     
 SequencePoint._set_seq_type(SequencePoint)
\ No newline at end of file
-- 
2.43.0

