From 490b62165ce70b79357c9b1ac5543a12c003da2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:58 +0000
Subject: [PATCH 01/48] fix: levenshtein_distance must search the trimmed part
 of the longest string only

When the common affixes were trimmed down to a single character, that
character was searched in the whole of B, affixes included:
levenshtein_distance('cc', 'cab') was 1 instead of 2.
---
 cfog/metrics/levenshtein.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfog/metrics/levenshtein.pyx b/cfog/metrics/levenshtein.pyx
index ac22ac7..4772414 100644
--- a/cfog/metrics/levenshtein.pyx
+++ b/cfog/metrics/levenshtein.pyx
@@ -69,7 +69,7 @@ def levenshtein_distance(str A, str B):
         return LB
 
     if LA == 1:
-        if A[start] in B:
+        if A[start] in B[start:start + LB]:
             return LB - 1
 
         return LB
-- 
2.43.0


From 029041620810dd003a38ae0af5272dd7a3122430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:57 +0000
Subject: [PATCH 02/48] fix: Levenshtein distances must not truncate characters
 outside the BMP

Code points were stored as unsigned shorts, so that characters equal modulo
65536 were conflated by levenshtein_distance, and identical ones told apart
by limited_levenshtein_distance.
---
 cfog/metrics/levenshtein.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cfog/metrics/levenshtein.pyx b/cfog/metrics/levenshtein.pyx
index 4772414..3b82a5c 100644
--- a/cfog/metrics/levenshtein.pyx
+++ b/cfog/metrics/levenshtein.pyx
@@ -74,7 +74,7 @@ def levenshtein_distance(str A, str B):
 
         return LB
 
-    cdef unsigned short *codes = <unsigned short *> malloc(LB * sizeof(unsigned short))
+    cdef Py_UCS4 *codes = <Py_UCS4 *> malloc(LB * sizeof(Py_UCS4))
     cdef unsigned int *vector = <unsigned int *> malloc(LB * sizeof(unsigned int))
 
     cdef unsigned int i = 0
@@ -87,7 +87,7 @@ def levenshtein_distance(str A, str B):
     cdef unsigned int current = 0
     cdef unsigned int left = 0
     cdef unsigned int above = 0
-    cdef unsigned short charA = 0
+    cdef Py_UCS4 charA = 0
     cdef unsigned int j = 0
 
     i = 0
@@ -192,7 +192,7 @@ def limited_levenshtein_distance(unsigned int max_distance, str A, str B):
     elif diff > max_distance:
         return upper_bound
 
-    cdef unsigned short *codes = <unsigned short *> malloc(LB * sizeof(unsigned short))
+    cdef Py_UCS4 *codes = <Py_UCS4 *> malloc(LB * sizeof(Py_UCS4))
     cdef unsigned int *vector = <unsigned int *> malloc(LB * sizeof(unsigned int))
 
     cdef unsigned int i = 0
@@ -216,7 +216,7 @@ def limited_levenshtein_distance(unsigned int max_distance, str A, str B):
     cdef unsigned int current = 0
     cdef unsigned int left
     cdef unsigned int above
-    cdef unsigned int charA
+    cdef Py_UCS4 charA
     cdef unsigned int j
 
     i = 0
-- 
2.43.0


From 8802a6518bc8efc114d2dce5cf49c0058acc8dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:57 +0000
Subject: [PATCH 03/48] fix: limited_levenshtein_distance must free its buffers
 when bailing out early

---
 cfog/metrics/levenshtein.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cfog/metrics/levenshtein.pyx b/cfog/metrics/levenshtein.pyx
index 3b82a5c..e2f2fe9 100644
--- a/cfog/metrics/levenshtein.pyx
+++ b/cfog/metrics/levenshtein.pyx
@@ -254,6 +254,9 @@ def limited_levenshtein_distance(unsigned int max_distance, str A, str B):
             j += 1
 
         if have_max and vector[i + diff] > max_distance:
+            free(codes)
+            free(vector)
+
             return upper_bound
 
         i += 1
-- 
2.43.0


From f8a33dd6700841617b39dfcc9fd833ce1b3d582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:21 +0000
Subject: [PATCH 04/48] fix: damerau_levenshtein_2d_blocks must not crash on
 the empty string

---
 fog/key/levenshtein.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/key/levenshtein.py b/fog/key/levenshtein.py
index 15a318f..cddd506 100644
--- a/fog/key/levenshtein.py
+++ b/fog/key/levenshtein.py
@@ -213,7 +213,7 @@ def levenshtein_2d_blocks(string, transpositions=False,
             flag3 + string[h * 2:]
         )
 
-        if transpositions:
+        if transpositions and n > 0:
             h1 = h - 1
 
             return basic + (
-- 
2.43.0


From 2b951957f9aa6c41e76ab0be43170b01c4d7181d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:21 +0000
Subject: [PATCH 05/48] fix: levenshtein_2d_blocks must not miss a deletion and
 an insertion around the middle third

---
 fog/key/levenshtein.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fog/key/levenshtein.py b/fog/key/levenshtein.py
index cddd506..75263cf 100644
--- a/fog/key/levenshtein.py
+++ b/fog/key/levenshtein.py
@@ -210,7 +210,11 @@ def levenshtein_2d_blocks(string, transpositions=False,
         basic = (
             flag1 + string[:h],
             flag2 + string[h:h * 2],
-            flag3 + string[h * 2:]
+            flag3 + string[h * 2:],
+
+            # NOTE: required when a character is deleted from the first third
+            # and another one inserted into the last, or the other way around
+            flag2 + string[h + 1:h * 2 + 1]
         )
 
         if transpositions and n > 0:
-- 
2.43.0


From a05c3020d7355668bf542ce6e0dd52969814c1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:21 +0000
Subject: [PATCH 06/48] fix: damerau_levenshtein_2d_blocks must not miss two
 swaps around the middle third

---
 fog/key/levenshtein.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fog/key/levenshtein.py b/fog/key/levenshtein.py
index 75263cf..9b1dc9d 100644
--- a/fog/key/levenshtein.py
+++ b/fog/key/levenshtein.py
@@ -248,7 +248,7 @@ def levenshtein_2d_blocks(string, transpositions=False,
         h1 = n // 3
         h = h1 + 1
 
-        return (
+        basic = (
             flag1 + string[:h],
             flag2 + string[h:h + h1],
             flag3 + string[h + h1:],
@@ -260,5 +260,13 @@ def levenshtein_2d_blocks(string, transpositions=False,
             flag3 + string[h1 * 2:]
         )
 
+        if transpositions and n > 1:
+
+            # NOTE: required when characters are swapped on both sides of the
+            # middle third
+            return basic + (flag1 + string[:h1 - 1] + string[h1],)
+
+        return basic
+
 
 damerau_levenshtein_2d_blocks = partial(levenshtein_2d_blocks, transpositions=True)
-- 
2.43.0


From f983ace174adee6547522869e77114dd7d4e2ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:18 +0000
Subject: [PATCH 07/48] fix: passjoin must not repeat members in fuzzy clusters
 when a pair is found twice

---
 fog/clustering/passjoin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fog/clustering/passjoin.py b/fog/clustering/passjoin.py
index 76804ef..d6f7947 100644
--- a/fog/clustering/passjoin.py
+++ b/fog/clustering/passjoin.py
@@ -277,6 +277,7 @@ def passjoin(data, k, distance, sort=True, min_size=2, max_size=float('inf'),
 
     yield from clusters_from_pairs(
         clustering(),
+        fuzzy=True,
         min_size=min_size,
         max_size=max_size,
         mode=mode
-- 
2.43.0


From 6aaa7cf3501c461fae2561b5d2039bbec7ade6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:37 +0000
Subject: [PATCH 08/48] fix: pairwise_leader must drop clusters larger than
 max_size rather than crash

---
 fog/clustering/pairwise.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fog/clustering/pairwise.py b/fog/clustering/pairwise.py
index 54f1ccc..b66befd 100644
--- a/fog/clustering/pairwise.py
+++ b/fog/clustering/pairwise.py
@@ -101,12 +101,15 @@ def pairwise_leader(data, similarity=None, distance=None, radius=None,
 
                 if cluster is None:
                     cluster = [A, B]
+                    members = [j]
                 else:
                     cluster.append(B)
+                    members.append(j)
 
+                # Cluster is too large, we need to drop it & free its members
                 if len(cluster) > max_size:
-                    for c in range(1, len(cluster)):
-                        visited.delete(c)
+                    visited.difference_update(members)
+                    cluster = None
                     break
 
                 visited.add(j)
-- 
2.43.0


From f6218aec80ab03d2329b3d5f4684752e435b385e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:14 +0000
Subject: [PATCH 09/48] fix: key_collision must respect min_size and max_size
 when merging buckets

---
 fog/clustering/key_collision.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fog/clustering/key_collision.py b/fog/clustering/key_collision.py
index 7420cda..3a2b050 100644
--- a/fog/clustering/key_collision.py
+++ b/fog/clustering/key_collision.py
@@ -76,7 +76,12 @@ def key_collision(data, key=None, keys=None, min_size=2, max_size=float('inf'),
 
     # Merging clusters
     if merge and key is None:
-        yield from clusters_from_buckets(buckets.values(), fuzzy=True)
+        yield from clusters_from_buckets(
+            buckets.values(),
+            min_size=min_size,
+            max_size=max_size,
+            fuzzy=True
+        )
 
     # Buckets as clusters
     else:
-- 
2.43.0


From 08c5266920988ea2438fae3edd5e8dbd996aa685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:02 +0000
Subject: [PATCH 10/48] fix: key_collision must not make an item collide with
 itself when its keys are repeated

---
 fog/clustering/key_collision.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/clustering/key_collision.py b/fog/clustering/key_collision.py
index 3a2b050..6d951b8 100644
--- a/fog/clustering/key_collision.py
+++ b/fog/clustering/key_collision.py
@@ -70,7 +70,8 @@ def key_collision(data, key=None, keys=None, min_size=2, max_size=float('inf'),
             if not ks:
                 continue
 
-            for k in ks:
+            # NOTE: an item having the same key twice should not collide with itself
+            for k in dict.fromkeys(ks):
                 if k:
                     buckets[k].append(item)
 
-- 
2.43.0


From 0aace98340f065ca932d588c1c2e92bb43de2777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:52 +0000
Subject: [PATCH 11/48] fix: adaptive_sorted_neighborhood must not enlarge its
 window past the last record

---
 fog/clustering/sorted_neighborhood.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fog/clustering/sorted_neighborhood.py b/fog/clustering/sorted_neighborhood.py
index 9eae5e3..48aefb6 100644
--- a/fog/clustering/sorted_neighborhood.py
+++ b/fog/clustering/sorted_neighborhood.py
@@ -124,6 +124,11 @@ def full_AA_SNM(sorted_records, similarity, window):
             first = last
             last = first + w - 1
 
+            # The window cannot grow past the last record
+            if last >= n:
+                last = n - 1
+                break
+
         # Retrenchment
         w = last - f + 1
 
-- 
2.43.0


From ab0e40458b629a98bcf172c43823799f27e294fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:52 +0000
Subject: [PATCH 12/48] fix: sorted neighborhood must see the whole data on
 each pass when given an iterator

---
 fog/clustering/sorted_neighborhood.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fog/clustering/sorted_neighborhood.py b/fog/clustering/sorted_neighborhood.py
index 48aefb6..1c7b983 100644
--- a/fog/clustering/sorted_neighborhood.py
+++ b/fog/clustering/sorted_neighborhood.py
@@ -85,8 +85,11 @@ def sorted_neighborhood(data, key=None, keys=None, similarity=None, distance=Non
     def clustering():
         multipass_keys = keys if keys is not None else [key]
 
+        # NOTE: data will be sorted several times, so it must not be an iterator
+        items = list(data)
+
         for k in multipass_keys:
-            S = sorted(data, key=k)
+            S = sorted(items, key=k)
             n = len(S)
 
             for i in range(n):
@@ -206,8 +209,11 @@ def adaptive_sorted_neighborhood(data, key=None, keys=None, similarity=None,
     def clustering():
         multipass_keys = keys if keys is not None else [key]
 
+        # NOTE: data will be sorted several times, so it must not be an iterator
+        items = list(data)
+
         for k in multipass_keys:
-            S = sorted(data, key=k)
+            S = sorted(items, key=k)
 
             for start, end in full_AA_SNM(S, similarity, window):
                 l = end - start + 1
-- 
2.43.0


From 62a079ceeb4b09ff369d7ebdd29c73e52b8c8c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:38 +0000
Subject: [PATCH 13/48] fix: adaptive_sorted_neighborhood must terminate with a
 window of one record

---
 fog/clustering/sorted_neighborhood.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/clustering/sorted_neighborhood.py b/fog/clustering/sorted_neighborhood.py
index 1c7b983..bde43c0 100644
--- a/fog/clustering/sorted_neighborhood.py
+++ b/fog/clustering/sorted_neighborhood.py
@@ -113,6 +113,10 @@ def sorted_neighborhood(data, key=None, keys=None, similarity=None, distance=Non
 
 def full_AA_SNM(sorted_records, similarity, window):
     n = len(sorted_records)
+
+    # NOTE: a window of a single record would never move forward
+    window = max(2, window)
+
     w = window
     step = w - 1
     first = 0
-- 
2.43.0


From d6c656e298e65739ee01393762c7dc54d7c3d725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:26 +0000
Subject: [PATCH 14/48] fix: ppjoin must filter & index by token position, not
 by threshold

---
 fog/clustering/ppjoin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fog/clustering/ppjoin.py b/fog/clustering/ppjoin.py
index f995e00..653ec98 100644
--- a/fog/clustering/ppjoin.py
+++ b/fog/clustering/ppjoin.py
@@ -381,7 +381,7 @@ def ppjoin(records, threshold, metric='jaccard', tokenizer=None, all_pairs=False
 
                 if value is None:
                     if (
-                        record_length - threshold < require_overlap
+                        record_length - t < require_overlap
                         or (candidate_length - candidate_pos) < require_overlap
                     ):
                         continue
@@ -389,14 +389,14 @@ def ppjoin(records, threshold, metric='jaccard', tokenizer=None, all_pairs=False
                     occurances[candidate_id] = 1
                 else:
                     if (
-                        value + (record_length - threshold) < require_overlap
+                        value + (record_length - t) < require_overlap
                         or value + (candidate_length - candidate_pos) < require_overlap
                     ):
                         occurances[candidate_id] = PRUNE_FLAG
                     else:
                         occurances[candidate_id] += 1
 
-            if threshold < index_length:
+            if t < index_length:
                 ids.append((k, t))
 
         for candidate, count in occurances.items():
-- 
2.43.0


From d327eebba9dfb5d8e1d0cba7028ff70a629394c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:26 +0000
Subject: [PATCH 15/48] fix: ppjoin must not crash with the default token
 ordering when no tokenizer is given

---
 fog/clustering/ppjoin.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fog/clustering/ppjoin.py b/fog/clustering/ppjoin.py
index 653ec98..ccd38c1 100644
--- a/fog/clustering/ppjoin.py
+++ b/fog/clustering/ppjoin.py
@@ -221,12 +221,12 @@ def preprocess(records, tokenizer=None, token_ordering=None):
         if tokenizer is not None:
             record = tokenizer(record)
 
-            if not isinstance(record, list):
-                record = list(record)
+        if not isinstance(record, list):
+            record = list(record)
 
-            if token_ordering == 'freq':
-                for token in record:
-                    freqs[token] += 1
+        if token_ordering == 'freq':
+            for token in record:
+                freqs[token] += 1
 
         record = sorted_uniq(record)
 
-- 
2.43.0


From ce36633f04fd6db67afdea388d2543f266eea6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:55 +0000
Subject: [PATCH 16/48] fix: ppjoin must not crash on records without tokens

---
 fog/clustering/ppjoin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/clustering/ppjoin.py b/fog/clustering/ppjoin.py
index ccd38c1..c4afb4a 100644
--- a/fog/clustering/ppjoin.py
+++ b/fog/clustering/ppjoin.py
@@ -309,6 +309,10 @@ def ppjoin(records, threshold, metric='jaccard', tokenizer=None, all_pairs=False
         record = tokenized_records[k]
         record_length = len(record)
 
+        # An empty record has no token to share
+        if record_length == 0:
+            continue
+
         min_length = helper.min_possible_length(record_length)
         probe_length = helper.probe_length(record_length)
         index_length = helper.index_length(record_length)
-- 
2.43.0


From d495234c9842f7ab37897fb419f2413cb64b67ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:30 +0000
Subject: [PATCH 17/48] fix: quickjoin must not crash on empty blocks when
 using vantage point trees

---
 fog/clustering/quickjoin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index 13a0fd4..26f65bd 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -109,7 +109,7 @@ def quickjoin_vptree(S1, S2, distance, radius):
 
 def quickjoin_self_vptree(S, distance, radius):
 
-    if len(S) == 1:
+    if len(S) < 2:
         return
 
     tree = VPTree(S, distance)
-- 
2.43.0


From 6c7c10d4c0e754134d1f50a7d4a0c356e4d7c219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:29 +0000
Subject: [PATCH 18/48] fix: quickjoin must partition using a true metric when
 given a similarity

---
 fog/clustering/quickjoin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index 26f65bd..d5b67c0 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -234,8 +234,10 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
         data = list(data)
 
     if similarity is not None:
-        distance = lambda x, y: -similarity(x, y)
-        radius = -radius
+        # NOTE: the algorithm needs a true metric where the distance from an
+        # item to itself is 0
+        distance = lambda x, y: 1 - similarity(x, y)
+        radius = 1 - radius
 
     # Iterator recursively partitioning the data set using QuickJoin's method
     def blocks():
-- 
2.43.0


From 4dc39d80ce18059329b152ada151e20e8f0d9551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:47 +0000
Subject: [PATCH 19/48] fix: vp_tree must not crash when given less than two
 items

---
 fog/clustering/vp_tree.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fog/clustering/vp_tree.py b/fog/clustering/vp_tree.py
index 299ab31..2ff4088 100644
--- a/fog/clustering/vp_tree.py
+++ b/fog/clustering/vp_tree.py
@@ -44,6 +44,13 @@ def vp_tree(data, distance, radius, min_size=2, max_size=float('inf')):
     if type(data) is not list:
         data = list(data)
 
+    # A tree needs at least two items
+    if len(data) < 2:
+        if len(data) == 1 and min_size <= 1 <= max_size:
+            yield list(data)
+
+        return
+
     tree = VPTree(data, distance, selection='spread')
 
     visited = set()
-- 
2.43.0


From 60f4fdf242417ccd19d06ecbacb7d7f80d2127ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:38 +0000
Subject: [PATCH 20/48] fix: nn_descent must terminate when k is larger than
 the number of other items

---
 fog/clustering/nn_descent.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fog/clustering/nn_descent.py b/fog/clustering/nn_descent.py
index ed1b47e..030cdc4 100644
--- a/fog/clustering/nn_descent.py
+++ b/fog/clustering/nn_descent.py
@@ -111,7 +111,10 @@ def nn_descent(data, radius, similarity=None, distance=None, k=None,
 
     # Chosing k
     if k is None:
-        k = int(math.log2(N))
+        k = int(math.log2(N)) if N > 0 else 0
+
+    # NOTE: an item cannot have more neighbors than there are other items
+    k = max(0, min(k, N - 1))
 
     # Initial samples
     for i, item in enumerate(V):
@@ -276,7 +279,10 @@ def nn_descent_full(data, radius, similarity=None, distance=None, k=None,
 
     # Chosing k
     if k is None:
-        k = int(math.log2(N))
+        k = int(math.log2(N)) if N > 0 else 0
+
+    # NOTE: an item cannot have more neighbors than there are other items
+    k = max(0, min(k, N - 1))
 
     NK = N * k
     rhoK = int(rho * k)
-- 
2.43.0


From 1a0e0d20c64fae60cc6c789c1ae7e8180dbcdc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:39 +0000
Subject: [PATCH 21/48] fix: nn_descent_full must terminate when its
 neighborhoods cannot improve anymore

---
 fog/clustering/nn_descent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/clustering/nn_descent.py b/fog/clustering/nn_descent.py
index 030cdc4..e87078a 100644
--- a/fog/clustering/nn_descent.py
+++ b/fog/clustering/nn_descent.py
@@ -295,7 +295,7 @@ def nn_descent_full(data, radius, similarity=None, distance=None, k=None,
 
     c = NK
 
-    while c >= delta * NK:
+    while c > 0 and c >= delta * NK:
         old = []
         new = []
 
-- 
2.43.0


From 6cc2876c6ba316cad51588a68a154d473e9411ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:56 +0000
Subject: [PATCH 22/48] fix: nn_descent must not lose neighbors by keeping the
 same one twice

---
 fog/clustering/nn_descent.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/fog/clustering/nn_descent.py b/fog/clustering/nn_descent.py
index e87078a..f0467ec 100644
--- a/fog/clustering/nn_descent.py
+++ b/fog/clustering/nn_descent.py
@@ -57,6 +57,14 @@ def reverse(B):
     return R
 
 
+def is_neighbor(neighbors, j):
+    """
+    Returns whether the j index is already one of the given neighbors.
+
+    """
+    return any(neighbor[1] == j for neighbor in neighbors)
+
+
 def nn_descent(data, radius, similarity=None, distance=None, k=None,
                min_size=2, max_size=float('inf'),
                mode='connected_components',
@@ -149,7 +157,7 @@ def nn_descent(data, radius, similarity=None, distance=None, k=None,
 
                     s = similarity(V[i], V[jj])
 
-                    if s > B[i][0][0]:
+                    if s > B[i][0][0] and not is_neighbor(B[i], jj):
                         c += 1
                         heapreplace(B[i], (s, jj))
 
@@ -339,11 +347,11 @@ def nn_descent_full(data, radius, similarity=None, distance=None, k=None,
 
                     s = similarity(V[u1], V[u2])
 
-                    if s > B[u1][0][0]:
+                    if s > B[u1][0][0] and not is_neighbor(B[u1], u2):
                         c += 1
                         heapreplace(B[u1], (s, u2, True))
 
-                    if s > B[u2][0][0]:
+                    if s > B[u2][0][0] and not is_neighbor(B[u2], u1):
                         c += 1
                         heapreplace(B[u2], (s, u1, True))
 
@@ -354,11 +362,11 @@ def nn_descent_full(data, radius, similarity=None, distance=None, k=None,
 
                     s = similarity(V[u1], V[u2])
 
-                    if s > B[u1][0][0]:
+                    if s > B[u1][0][0] and not is_neighbor(B[u1], u2):
                         c += 1
                         heapreplace(B[u1], (s, u2, True))
 
-                    if s > B[u2][0][0]:
+                    if s > B[u2][0][0] and not is_neighbor(B[u2], u1):
                         c += 1
                         heapreplace(B[u2], (s, u1, True))
 
-- 
2.43.0


From fc1e557e9982570c8631dd146b62d6ed821caa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:54 +0000
Subject: [PATCH 23/48] fix: weighted_jaccard_similarity must not crash when
 every weight is 0

---
 fog/metrics/jaccard.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/metrics/jaccard.py b/fog/metrics/jaccard.py
index 319cc66..35c3b91 100644
--- a/fog/metrics/jaccard.py
+++ b/fog/metrics/jaccard.py
@@ -127,4 +127,8 @@ def weighted_jaccard_similarity(A, B):
 
         U += v
 
+    # Every weight is 0
+    if U == 0.0:
+        return 0.0
+
     return I / U
-- 
2.43.0


From aebbeab56b14eb9bd139185cbf6ef2ab066694f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:54 +0000
Subject: [PATCH 24/48] fix: sparse_cosine_similarity must not crash on null
 vectors

---
 fog/metrics/cosine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/metrics/cosine.py b/fog/metrics/cosine.py
index aae28ac..071ec0a 100644
--- a/fog/metrics/cosine.py
+++ b/fog/metrics/cosine.py
@@ -66,6 +66,10 @@ def sparse_cosine_similarity(A, B):
         weight = v
         yy += weight ** 2
 
+    # Every weight of one of the sets is 0
+    if xx == 0.0 or yy == 0.0:
+        return 0.0
+
     return xy / math.sqrt(xx * yy)
 
 
-- 
2.43.0


From f987137388d4fcee2f46e9d28eda43bc7f286f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:53 +0000
Subject: [PATCH 25/48] fix: monopartite_projection must not crash on nodes
 having only null weights

---
 fog/graph/projection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/graph/projection.py b/fog/graph/projection.py
index 19c57f9..b25d244 100644
--- a/fog/graph/projection.py
+++ b/fog/graph/projection.py
@@ -149,6 +149,10 @@ def monopartite_projection(bipartite, project, part='bipartite', weight='weight'
                     if n1 >= n2:
                         continue
 
+                    # NOTE: n2's vector can be null if all its weights are 0
+                    if n2 not in vectors:
+                        continue
+
                     # NOTE: if a threshold is given, this condition does
                     # not work as expected since edges are not added to
                     # the monopartite graph if they fall below the threshold
-- 
2.43.0


From d340bf60559ed0aa4e4067be315c6029c0ab72e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:53 +0000
Subject: [PATCH 26/48] fix: floatsam_sparsification must terminate when no
 component is large enough to drift away

---
 fog/graph/sparsification.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/graph/sparsification.py b/fog/graph/sparsification.py
index 10a024b..9f5ea3d 100644
--- a/fog/graph/sparsification.py
+++ b/fog/graph/sparsification.py
@@ -59,6 +59,10 @@ def floatsam_sparsification(graph, starting_treshold=0.0, learning_rate=0.05,
         best_threshold = threshold
         threshold += learning_rate
 
+        # NOTE: no component can drift away anymore when no edge would remain
+        if not any(w >= threshold for _, _, w in graph.edges(data=weight)):
+            break
+
         c = second_largest_component_size(graph, edge_filter)
 
         if c is not None and c >= max_drifter_size:
-- 
2.43.0


From 4d4ac3a83d50aa8fca085635f0eaa0070ac0edb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:57 +0000
Subject: [PATCH 27/48] fix: squeeze must also drop consecutive duplicate
 newlines

---
 fog/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/utils.py b/fog/utils.py
index 2099c1b..5aa3c01 100644
--- a/fog/utils.py
+++ b/fog/utils.py
@@ -7,7 +7,7 @@
 import re
 from statistics import StatisticsError
 
-SQUEEZE_RE = re.compile(r'(.)\1+')
+SQUEEZE_RE = re.compile(r'(.)\1+', re.DOTALL)
 SQUEEZE_ROMAN_RE = re.compile(r'([^IXCMixcm])\1+')
 
 
-- 
2.43.0


From 0db464c8c4991412266fde5fae53022c3c239de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:25 +0000
Subject: [PATCH 28/48] fix: hashjoin must not exhaust a right iterator, nor
 the keys of an item, at the first comparison

---
 fog/join/hashjoin.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fog/join/hashjoin.py b/fog/join/hashjoin.py
index 43be394..e951af1 100644
--- a/fog/join/hashjoin.py
+++ b/fog/join/hashjoin.py
@@ -45,6 +45,9 @@ def hashjoin(left, right, key=None, keys=None):
             similar pairs.
             """)
 
+    # NOTE: B is iterated over once per item of A
+    B = list(B)
+
     # Single key
     if key is not None:
         for a in A:
@@ -63,12 +66,12 @@ def hashjoin(left, right, key=None, keys=None):
     # Multiple keys
     if keys is not None:
         for a in A:
-            key_a = keys(a)
+            key_a = set(keys(a))
 
             for b in B:
                 key_b = keys(b)
 
-                if len(list(set(key_a) & set(key_b))) > 0:
+                if len(list(key_a & set(key_b))) > 0:
 
                     if invert:
                         yield (b, a)
-- 
2.43.0


From 824a7f132c18193e87f17cd41786abd548915d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:25 +0000
Subject: [PATCH 29/48] fix: split_action must add exactly one cell to each row
 when given a target column

---
 fog/cli/split.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/fog/cli/split.py b/fog/cli/split.py
index c8b7ce3..51d584a 100644
--- a/fog/cli/split.py
+++ b/fog/cli/split.py
@@ -25,15 +25,10 @@ def split_action(namespace):
     for line in reader:
         values = line[position]
 
-        if len(values) == 0:
-            writer.writerow(line)
-            continue
-
         for value in values.split(namespace.separator):
 
             if namespace.target_column:
-                line.append(value)
+                writer.writerow(line + [value])
             else:
                 line[position] = value
-
-            writer.writerow(line)
+                writer.writerow(line)
-- 
2.43.0


From 86cd7acf6822d1be958e80af67b8ee71091ba816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:59 +0000
Subject: [PATCH 30/48] fix: fingerprint tokenizers must not drop the uppercase
 letters of transliterations

---
 fog/tokenizers/fingerprint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fog/tokenizers/fingerprint.py b/fog/tokenizers/fingerprint.py
index 2c23bc0..29fb57e 100644
--- a/fog/tokenizers/fingerprint.py
+++ b/fog/tokenizers/fingerprint.py
@@ -104,7 +104,7 @@ class FingerprintTokenizer(object):
             string = re.sub(self.min_token_size_re, '', string)
 
         # Deburring
-        string = unidecode(string)
+        string = unidecode(string).lower()
 
         # Only keeping letters
         string = re.sub(BLACKLIST_RE, '', string)
@@ -157,7 +157,7 @@ class NgramsFingerprintTokenizer(FingerprintTokenizer):
             string = re.sub(self.min_token_size_re, '', string)
 
         # Deburring
-        string = unidecode(string)
+        string = unidecode(string).lower()
 
         # Only keeping letters
         string = re.sub(BLACKLIST_RE, '', string)
-- 
2.43.0


From 4b3ccc610629bfa7f355b40a4be36a82e3ad45b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:35 +0000
Subject: [PATCH 31/48] fix: cologne must squeeze the first code along with the
 other ones

---
 fog/phonetics/cologne.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fog/phonetics/cologne.py b/fog/phonetics/cologne.py
index 39ff309..7fa7986 100644
--- a/fog/phonetics/cologne.py
+++ b/fog/phonetics/cologne.py
@@ -121,6 +121,6 @@ def cologne(name):
         return ''
 
     # Squeezing and dropping not leading 0
-    rest = squeeze(''.join(code[1:])).replace('0', '')
+    code = squeeze(''.join(code))
 
-    return code[0] + rest
+    return code[0] + code[1:].replace('0', '')
-- 
2.43.0


From b600096be060a1a56b1d187118cf55261c55f9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:35 +0000
Subject: [PATCH 32/48] fix: cologne must not drop the lowercase letters of
 transliterations

---
 fog/phonetics/cologne.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fog/phonetics/cologne.py b/fog/phonetics/cologne.py
index 7fa7986..231ae95 100644
--- a/fog/phonetics/cologne.py
+++ b/fog/phonetics/cologne.py
@@ -79,12 +79,12 @@ def cologne(name):
     """
 
     # Preparing the name
-    name = name.upper()
+    # NOTE: transliterations can be lowercase or contain "PH"
+    name = unidecode(name.upper()).upper()
 
     for p, r in GERMANIC_SUBSTITUTIONS:
         name = name.replace(p, r)
 
-    name = unidecode(name)
     name = re.sub(ALPHA_RE, '', name)
 
     code = []
-- 
2.43.0


From 3432c53d7fcaaa8681a18c83f2851f0799c255e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:35 +0000
Subject: [PATCH 33/48] fix: rusalka must not crash on names having only
 dropped letters

---
 fog/phonetics/rusalka.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/phonetics/rusalka.py b/fog/phonetics/rusalka.py
index 10246c4..77d1045 100644
--- a/fog/phonetics/rusalka.py
+++ b/fog/phonetics/rusalka.py
@@ -104,6 +104,10 @@ def rusalka(name):
     name = re.sub(DUPLICATED, r'\1', name)
     name = name.lower()
 
+    # NOTE: rules can drop all the letters of a name
+    if not name:
+        return name
+
     first_letter = name[0]
     rest = name[1:]
 
-- 
2.43.0


From 09446e8748517b93c9a2fdc35e1989b282d375e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:57 +0000
Subject: [PATCH 34/48] fix: WordTokenizer must not tag a lone dash before a
 decimal mark as a number

---
 fog/tokenizers/words.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index ca21436..81f22a2 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -442,6 +442,10 @@ class WordTokenizer(object):
                 if already_consumed and j > i + 1 and string[j - 1] in DECIMALS:
                     j -= 1
 
+                # A lone dash is not a number
+                if j == i + 1 and c == '-':
+                    token_type = 'punct'
+
             # Alphanumerical token
             can_be_acronym = False
 
-- 
2.43.0


From 0655e63a816c3c2f03af1d62682251504947eb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:57 +0000
Subject: [PATCH 35/48] fix: WordTokenizer must not lose the word following a
 capital and a point

---
 fog/tokenizers/words.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index 81f22a2..90274e4 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -506,8 +506,9 @@ class WordTokenizer(object):
                     yield ('word', before)
 
                 else:
-                    for t in POINT_SPLITTER_RE.split(before)[:-1]:
-                        yield ('word' if t != '.' else 'punct', t)
+                    for t in POINT_SPLITTER_RE.split(before):
+                        if t:
+                            yield ('word' if t != '.' else 'punct', t)
 
                 i = j
                 continue
-- 
2.43.0


From 52323e4090ff4347b339f4c005fdfcfb9f456db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:57 +0000
Subject: [PATCH 36/48] fix: WordTokenizer must not emit empty words

---
 fog/tokenizers/words.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index 90274e4..0a1c055 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -580,7 +580,8 @@ class WordTokenizer(object):
 
                     if hyphens == 2 and '-t-' in before:
                         for t in before.split('-'):
-                            yield (token_type, t)
+                            if t:
+                                yield (token_type, t)
 
                     elif hyphens == 1:
                         a, b = before.split('-')
-- 
2.43.0


From bb44970b5e8c66c76815c26e6b826b8237b38b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:27 +0000
Subject: [PATCH 37/48] fix: WordTokenizer must not tag contractions as
 numbers, hashtags or mentions

---
 fog/tokenizers/words.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index 0a1c055..039170b 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -528,21 +528,24 @@ class WordTokenizer(object):
                 if k > j + 1:
                     after = string[j + 1:k]
 
+                    # Numbers glued to an apostrophe cannot be parsed as such
+                    glued_type = token_type if token_type != 'number' else 'word'
+
                     if after[0].isdigit():
-                        yield (token_type, before + string[j])
+                        yield (glued_type, before + string[j])
                         i = j + 1
                         continue
 
                     elif after in ENGLISH_CONTRACTIONS:
                         yield (token_type, before)
-                        yield (token_type, string[j] + after)
+                        yield ('word', string[j] + after)
 
                     elif (
                         (before.endswith('n') and after == 't') or
                         after in FRENCH_EXCEPTIONS or
                         '-' in before
                     ):
-                        yield (token_type, string[i:k])
+                        yield (glued_type, string[i:k])
 
                     elif (
                         (
@@ -552,10 +555,10 @@ class WordTokenizer(object):
                         ) or
                         before in IRISH
                     ):
-                        yield (token_type, before + string[j] + after)
+                        yield (glued_type, before + string[j] + after)
 
                     else:
-                        yield (token_type, before + string[j])
+                        yield (glued_type, before + string[j])
                         i = j + 1
                         continue
 
-- 
2.43.0


From a519af7116059bb18d0b5ca9d6dc3ed0cb5fca41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:27 +0000
Subject: [PATCH 38/48] fix: WordTokenizer must not tag as numbers digits which
 cannot be parsed

---
 fog/tokenizers/words.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index 039170b..0ce46b4 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -176,7 +176,7 @@ def validate_token_types(types):
 def split_hashtag(string):
     offset = 1
     it = enumerate(string)
-    state = 'upper-start' if not string[1].isdigit() else 'number'
+    state = 'upper-start' if not string[1].isdecimal() else 'number'
 
     next(it)  # Hastag sigil '#'
     next(it)  # First char
@@ -190,7 +190,7 @@ def split_hashtag(string):
                 state = 'upper-start'
                 offset = i
 
-            elif c.isdigit():
+            elif c.isdecimal():
                 yield ('word', string[offset:i])
                 state = 'number'
                 offset = i
@@ -204,7 +204,7 @@ def split_hashtag(string):
                 state = 'upper-next'
                 continue
 
-            if c.isdigit():
+            if c.isdecimal():
                 state = 'number'
                 yield ('word', string[offset:i])
                 offset = i
@@ -215,13 +215,13 @@ def split_hashtag(string):
                 yield ('word', string[offset:i - 1])
                 offset = i - 1
 
-            elif c.isdigit():
+            elif c.isdecimal():
                 state = 'number'
                 yield ('word', string[offset:i])
                 offset = i
 
         elif state == 'number':
-            if not c.isdigit():
+            if not c.isdecimal():
                 if c.isupper():
                     state = 'upper-start'
                     yield ('number', string[offset:i])
@@ -398,7 +398,7 @@ class WordTokenizer(object):
                 already_consumed = True
 
             # Numerical token
-            elif c.isdigit() or c == '-':
+            elif c.isdecimal() or c == '-':
                 already_consumed = True
                 token_type = 'punct'
                 last_char = c
@@ -410,7 +410,7 @@ class WordTokenizer(object):
                     if n.isspace():
                         break
 
-                    if not n.isdigit():
+                    if not n.isdecimal():
                         if last_char in DECIMALS:
                             j -= 1
                             break
-- 
2.43.0


From d6dc8290748e1c7559fc3fdd1087acf4dab69158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:14 +0000
Subject: [PATCH 39/48] fix: WordTokenizer must not glue a dash to the
 following apostrophe

---
 fog/tokenizers/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index 0ce46b4..81c2368 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -514,7 +514,7 @@ class WordTokenizer(object):
                 continue
 
             # Handling contractions
-            if j < l and string[j] in APOSTROPHES:
+            if j < l and string[j] in APOSTROPHES and token_type != 'punct':
                 k = j + 1
 
                 while k < l:
-- 
2.43.0


From b8e3d1ae648d4e5c955f7e9e4f61a28d140b8df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:14 +0000
Subject: [PATCH 40/48] fix: WordTokenizer must split hashtags after a single
 lowercase letter

---
 fog/tokenizers/words.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index 81c2368..9d51545 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -178,6 +178,9 @@ def split_hashtag(string):
     it = enumerate(string)
     state = 'upper-start' if not string[1].isdecimal() else 'number'
 
+    if string[1].islower():
+        state = 'lower'
+
     next(it)  # Hastag sigil '#'
     next(it)  # First char
 
-- 
2.43.0


From f8b04774c9c80ab0e5468618c38fcee3603d8e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:55 +0000
Subject: [PATCH 41/48] fix: minhash must not guess more bands than integers in
 the signature

---
 fog/clustering/minhash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/clustering/minhash.py b/fog/clustering/minhash.py
index 3701d26..8e20880 100644
--- a/fog/clustering/minhash.py
+++ b/fog/clustering/minhash.py
@@ -80,7 +80,7 @@ def guess_bands(h, threshold):
 
     bands = 1
 
-    while bands <= h:
+    while bands < h:
         t = similarity_threshold(h, bands)
 
         if t <= threshold:
-- 
2.43.0


From e4ca60db0ee6efa72728a17a7a93a21bdb266d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:37 +0000
Subject: [PATCH 42/48] fix: the toml report must escape backslashes and
 control characters

---
 fog/cli/reporting/toml.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fog/cli/reporting/toml.py b/fog/cli/reporting/toml.py
index 98b6dd1..a8a2edb 100644
--- a/fog/cli/reporting/toml.py
+++ b/fog/cli/reporting/toml.py
@@ -5,9 +5,15 @@
 # Function used to render a clustering result into a TOML file.
 #
 
+# NOTE: control characters cannot be written as-is in TOML strings
+ESCAPES = {c: '\\u%04x' % c for c in list(range(0x20)) + [0x7f]}
+ESCAPES[ord('\n')] = '\\n'
+ESCAPES[ord('"')] = '\\"'
+ESCAPES[ord('\\')] = '\\\\'
+
 
 def escape_string(string):
-    return string.replace('"', '\\"').replace('\n', '\\n')
+    return string.translate(ESCAPES)
 
 
 def print_toml_report(file, meta, values, clusters):
-- 
2.43.0


From b3839fd2d5a3ab89c125a64b0100755a0d41910d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:37 +0000
Subject: [PATCH 43/48] fix: the html report must escape the values

---
 fog/cli/reporting/html.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/cli/reporting/html.py b/fog/cli/reporting/html.py
index 3c39c45..4ade43c 100644
--- a/fog/cli/reporting/html.py
+++ b/fog/cli/reporting/html.py
@@ -5,6 +5,7 @@
 # Function used to render a clustering result into a HTML file.
 #
 import datetime
+from html import escape
 
 
 def print_html_report(file, meta, values, clusters):
@@ -92,7 +93,7 @@ def print_html_report(file, meta, values, clusters):
 
         for v in sorted_values:
             p('        <li>')
-            p('          %s' % v)
+            p('          %s' % escape(v))
             p('        </li>')
 
         p('      </ul>')
-- 
2.43.0


From c74c704532fad6e9fdca264f428be390fe5b0074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:39 +0000
Subject: [PATCH 44/48] fix: laesa must not miss pairs of items within the
 radius

---
 fog/clustering/laesa.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/fog/clustering/laesa.py b/fog/clustering/laesa.py
index ad9be68..ea6dcd9 100644
--- a/fog/clustering/laesa.py
+++ b/fog/clustering/laesa.py
@@ -72,7 +72,6 @@ def pivot_selection(rng, data, pivots, distance):
     return p, D
 
 
-# TODO: currently not working
 def laesa(data, distance, radius, pivots=None, min_size=2,
           max_size=float('inf'), seed=None, mode='connected_components'):
     """
@@ -116,16 +115,6 @@ def laesa(data, distance, radius, pivots=None, min_size=2,
     def clustering():
         DD = 0
         for i, x in enumerate(data):
-
-            # Distance to the nearest pivot
-            d_star = float('inf')
-
-            for j in range(pivots):
-                d = distance(data[p[j]], x)
-
-                if d < d_star:
-                    d_star = d
-
             for k in range(i + 1, n):
 
                 compute = True
@@ -133,7 +122,8 @@ def laesa(data, distance, radius, pivots=None, min_size=2,
                 for j in range(pivots):
                     delta = abs(D[j][i] - D[j][k])
 
-                    if delta > d_star:
+                    # By the triangle inequality, this is a lower bound
+                    if delta > radius:
                         compute = False
                         break
 
-- 
2.43.0


From d7d3817f03c242c93892eb087c067e041301a0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:39 +0000
Subject: [PATCH 45/48] fix: laesa must not print on the standard output

---
 fog/clustering/laesa.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/fog/clustering/laesa.py b/fog/clustering/laesa.py
index ea6dcd9..3d0eb83 100644
--- a/fog/clustering/laesa.py
+++ b/fog/clustering/laesa.py
@@ -113,7 +113,6 @@ def laesa(data, distance, radius, pivots=None, min_size=2,
     n = len(data)
 
     def clustering():
-        DD = 0
         for i, x in enumerate(data):
             for k in range(i + 1, n):
 
@@ -129,13 +128,10 @@ def laesa(data, distance, radius, pivots=None, min_size=2,
 
                 if compute:
                     d = distance(x, data[k])
-                    DD += 1
 
                     if d <= radius:
                         yield (x, data[k])
 
-        print('DISTANCES: %i' % DD)
-
     yield from clusters_from_pairs(
         clustering(),
         min_size=min_size,
-- 
2.43.0


From bbc3f334d5f3b1636dcc7a8bbe85954b5fc446c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:39 +0000
Subject: [PATCH 46/48] fix: laesa must not crash when given few or identical
 items

---
 fog/clustering/laesa.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/fog/clustering/laesa.py b/fog/clustering/laesa.py
index 3d0eb83..798c144 100644
--- a/fog/clustering/laesa.py
+++ b/fog/clustering/laesa.py
@@ -44,7 +44,6 @@ def pivot_selection(rng, data, pivots, distance):
     for i in range(pivots):
         maximum = 0
         b = b_prime
-        D.append([0] * n)
         pivot = data[b]
 
         for j, item in enumerate(data):
@@ -63,11 +62,9 @@ def pivot_selection(rng, data, pivots, distance):
     p = list(p)
 
     # Pre-computing distances (not necessary, can be done before or later)
-    for i in range(pivots):
-        pivot = data[p[i]]
-
-        for j, item in enumerate(data):
-            D[i][j] = distance(pivot, item)
+    # NOTE: there can be less pivots than expected if items are the same
+    for b in p:
+        D.append([distance(data[b], item) for item in data])
 
     return p, D
 
@@ -104,6 +101,9 @@ def laesa(data, distance, radius, pivots=None, min_size=2,
     if type(data) is not list:
         data = list(data)
 
+    if len(data) < 2:
+        return
+
     # Finding the number of pivots
     if pivots is None:
         pivots = math.ceil(math.log2(len(data)))
@@ -118,7 +118,7 @@ def laesa(data, distance, radius, pivots=None, min_size=2,
 
                 compute = True
 
-                for j in range(pivots):
+                for j in range(len(p)):
                     delta = abs(D[j][i] - D[j][k])
 
                     # By the triangle inequality, this is a lower bound
-- 
2.43.0


From f5293a738cf2156f41e2da79c9c2d5e67b92d183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:33 +0000
Subject: [PATCH 47/48] fix: the html report must close its html tag

---
 fog/cli/reporting/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/cli/reporting/html.py b/fog/cli/reporting/html.py
index 4ade43c..d2a15ab 100644
--- a/fog/cli/reporting/html.py
+++ b/fog/cli/reporting/html.py
@@ -101,4 +101,4 @@ def print_html_report(file, meta, values, clusters):
 
     p('    </div>')
     p('  </body>')
-    p('<html>')
+    p('</html>')
-- 
2.43.0


From 4443998d2de6ecb0953a874bf02dbf1d03342cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:33 +0000
Subject: [PATCH 48/48] fix: the html report must show the duration in seconds

---
 fog/cli/reporting/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/cli/reporting/html.py b/fog/cli/reporting/html.py
index d2a15ab..0245836 100644
--- a/fog/cli/reporting/html.py
+++ b/fog/cli/reporting/html.py
@@ -75,7 +75,7 @@ def print_html_report(file, meta, values, clusters):
     p('            <b>Took</b>')
     p('          </td>')
     p('          <td>')
-    p('            %s' % datetime.timedelta(microseconds=meta['took']))
+    p('            %s' % datetime.timedelta(seconds=meta['took']))
     p('          </td>')
     p('        </tr>')
     p('      </table>')
-- 
2.43.0

