From f1673e7ea976ce9947ce9dc439282acf1d32e5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 01/72] fix: Ring with 2k == N connects every vertex to its
 antipode, symmetrically

---
 pygsp/graphs/ring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/ring.py b/pygsp/graphs/ring.py
index a189c14..b28e4e7 100644
--- a/pygsp/graphs/ring.py
+++ b/pygsp/graphs/ring.py
@@ -79,7 +79,7 @@ class Ring(Graph):
 
         if 2 * k == N:
             i_inds[2 * N * (k - 1) + tmpN] = tmpN
-            i_inds[2 * N * (k - 1) + tmpN] = np.remainder(tmpN + k + 1, N)
+            j_inds[2 * N * (k - 1) + tmpN] = np.remainder(tmpN + k, N)
 
         W = sparse.csc_matrix((np.ones(2 * num_edges), (i_inds, j_inds)), shape=(N, N))
 
-- 
2.43.0


From 07d33e0ab8294e1ec7db675e3f58c9a7a37af207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 02/72] fix: Community(k_neigh=...) builds its intra-community
 edges (lazy map never ran)

---
 pygsp/graphs/community.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pygsp/graphs/community.py b/pygsp/graphs/community.py
index 5a7d8d0..baee1c3 100644
--- a/pygsp/graphs/community.py
+++ b/pygsp/graphs/community.py
@@ -206,13 +206,9 @@ class Community(Graph):
                 __, indices = kdtree.query(comm_coords, k=k_neigh + 1)
 
                 pairs_set = set()
-                map(
-                    lambda row: map(
-                        lambda elm: pairs_set.add((min(row[0], elm), max(row[0], elm))),
-                        row[1:],
-                    ),
-                    indices,
-                )
+                for row in indices:
+                    for elm in row[1:]:
+                        pairs_set.add((min(row[0], elm), max(row[0], elm)))
 
                 w_data[0] += [1] * len(pairs_set)
                 w_data[1][0] += [first_node + pair[0] for pair in pairs_set]
-- 
2.43.0


From 88857af53a4ce2136c371020fa2a487441b78c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 03/72] fix: set_coordinates('community2D') raises when the
 graph has no community info

---
 pygsp/graphs/_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/_layout.py b/pygsp/graphs/_layout.py
index 9ee1a03..142fd40 100644
--- a/pygsp/graphs/_layout.py
+++ b/pygsp/graphs/_layout.py
@@ -63,7 +63,7 @@ class LayoutMixIn:
 
         elif kind == "community2D":
             if not hasattr(self, "info") or "node_com" not in self.info:
-                ValueError(
+                raise AttributeError(
                     "Missing arguments to the graph to be able to "
                     "compute community coordinates."
                 )
-- 
2.43.0


From 811727247967990ba0475499a05068fe7eecb04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 04/72] fix: import the names the coordinate layouts use

---
 pygsp/graphs/_layout.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygsp/graphs/_layout.py b/pygsp/graphs/_layout.py
index 142fd40..728da55 100644
--- a/pygsp/graphs/_layout.py
+++ b/pygsp/graphs/_layout.py
@@ -1,4 +1,7 @@
+from collections import Counter
+
 import numpy as np
+from scipy import sparse
 
 
 class LayoutMixIn:
-- 
2.43.0


From ecd1a44b480332b00cec737bcac11f04d6f93aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 05/72] fix: RandomRing does not sort the caller's angles in
 place

---
 pygsp/graphs/randomring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/graphs/randomring.py b/pygsp/graphs/randomring.py
index 383065a..294f7d0 100644
--- a/pygsp/graphs/randomring.py
+++ b/pygsp/graphs/randomring.py
@@ -37,8 +37,8 @@ class RandomRing(Graph):
             rng = np.random.default_rng(seed)
             angles = np.sort(rng.uniform(0, 2 * np.pi, size=N), axis=0)
         else:
-            angles = np.asanyarray(angles)
-            angles.sort()  # Need to be sorted to take the difference.
+            # Need to be sorted to take the difference.
+            angles = np.sort(np.asanyarray(angles))
             N = len(angles)
             if np.any(angles < 0) or np.any(angles >= 2 * np.pi):
                 raise ValueError("Angles should be in [0, 2 pi]")
-- 
2.43.0


From 327518948f8bd7062690b2e5d8e4b5d0776fbc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 06/72] fix: NNGraph(center=False) does not rescale the
 caller's points in place

---
 pygsp/graphs/nngraphs/nngraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/nngraphs/nngraph.py b/pygsp/graphs/nngraphs/nngraph.py
index d81b668..b099c05 100644
--- a/pygsp/graphs/nngraphs/nngraph.py
+++ b/pygsp/graphs/nngraphs/nngraph.py
@@ -134,7 +134,7 @@ class NNGraph(Graph):
                 np.amax(Xout, axis=0) - np.amin(Xout, axis=0), 2
             )
             scale = np.power(N, 1.0 / float(min(d, 3))) / 10.0
-            Xout *= scale / bounding_radius
+            Xout = Xout * (scale / bounding_radius)
 
         # Translate distance type string to corresponding Minkowski order.
         dist_translation = {
-- 
2.43.0


From 5e33966fd8be43c850e97c83f2ca7915f992940b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 07/72] fix: NNGraph rejects an unknown dist_type with every
 backend

---
 pygsp/graphs/nngraphs/nngraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsp/graphs/nngraphs/nngraph.py b/pygsp/graphs/nngraphs/nngraph.py
index b099c05..12eb7ea 100644
--- a/pygsp/graphs/nngraphs/nngraph.py
+++ b/pygsp/graphs/nngraphs/nngraph.py
@@ -143,6 +143,8 @@ class NNGraph(Graph):
             "max_dist": np.inf,
             "minkowski": order,
         }
+        if dist_type not in dist_translation:
+            raise ValueError(f"Unknown dist_type {dist_type}.")
 
         if self.NNtype == "knn":
             spi = np.zeros(N * k)
-- 
2.43.0


From 8b1cb790c7f00e7bffe38b4b3782de837c6423b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 08/72] fix: StochasticBlockModel does not write into the
 caller's q

---
 pygsp/graphs/stochasticblockmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/stochasticblockmodel.py b/pygsp/graphs/stochasticblockmodel.py
index 797f045..c782458 100644
--- a/pygsp/graphs/stochasticblockmodel.py
+++ b/pygsp/graphs/stochasticblockmodel.py
@@ -110,7 +110,7 @@ class StochasticBlockModel(Graph):
                     "nor a matrix of size k x k."
                 )
 
-            M = q
+            M = q.copy()
             M.flat[:: k + 1] = p  # edit the diagonal terms
 
         self.M = M
-- 
2.43.0


From 195057a25b65541f61fb15c9546e89f68840cd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 09/72] fix: StochasticBlockModel built from M has a repr

---
 pygsp/graphs/stochasticblockmodel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygsp/graphs/stochasticblockmodel.py b/pygsp/graphs/stochasticblockmodel.py
index c782458..69ed0b0 100644
--- a/pygsp/graphs/stochasticblockmodel.py
+++ b/pygsp/graphs/stochasticblockmodel.py
@@ -87,8 +87,9 @@ class StochasticBlockModel(Graph):
             z.sort()  # Sort for nice spy plot of W, where blocks are apparent.
         self.z = z
 
+        self.p = p
+        self.q = q
         if M is None:
-            self.p = p
             p = np.asanyarray(p)
             if p.size == 1:
                 p = p * np.ones(k)
@@ -100,7 +101,7 @@ class StochasticBlockModel(Graph):
 
             if q is None:
                 q = 0.3 / k
-            self.q = q
+                self.q = q
             q = np.asanyarray(q)
             if q.size == 1:
                 q = q * np.ones((k, k))
-- 
2.43.0


From cb3ba4d2fd81a62707373e3ec9adec709f1e1571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 10/72] fix: RandomRegular keeps integer half-edges when it
 restarts

---
 pygsp/graphs/randomregular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/randomregular.py b/pygsp/graphs/randomregular.py
index 3c0fa6b..958084e 100644
--- a/pygsp/graphs/randomregular.py
+++ b/pygsp/graphs/randomregular.py
@@ -89,7 +89,7 @@ class RandomRegular(Graph):
                 if edgesTested == N * k:
                     repetition = repetition + 1
                     edgesTested = 0
-                    U = np.kron(np.ones(k), np.arange(N))
+                    U = np.kron(np.ones(k), np.arange(N)).astype(int)
                     A = sparse.lil_matrix(np.zeros((N, N)))
             else:
                 # add edge to graph
-- 
2.43.0


From 8a07cd4f36cf7022efb7bfcadba7aac2709ce5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 11/72] fix: LowStretchTree base tree has edge (1, 0) and no
 self-loop

---
 pygsp/graphs/lowstretchtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/lowstretchtree.py b/pygsp/graphs/lowstretchtree.py
index 5bb9f24..9ddd3eb 100644
--- a/pygsp/graphs/lowstretchtree.py
+++ b/pygsp/graphs/lowstretchtree.py
@@ -33,7 +33,7 @@ class LowStretchTree(Graph):
         YCoords = np.array([1, 1, 2, 2], dtype=int)
 
         ii = np.array([0, 0, 1, 2, 2, 3], dtype=int)
-        jj = np.array([1, 2, 1, 3, 0, 2], dtype=int)
+        jj = np.array([1, 2, 0, 3, 0, 2], dtype=int)
 
         for p in range(1, k):
             ii = np.concatenate(
-- 
2.43.0


From 439b0e88ce16f3db12f9860e34b63e3c8b6a749b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 12/72] fix: Star accepts plotting parameters

---
 pygsp/graphs/star.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/star.py b/pygsp/graphs/star.py
index 501f1af..601d14f 100644
--- a/pygsp/graphs/star.py
+++ b/pygsp/graphs/star.py
@@ -30,7 +30,7 @@ class Star(Comet):
 
     def __init__(self, N=10, **kwargs):
         plotting = dict(limits=[-1.1, 1.1, -1.1, 1.1])
-        plotting.update(kwargs.get("plotting", {}))
+        plotting.update(kwargs.pop("plotting", {}))
         super().__init__(N, N - 1, plotting=plotting, **kwargs)
 
     def _get_extra_repr(self):
-- 
2.43.0


From c9171553b642525adc2fc45ab901c5207dfc2129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 13/72] fix: SwissRoll rejects unknown srtype and dim

---
 pygsp/graphs/swissroll.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pygsp/graphs/swissroll.py b/pygsp/graphs/swissroll.py
index 736b5dc..d70eb02 100644
--- a/pygsp/graphs/swissroll.py
+++ b/pygsp/graphs/swissroll.py
@@ -75,12 +75,16 @@ class SwissRoll(Graph):
             tt = np.sqrt((b * b - a * a) * y1 + a * a)
         elif srtype == "classic":
             tt = (b - a) * y1 + a
+        else:
+            raise ValueError(f"Unknown srtype {srtype}.")
         tt *= np.pi
 
         if dim == 2:
             x = np.array((tt * np.cos(tt), tt * np.sin(tt)))
         elif dim == 3:
             x = np.array((tt * np.cos(tt), 21 * y2, tt * np.sin(tt)))
+        else:
+            raise ValueError("The dimension should be 2 or 3.")
 
         if noise:
             x += rng.normal(size=x.shape)
-- 
2.43.0


From d5d8e10dad93d9e6efbf1f0250b89075f3fc3552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 14/72] fix: Cube rejects dimensions other than 2 and 3

---
 pygsp/graphs/nngraphs/cube.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygsp/graphs/nngraphs/cube.py b/pygsp/graphs/nngraphs/cube.py
index 6b46a6d..49dd8aa 100644
--- a/pygsp/graphs/nngraphs/cube.py
+++ b/pygsp/graphs/nngraphs/cube.py
@@ -70,6 +70,9 @@ class Cube(NNGraph):
                     (rs.rand(n, 2), np.ones((n, 1))), axis=1
                 )
 
+            else:
+                raise ValueError("The dimension should be 2 or 3.")
+
         else:
             raise ValueError("Unknown sampling !")
 
-- 
2.43.0


From 57d01b51d9efc62a6e58a9298ab629b638aedd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 15/72] fix: Sphere and Cube honour their radius

---
 pygsp/graphs/nngraphs/cube.py   | 2 ++
 pygsp/graphs/nngraphs/sphere.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/nngraphs/cube.py b/pygsp/graphs/nngraphs/cube.py
index 49dd8aa..eaf24cd 100644
--- a/pygsp/graphs/nngraphs/cube.py
+++ b/pygsp/graphs/nngraphs/cube.py
@@ -76,6 +76,8 @@ class Cube(NNGraph):
         else:
             raise ValueError("Unknown sampling !")
 
+        pts = pts * self.radius
+
         plotting = {
             "vertex_size": 80,
             "elevation": 15,
diff --git a/pygsp/graphs/nngraphs/sphere.py b/pygsp/graphs/nngraphs/sphere.py
index e490031..936556b 100644
--- a/pygsp/graphs/nngraphs/sphere.py
+++ b/pygsp/graphs/nngraphs/sphere.py
@@ -46,7 +46,7 @@ class Sphere(NNGraph):
             pts = rs.normal(0, 1, (self.nb_pts, self.nb_dim))
 
             for i in range(self.nb_pts):
-                pts[i] /= np.linalg.norm(pts[i])
+                pts[i] *= self.radius / np.linalg.norm(pts[i])
 
         else:
             raise ValueError(f"Unknown sampling {sampling}")
-- 
2.43.0


From c1b7fa75f56a67bb0a65e34567cba29cb1c96b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 16/72] fix: ImgPatches raises on an image of unsupported
 dimension

---
 pygsp/graphs/nngraphs/imgpatches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/nngraphs/imgpatches.py b/pygsp/graphs/nngraphs/imgpatches.py
index ea9dd7e..c8d185d 100644
--- a/pygsp/graphs/nngraphs/imgpatches.py
+++ b/pygsp/graphs/nngraphs/imgpatches.py
@@ -59,7 +59,7 @@ class ImgPatches(NNGraph):
                 h, w = img.shape
                 d = 0
             except ValueError:
-                print("Image should be at least a 2D array.")
+                raise ValueError("Image should be a 2D or 3D array.")
 
         try:
             r, c = patch_shape
-- 
2.43.0


From ff4e82cb9d74cd34c16f71e9d390fc74a18ee005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 17/72] fix: StochasticBlockModel does not truncate p when q is
 an integer matrix

---
 pygsp/graphs/stochasticblockmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/stochasticblockmodel.py b/pygsp/graphs/stochasticblockmodel.py
index 69ed0b0..0c84937 100644
--- a/pygsp/graphs/stochasticblockmodel.py
+++ b/pygsp/graphs/stochasticblockmodel.py
@@ -111,7 +111,7 @@ class StochasticBlockModel(Graph):
                     "nor a matrix of size k x k."
                 )
 
-            M = q.copy()
+            M = q.astype(float)  # Always a copy.
             M.flat[:: k + 1] = p  # edit the diagonal terms
 
         self.M = M
-- 
2.43.0


From 9e777ca613f884a8493beffeadab7c05222fa306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 18/72] fix: switching the Laplacian lets lmax be estimated
 again

---
 pygsp/graphs/graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index 495415b..da34ac5 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -603,6 +603,7 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
             # Those attributes are invalidated when the Laplacian is changed.
             # Alternative: don't allow the user to change the Laplacian.
             self._lmax = None
+            self._lmax_method = None
             self._U = None
             self._e = None
             self._coherence = None
-- 
2.43.0


From 779444aff94d20db12c1fc04838cdf5cb4aed212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 19/72] fix: compute_laplacian with an unknown type leaves the
 graph untouched

---
 pygsp/graphs/graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index da34ac5..12df8d6 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -599,6 +599,9 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
 
         """
 
+        if lap_type not in ["combinatorial", "normalized"]:
+            raise ValueError(f"Unknown Laplacian type {lap_type}")
+
         if lap_type != self.lap_type:
             # Those attributes are invalidated when the Laplacian is changed.
             # Alternative: don't allow the user to change the Laplacian.
@@ -627,8 +630,6 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
             self.L = sparse.identity(self.n_vertices) - D * W * D
             self.L[disconnected, disconnected] = 0
             self.L.eliminate_zeros()
-        else:
-            raise ValueError(f"Unknown Laplacian type {lap_type}")
 
     def _check_signal(self, s):
         r"""Check if signal is valid."""
-- 
2.43.0


From 1fe104a5c91d1245109a27bce3ff610f89e85bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 20/72] fix: a failed estimate_lmax does not pretend the
 estimate is available

---
 pygsp/graphs/graph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index 12df8d6..6e9c1e3 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -904,7 +904,6 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
         """
         if method == self._lmax_method:
             return
-        self._lmax_method = method
 
         if method == "lanczos":
             try:
@@ -920,18 +919,20 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
                 lmax = lmax[0]
                 assert lmax <= self._get_upper_bound() + 1e-12
                 lmax *= 1.01  # Increase by 1% to be robust to errors.
-                self._lmax = lmax
             except sparse.linalg.ArpackNoConvergence:
                 raise ValueError(
                     "The Lanczos method did not converge. " "Try to use bounds."
                 )
 
         elif method == "bounds":
-            self._lmax = self._get_upper_bound()
+            lmax = self._get_upper_bound()
 
         else:
             raise ValueError(f"Unknown method {method}")
 
+        self._lmax = lmax
+        self._lmax_method = method
+
     def _get_upper_bound(self):
         r"""Return an upper bound on the eigenvalues of the Laplacian."""
 
-- 
2.43.0


From 04976c00f49363d57f2c69a4ca17dcc79236dec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 21/72] fix: estimate_lmax does not depend on the unit of the
 edge weights

---
 pygsp/graphs/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index 6e9c1e3..0d7d377 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -917,7 +917,7 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
                     return_eigenvectors=False,
                 )
                 lmax = lmax[0]
-                assert lmax <= self._get_upper_bound() + 1e-12
+                assert lmax <= self._get_upper_bound() * (1 + 1e-12)
                 lmax *= 1.01  # Increase by 1% to be robust to errors.
             except sparse.linalg.ArpackNoConvergence:
                 raise ValueError(
-- 
2.43.0


From 0e5d6d3104b4efc829dd17f3c942d1afd06ab553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 22/72] fix: a failed compute_fourier_basis leaves the graph
 untouched

---
 pygsp/graphs/fourier.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pygsp/graphs/fourier.py b/pygsp/graphs/fourier.py
index 43d7de7..1c7ded5 100644
--- a/pygsp/graphs/fourier.py
+++ b/pygsp/graphs/fourier.py
@@ -169,26 +169,28 @@ class FourierMixIn:
 
         # TODO: handle non-symmetric Laplacians. Test lap_type?
         if n_eigenvectors == self.n_vertices:
-            self._e, self._U = linalg.eigh(self.L.toarray(order="F"), overwrite_a=True)
+            e, U = linalg.eigh(self.L.toarray(order="F"), overwrite_a=True)
         else:
             # fast partial eigendecomposition of hermitian matrices
-            self._e, self._U = sparse.linalg.eigsh(self.L, n_eigenvectors, which="SM")
+            e, U = sparse.linalg.eigsh(self.L, n_eigenvectors, which="SM")
         # Columns are eigenvectors. Sorted in ascending eigenvalue order.
 
         # Smallest eigenvalue should be zero: correct numerical errors.
         # Eigensolver might sometimes return small negative values, which
         # filter's implementations may not anticipate. Better for plotting too.
-        assert -1e-5 < self._e[0] < 1e-5
-        self._e[0] = 0
+        assert -1e-5 < e[0] < 1e-5
+        e[0] = 0
 
         # we set the first eigenvector to have positive values:
-        if np.abs(self._U[0, 0]).sum() < 0:
-            self._U[0, :] = -self._U[0, :]
+        if np.abs(U[0, 0]).sum() < 0:
+            U[0, :] = -U[0, :]
 
         # Bounded spectrum.
-        assert self._e[-1] <= self._get_upper_bound() + 1e-5
+        assert e[-1] <= self._get_upper_bound() + 1e-5
 
-        assert np.max(self._e) == self._e[-1]
+        assert np.max(e) == e[-1]
+
+        self._e, self._U = e, U
         if n_eigenvectors == self.N:
             self._lmax = self._e[-1]
             self._lmax_method = "fourier"
-- 
2.43.0


From e54363ed3ea8fed18ebad166555aca484479469d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 23/72] fix: compute_fourier_basis does not depend on the unit
 of the edge weights

---
 pygsp/graphs/fourier.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygsp/graphs/fourier.py b/pygsp/graphs/fourier.py
index 1c7ded5..6a19e71 100644
--- a/pygsp/graphs/fourier.py
+++ b/pygsp/graphs/fourier.py
@@ -178,7 +178,8 @@ class FourierMixIn:
         # Smallest eigenvalue should be zero: correct numerical errors.
         # Eigensolver might sometimes return small negative values, which
         # filter's implementations may not anticipate. Better for plotting too.
-        assert -1e-5 < e[0] < 1e-5
+        bound = self._get_upper_bound()
+        assert -1e-5 * bound <= e[0] <= 1e-5 * bound
         e[0] = 0
 
         # we set the first eigenvector to have positive values:
@@ -186,7 +187,7 @@ class FourierMixIn:
             U[0, :] = -U[0, :]
 
         # Bounded spectrum.
-        assert e[-1] <= self._get_upper_bound() + 1e-5
+        assert e[-1] <= bound * (1 + 1e-5)
 
         assert np.max(e) == e[-1]
 
-- 
2.43.0


From df6061cbf55b9b83888b4dbb3274fb4498da8907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 24/72] fix: Graph does not remove the explicit zeros of the
 caller's CSR matrix

---
 pygsp/graphs/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index 0d7d377..4f1e703 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -125,7 +125,9 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
 
         # Don't keep edges of 0 weight. Otherwise n_edges will not correspond
         # to the real number of edges. Problematic when plotting.
-        self._adjacency.eliminate_zeros()
+        if not np.all(self._adjacency.data):
+            self._adjacency = self._adjacency.copy()
+            self._adjacency.eliminate_zeros()
 
         self._directed = None
         self._connected = None
-- 
2.43.0


From 7fd9484a8250f6cb1affdb26614c74ac859b348a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 25/72] fix: exporting a graph does not rename its signals

---
 pygsp/graphs/_io.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index e2b3223..ac65239 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -29,11 +29,14 @@ def _import_graphtool():
 class IOMixIn:
     def _break_signals(self):
         r"""Break N-dimensional signals into N 1D signals."""
-        for name in list(self.signals.keys()):
-            if self.signals[name].ndim == 2:
-                for i, signal_1d in enumerate(self.signals[name].T):
-                    self.signals[name + "_" + str(i)] = signal_1d
-                del self.signals[name]
+        broken = dict()
+        for name, signal in self.signals.items():
+            if signal.ndim == 2:
+                for i, signal_1d in enumerate(signal.T):
+                    broken[name + "_" + str(i)] = signal_1d
+            else:
+                broken[name] = signal
+        return broken
 
     def _join_signals(self):
         r"""Join N 1D signals into one N-dimensional signal."""
@@ -130,11 +133,11 @@ class IOMixIn:
             for vertex in range(self.n_vertices):
                 signals = {
                     name: convert(signal[vertex])
-                    for name, signal in self.signals.items()
+                    for name, signal in broken_signals.items()
                 }
                 yield vertex, signals
 
-        self._break_signals()
+        broken_signals = self._break_signals()
         graph = nx.DiGraph() if self.is_directed() else nx.Graph()
         graph.add_nodes_from(nodes())
         graph.add_edges_from(edges())
@@ -208,8 +211,7 @@ class IOMixIn:
         prop.get_array()[:] = weights
         graph.edge_properties["weight"] = prop
 
-        self._break_signals()
-        for name, signal in self.signals.items():
+        for name, signal in self._break_signals().items():
             prop = graph.new_vertex_property(gt._gt_type(signal.dtype))
             prop.get_array()[:] = signal
             graph.vertex_properties[name] = prop
-- 
2.43.0


From 07539f4108c4a15fceee523025a802b036279642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 26/72] fix: joining imported signals keeps column order and
 unrelated names apart

---
 pygsp/graphs/_io.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index ac65239..0ce409e 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -42,13 +42,13 @@ class IOMixIn:
         r"""Join N 1D signals into one N-dimensional signal."""
         joined = dict()
         for name in self.signals:
-            name_base = name.rsplit("_", 1)[0]
-            names = joined.get(name_base, list())
-            names.append(name)
-            joined[name_base] = names
+            name_base, _, dim = name.rpartition("_")
+            if dim.isdecimal():
+                joined.setdefault(name_base, dict())[int(dim)] = name
         for name_base, names in joined.items():
-            if len(names) > 1:
-                names = sorted(names)  # ensure dim ordering (_0, _1, etc.)
+            # Only join what was broken: dimensions _0, _1, etc., in order.
+            if len(names) > 1 and sorted(names) == list(range(len(names))):
+                names = [names[dim] for dim in range(len(names))]
                 signal_nd = np.stack([self.signals[n] for n in names], axis=1)
                 self.signals[name_base] = signal_nd
                 for name in names:
-- 
2.43.0


From 67e0c5e85319c2dc26ecf94e30f9bae773ab5509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 27/72] fix: compute_jackson_cheby_coeff leaves its arguments
 alone and raises ValueError

---
 pygsp/filters/approximations.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pygsp/filters/approximations.py b/pygsp/filters/approximations.py
index bb46dba..c5eeb63 100644
--- a/pygsp/filters/approximations.py
+++ b/pygsp/filters/approximations.py
@@ -187,19 +187,16 @@ def compute_jackson_cheby_coeff(filter_bounds, delta_lambda, m):
     """
     # Parameters check
     if delta_lambda[0] > filter_bounds[0] or delta_lambda[1] < filter_bounds[1]:
-        _logger.error("Bounds of the filter are out of the lambda values")
-        raise ()
+        raise ValueError("Bounds of the filter are out of the lambda values")
     elif delta_lambda[0] > delta_lambda[1]:
-        _logger.error("lambda_min is greater than lambda_max")
-        raise ()
+        raise ValueError("lambda_min is greater than lambda_max")
 
     # Scaling and translating to standard cheby interval
     a1 = (delta_lambda[1] - delta_lambda[0]) / 2
     a2 = (delta_lambda[1] + delta_lambda[0]) / 2
 
     # Scaling bounds of the band pass according to lrange
-    filter_bounds[0] = (filter_bounds[0] - a2) / a1
-    filter_bounds[1] = (filter_bounds[1] - a2) / a1
+    filter_bounds = [(bound - a2) / a1 for bound in filter_bounds]
 
     # First compute cheby coeffs
     ch = np.empty(m + 1, dtype=float)
-- 
2.43.0


From 015010162eb68857506025e06233afaecb659b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 28/72] fix: lanczos_op works on the filter banks of the
 package

---
 pygsp/filters/approximations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/filters/approximations.py b/pygsp/filters/approximations.py
index c5eeb63..5944960 100644
--- a/pygsp/filters/approximations.py
+++ b/pygsp/filters/approximations.py
@@ -241,7 +241,7 @@ def lanczos_op(f, s, order=30):
 
     """
     G = f.G
-    Nf = len(f.g)
+    Nf = f.Nf
 
     # To have the right shape for the output array depending on the signal dim
     try:
-- 
2.43.0


From 15df74decaf756aac829a5b661a6214549f01415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 29/72] fix: Wave repeats a single time or speed given as an
 array

---
 pygsp/filters/wave.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/filters/wave.py b/pygsp/filters/wave.py
index 04788d2..2ee391f 100644
--- a/pygsp/filters/wave.py
+++ b/pygsp/filters/wave.py
@@ -103,9 +103,9 @@ class Wave(Filter):
 
         if len(time) != len(speed):
             if len(speed) == 1:
-                speed = speed * len(time)
+                speed = [speed[0]] * len(time)
             elif len(time) == 1:
-                time = time * len(speed)
+                time = [time[0]] * len(speed)
             else:
                 raise ValueError(
                     "If both parameters are iterable, "
-- 
2.43.0


From 350c110a9fcc45d83498621ebba5646c13fbe181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 30/72] fix: SimpleTight accepts scales given as an array

---
 pygsp/filters/simpletight.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/filters/simpletight.py b/pygsp/filters/simpletight.py
index facc13b..a552b1a 100644
--- a/pygsp/filters/simpletight.py
+++ b/pygsp/filters/simpletight.py
@@ -82,7 +82,7 @@ class SimpleTight(Filter):
 
             return r
 
-        if not scales:
+        if scales is None:
             scales = 1.0 / (2.0 * G.lmax) * np.power(2, np.arange(Nf - 2, -1, -1))
         self.scales = scales
 
-- 
2.43.0


From 09ee48778987621acfb07a04eae61cb937cb27a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 31/72] fix: Abspline rejects a wrong number of scales like its
 siblings

---
 pygsp/filters/abspline.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygsp/filters/abspline.py b/pygsp/filters/abspline.py
index a5e5103..52c972c 100644
--- a/pygsp/filters/abspline.py
+++ b/pygsp/filters/abspline.py
@@ -90,6 +90,9 @@ class Abspline(Filter):
             scales = utils.compute_log_scales(lmin, G.lmax, Nf - 1)
         self.scales = scales
 
+        if len(scales) != Nf - 1:
+            raise ValueError("len(scales) should be Nf-1.")
+
         gb = lambda x: kernel_abspline3(x, 2, 2, 1, 2)
         gl = lambda x: np.exp(-np.power(x, 4))
 
-- 
2.43.0


From 5b8fd01d06489eab987f9fd88cd92bd914b860e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 32/72] fix: Modulation is a complete filter bank (shape,
 kernels, current basis)

---
 pygsp/filters/modulation.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pygsp/filters/modulation.py b/pygsp/filters/modulation.py
index 35b3a41..146d02a 100644
--- a/pygsp/filters/modulation.py
+++ b/pygsp/filters/modulation.py
@@ -124,8 +124,7 @@ class Modulation(Filter):
     """
 
     def __init__(self, graph, kernel, modulation_first=False):
-        self.G = graph
-        self._kernels = kernel
+        self._kernel = kernel
         self._modulation_first = modulation_first
 
         if kernel.n_filters != 1:
@@ -139,24 +138,25 @@ class Modulation(Filter):
                 "be the one used to build the mother kernel."
             )
 
-        self.n_features_in, self.n_features_out = (1, graph.n_vertices)
-        self.n_filters = self.n_features_in * self.n_features_out
-        self.Nf = self.n_filters  # TODO: kept for backward compatibility only.
+        kernels = []
+        for i in range(graph.n_vertices):
+            kernels.append(lambda x, i=i: self.evaluate(x)[i])
+
+        super().__init__(graph, kernels)
 
     def evaluate(self, x):
         """TODO: will become _evaluate once polynomial filtering is merged."""
 
-        if not hasattr(self, "_coefficients"):
-            # Graph Fourier transform -> modulation -> inverse GFT.
-            c = self.G.igft(self._kernels.evaluate(self.G.e).squeeze())
-            c = np.sqrt(self.G.n_vertices) * self.G.U * c[:, np.newaxis]
-            self._coefficients = self.G.gft(c)
+        # Graph Fourier transform -> modulation -> inverse GFT.
+        c = self.G.igft(self._kernel.evaluate(self.G.e).squeeze(axis=0))
+        c = np.sqrt(self.G.n_vertices) * self.G.U * c[:, np.newaxis]
+        coefficients = self.G.gft(c)
 
         shape = x.shape
         x = x.flatten()
         y = np.full((self.n_features_out, x.size), np.nan)
         for i in range(len(x)):
-            query = self._coefficients[x[i] == self.G.e]
+            query = coefficients[x[i] == self.G.e]
             if len(query) != 0:
                 y[:, i] = query[0]
         return y.reshape((self.n_features_out,) + shape)
@@ -172,6 +172,6 @@ class Modulation(Filter):
             # GFT, as for the localization and the IGFT.
             y = np.empty((self.G.n_vertices, self.G.n_vertices))
             for i in range(self.G.n_vertices):
-                x = s * self._kernels.localize(i)
+                x = s * self._kernel.localize(i)
                 y[i] = np.sqrt(self.G.n_vertices) * self.G.gft(x)
             return y
-- 
2.43.0


From 93fa9d78b41da6a66be7be82e3ac17ae4cd2cac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 33/72] fix: Modulation.filter rejects signals of the wrong
 length

---
 pygsp/filters/modulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsp/filters/modulation.py b/pygsp/filters/modulation.py
index 146d02a..80c8059 100644
--- a/pygsp/filters/modulation.py
+++ b/pygsp/filters/modulation.py
@@ -170,6 +170,7 @@ class Modulation(Filter):
         else:
             # The dot product with each modulated kernel is equivalent to the
             # GFT, as for the localization and the IGFT.
+            s = self.G._check_signal(s)
             y = np.empty((self.G.n_vertices, self.G.n_vertices))
             for i in range(self.G.n_vertices):
                 x = s * self._kernel.localize(i)
-- 
2.43.0


From ba1093fc82218ac1386bc4a7ff7e760b150e7d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 34/72] fix: compute_tig computes the frame of the requested
 filter with the given method

---
 pygsp/features.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/features.py b/pygsp/features.py
index f70f19f..5fb51ce 100644
--- a/pygsp/features.py
+++ b/pygsp/features.py
@@ -38,7 +38,8 @@ def compute_tig(g, **kwargs):
         Additional parameters to be passed to the
         :func:`pygsp.filters.Filter.filter` method.
     """
-    return g.compute_frame()
+    i = kwargs.pop("i", 0)
+    return g[i].compute_frame(**kwargs)
 
 
 @utils.filterbank_handler
-- 
2.43.0


From 7e043c98f00765e304b3be704675f20dfe0ca059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 35/72] fix: graph_sparsify does not use the removed
 scipy.stats.itemfreq

---
 pygsp/reduction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index d2ce01e..f85ff43 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -112,11 +112,11 @@ def graph_sparsify(M, epsilon, maxiter=10, seed=None):
         q = round(N * np.log(N) * 9 * C**2 / (epsilon**2))
 
         results = dist.rvs(size=int(q))
-        spin_counts = stats.itemfreq(results).astype(int)
+        spins, spin_counts = np.unique(results, return_counts=True)
         per_spin_weights = weights / (q * Pe)
 
         counts = np.zeros(np.shape(weights)[0])
-        counts[spin_counts[:, 0]] = spin_counts[:, 1]
+        counts[spins] = spin_counts
         new_weights = counts * per_spin_weights
 
         sparserW = sparse.csc_matrix(
-- 
2.43.0


From 95f81c69c7a4eabd45772d3ee5f4f843e233d195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 36/72] fix: graph_sparsify of a Laplacian returns a Laplacian

---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index f85ff43..3db3b47 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -123,7 +123,7 @@ def graph_sparsify(M, epsilon, maxiter=10, seed=None):
             (new_weights, (start_nodes, end_nodes)), shape=(N, N)
         )
         sparserW = sparserW + sparserW.T
-        sparserL = sparse.diags(sparserW.diagonal(), 0) - sparserW
+        sparserL = sparse.diags(np.ravel(sparserW.sum(axis=0)), 0) - sparserW
 
         if graphs.Graph(sparserW).is_connected():
             break
-- 
2.43.0


From 6970a5aa390210b9c1fe7b33ba64261f3ccda2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 37/72] fix: graph_multiresolution does not modify the Fourier
 basis of the graph

---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 3db3b47..8c72839 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -274,7 +274,7 @@ def graph_multiresolution(
             else:
                 V = linalg.eigs(Gs[i].L, 1)[1][:, 0]
 
-            V *= np.sign(V[0])
+            V = V if V[0] >= 0 else -V
             ind = np.nonzero(V >= 0)[0]
 
         else:
-- 
2.43.0


From e43c7f7d51c6b69ca5677bdf025975be1f158471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 38/72] fix: kron_reduction supports graphs without coordinates

---
 pygsp/reduction.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 8c72839..4179104 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -371,7 +371,10 @@ def kron_reduction(G, ind):
         # Removing diagonal for stability
         Wnew = Wnew - Wnew.diagonal()
 
-        coords = G.coords[ind, :] if len(G.coords.shape) else np.ndarray(None)
+        try:
+            coords = G.coords[ind]
+        except AttributeError:
+            coords = None
         Gnew = graphs.Graph(
             Wnew, coords=coords, lap_type=G.lap_type, plotting=G.plotting
         )
-- 
2.43.0


From f3bfc2bc12251c6441d6e5932a4ddbb59e313366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 39/72] fix: kron_reduction removes the diagonal and keeps the
 weights sparse

---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 4179104..d2520ec 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -369,7 +369,7 @@ def kron_reduction(G, ind):
             Wnew = Wnew + sparse.diags(Snew, 0)
 
         # Removing diagonal for stability
-        Wnew = Wnew - Wnew.diagonal()
+        Wnew = Wnew - sparse.diags(Wnew.diagonal(), 0)
 
         try:
             coords = G.coords[ind]
-- 
2.43.0


From e3ac1974e51e56a7db3abd1d0d9b4deeaa151d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 40/72] fix: pyramid_analysis computes one prediction error per
 vertex of a 1D signal

---
 pygsp/reduction.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index d2520ec..5440418 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -417,6 +417,10 @@ def pyramid_analysis(Gs, f, **kwargs):
             "PYRAMID ANALYSIS: The signal to analyze should have the same dimension as the first graph."
         )
 
+    f = np.asanyarray(f)
+    if f.ndim == 1:
+        f = f[:, np.newaxis]  # As the coefficients of the coarser levels.
+
     levels = len(Gs) - 1
 
     # check if the type of filters is right.
-- 
2.43.0


From 07a84a5fb8037b7ac83d0dc059884be0faecccc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 41/72] fix: pyramid_synthesis raises on missing h-filters and
 inconsistent levels

---
 pygsp/reduction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 5440418..fd64658 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -499,11 +499,11 @@ def pyramid_synthesis(Gs, cap, pe, order=30, **kwargs):
     reg_eps = float(kwargs.get("reg_eps", 0.005))
 
     if least_squares and "h_filters" not in kwargs:
-        ValueError("h-filters not provided.")
+        raise ValueError("h-filters not provided.")
 
     levels = len(Gs) - 1
     if len(pe) != levels:
-        ValueError("Gs and pe have different shapes.")
+        raise ValueError("Gs and pe have different shapes.")
 
     ca = [cap]
 
-- 
2.43.0


From 953b7f987cc10e3881c80970c28c5a996a70e343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 42/72] fix: regression_tikhonov warns when the conjugate
 gradient does not converge

---
 pygsp/learning.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pygsp/learning.py b/pygsp/learning.py
index f45407c..bf8f01a 100644
--- a/pygsp/learning.py
+++ b/pygsp/learning.py
@@ -19,6 +19,10 @@ be inferred.
 import numpy as np
 from scipy import sparse
 
+from pygsp import utils
+
+_logger = utils.build_logger(__name__)
+
 
 def _import_pyunlocbox():
     try:
@@ -336,7 +340,8 @@ def regression_tikhonov(G, y, M, tau=0):
             else:
                 sol, res = sparse.linalg.cg(LinearOp, y)
 
-            # TODO: do something with the residual...
+            if np.any(res):
+                _logger.warning("The conjugate gradient did not converge.")
             return sol
 
         else:
-- 
2.43.0


From 0b67a34cf29844b12e46978119dfec080f7d1286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 43/72] fix: graph_multiresolution keeps the largest eigenvalue
 the graph already knows

---
 pygsp/reduction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index fd64658..73a14a6 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -261,7 +261,8 @@ def graph_multiresolution(
 
     if compute_full_eigen:
         G.compute_fourier_basis()
-    else:
+    elif G._lmax is None:
+        # Don't replace what is already known about the given graph.
         G.estimate_lmax()
 
     Gs = [G]
-- 
2.43.0


From 4ccfe6ad6c0e8fbee7692b65f139cde68c4fb0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 44/72] fix: regression_tikhonov does not truncate its solution
 to the type of integer labels

---
 pygsp/learning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/learning.py b/pygsp/learning.py
index bf8f01a..dc86443 100644
--- a/pygsp/learning.py
+++ b/pygsp/learning.py
@@ -366,7 +366,8 @@ def regression_tikhonov(G, y, M, tau=0):
         else:
             sol_part = np.linalg.solve(Luu, np.matmul(Wul, y[indl]))
 
-        sol = y.copy()
+        # The solution is real even if the known labels are integers.
+        sol = y.astype(np.result_type(y, sol_part))
         sol[indu] = sol_part
 
         return sol
-- 
2.43.0


From 91d11817061de58ec1a2821eaffd1fbce6903173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 45/72] fix: graph_multiresolution does not change the given
 graph when it fails

---
 pygsp/reduction.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 73a14a6..e65264a 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -266,7 +266,7 @@ def graph_multiresolution(
         G.estimate_lmax()
 
     Gs = [G]
-    Gs[0].mr = {"idx": np.arange(G.N), "orig_idx": np.arange(G.N)}
+    mr = [{"idx": np.arange(G.N), "orig_idx": np.arange(G.N)}]
 
     for i in range(levels):
         if downsampling_method == "largest_eigenvector":
@@ -298,11 +298,15 @@ def graph_multiresolution(
         else:
             Gs[i + 1].estimate_lmax()
 
-        Gs[i + 1].mr = {"idx": ind, "orig_idx": Gs[i].mr["orig_idx"][ind], "level": i}
+        mr.append({"idx": ind, "orig_idx": mr[i]["orig_idx"][ind], "level": i})
 
         L_reg = Gs[i].L + reg_eps * sparse.eye(Gs[i].N)
-        Gs[i].mr["K_reg"] = kron_reduction(L_reg, ind)
-        Gs[i].mr["green_kernel"] = filters.Filter(Gs[i], lambda x: 1.0 / (reg_eps + x))
+        mr[i]["K_reg"] = kron_reduction(L_reg, ind)
+        mr[i]["green_kernel"] = filters.Filter(Gs[i], lambda x: 1.0 / (reg_eps + x))
+
+    # Attach the results once everything succeeded.
+    for graph, info in zip(Gs, mr):
+        graph.mr = info
 
     return Gs
 
-- 
2.43.0


From f2d9578c29a2d5f7c5d9bdc508258f4a62588086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 46/72] fix: Gabor and Modulation reject unknown filtering
 methods

---
 pygsp/filters/gabor.py      | 2 ++
 pygsp/filters/modulation.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pygsp/filters/gabor.py b/pygsp/filters/gabor.py
index 56fb2d3..cd140bb 100644
--- a/pygsp/filters/gabor.py
+++ b/pygsp/filters/gabor.py
@@ -89,4 +89,6 @@ class Gabor(Filter):
 
     def filter(self, s, method="exact", order=None):
         """TODO: indirection will be removed when poly filtering is merged."""
+        if method not in ("exact", "chebyshev"):
+            raise ValueError(f"Unknown method {method}.")
         return super().filter(s, method="exact")
diff --git a/pygsp/filters/modulation.py b/pygsp/filters/modulation.py
index 80c8059..fa53a6f 100644
--- a/pygsp/filters/modulation.py
+++ b/pygsp/filters/modulation.py
@@ -165,6 +165,8 @@ class Modulation(Filter):
         """TODO: indirection will be removed when poly filtering is merged.
         TODO: with _filter and shape handled in Filter.filter, synthesis will work.
         """
+        if method not in ("exact", "chebyshev"):
+            raise ValueError(f"Unknown method {method}.")
         if self._modulation_first:
             return super().filter(s, method="exact")
         else:
-- 
2.43.0


From 2d2e9ac5cca2a297ce88cfcddf7c61fb3979ab9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 47/72] fix: graph_multiresolution rejects unknown methods even
 with no level to compute

---
 pygsp/reduction.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index e65264a..648f1a2 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -256,6 +256,11 @@ def graph_multiresolution(
     ...     fig, ax = Gs[idx].plot(title='Reduction level: {}'.format(idx))
 
     """
+    if downsampling_method != "largest_eigenvector":
+        raise NotImplementedError("Unknown graph downsampling method.")
+    if reduction_method != "kron":
+        raise NotImplementedError("Unknown graph reduction method.")
+
     if sparsify_eps is None:
         sparsify_eps = min(10.0 / np.sqrt(G.N), 0.3)
 
@@ -269,23 +274,15 @@ def graph_multiresolution(
     mr = [{"idx": np.arange(G.N), "orig_idx": np.arange(G.N)}]
 
     for i in range(levels):
-        if downsampling_method == "largest_eigenvector":
-            if Gs[i]._U is not None:
-                V = Gs[i].U[:, -1]
-            else:
-                V = linalg.eigs(Gs[i].L, 1)[1][:, 0]
-
-            V = V if V[0] >= 0 else -V
-            ind = np.nonzero(V >= 0)[0]
-
+        if Gs[i]._U is not None:
+            V = Gs[i].U[:, -1]
         else:
-            raise NotImplementedError("Unknown graph downsampling method.")
+            V = linalg.eigs(Gs[i].L, 1)[1][:, 0]
 
-        if reduction_method == "kron":
-            Gs.append(kron_reduction(Gs[i], ind))
+        V = V if V[0] >= 0 else -V
+        ind = np.nonzero(V >= 0)[0]
 
-        else:
-            raise NotImplementedError("Unknown graph reduction method.")
+        Gs.append(kron_reduction(Gs[i], ind))
 
         if sparsify and Gs[i + 1].N > 2:
             Gs[i + 1] = graph_sparsify(
-- 
2.43.0


From 6ee5bdf91e4a52eba249a63b054abd01e366bbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:03 +0000
Subject: [PATCH 48/72] fix: pyramid_synthesis takes the options it documents

---
 pygsp/reduction.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 648f1a2..a4ca30c 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -498,9 +498,14 @@ def pyramid_synthesis(Gs, cap, pe, order=30, **kwargs):
     least_squares = bool(kwargs.pop("least_squares", False))
     def_ul = Gs[0].N > 3000 or Gs[0]._e is None or Gs[0]._U is None
     use_landweber = bool(kwargs.pop("use_landweber", def_ul))
-    reg_eps = float(kwargs.get("reg_eps", 0.005))
+    landweber_its = kwargs.pop("landweber_its", 50)
+    landweber_tau = kwargs.pop("landweber_tau", 1.0)
+    reg_eps = float(kwargs.pop("reg_eps", 0.005))
+    h_filters = kwargs.pop("h_filters", None)
+    if kwargs.pop("use_exact", False):
+        kwargs["method"] = "exact"
 
-    if least_squares and "h_filters" not in kwargs:
+    if least_squares and h_filters is None:
         raise ValueError("h-filters not provided.")
 
     levels = len(Gs) - 1
@@ -528,8 +533,12 @@ def pyramid_synthesis(Gs, cap, pe, order=30, **kwargs):
                     Gs[levels - i - 1],
                     ca[i],
                     pe[levels - i - 1],
+                    Gs[levels - i].mr["idx"],
                     h_filters[levels - i - 1],
                     use_landweber=use_landweber,
+                    landweber_its=landweber_its,
+                    landweber_tau=landweber_tau,
+                    reg_eps=reg_eps,
                     **kwargs,
                 )
             )
-- 
2.43.0


From b43ccf7b8b2034b7752febbf764998d124a3554f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:30 +0000
Subject: [PATCH 49/72] fix: partial Fourier bases and eigenmap layouts are
 reproducible

---
 pygsp/graphs/fourier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/fourier.py b/pygsp/graphs/fourier.py
index 6a19e71..b5e3843 100644
--- a/pygsp/graphs/fourier.py
+++ b/pygsp/graphs/fourier.py
@@ -172,7 +172,9 @@ class FourierMixIn:
             e, U = linalg.eigh(self.L.toarray(order="F"), overwrite_a=True)
         else:
             # fast partial eigendecomposition of hermitian matrices
-            e, U = sparse.linalg.eigsh(self.L, n_eigenvectors, which="SM")
+            # The starting vector is fixed for the result to be reproducible.
+            v0 = np.random.default_rng(0).uniform(size=self.n_vertices)
+            e, U = sparse.linalg.eigsh(self.L, n_eigenvectors, which="SM", v0=v0)
         # Columns are eigenvectors. Sorted in ascending eigenvalue order.
 
         # Smallest eigenvalue should be zero: correct numerical errors.
-- 
2.43.0


From eacc226def2a2d9b07fceba8dc1223ac400d942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:00 +0000
Subject: [PATCH 50/72] fix: graph_sparsify does not draw from the global
 generator

---
 pygsp/reduction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index a4ca30c..4ea92d8 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -101,6 +101,9 @@ def graph_sparsify(M, epsilon, maxiter=10, seed=None):
     Re = np.maximum(0, resistance_distances[start_nodes, end_nodes])
     Pe = weights * Re
     Pe = Pe / np.sum(Pe)
+    if seed is None:
+        # SciPy would use the global generator of NumPy.
+        seed = np.random.default_rng()
     dist = stats.rv_discrete(values=(np.arange(len(Pe)), Pe), seed=seed)
 
     for i in range(maxiter):
-- 
2.43.0


From 88b8fa8929c77e3820b8775836ad7600197c6c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:17 +0000
Subject: [PATCH 51/72] fix: Held, Papadakis and Simoncelli kernels are defined
 at negative frequencies

---
 pygsp/filters/held.py       | 2 +-
 pygsp/filters/papadakis.py  | 2 +-
 pygsp/filters/simoncelli.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygsp/filters/held.py b/pygsp/filters/held.py
index 7c318b8..4d626fa 100644
--- a/pygsp/filters/held.py
+++ b/pygsp/filters/held.py
@@ -51,7 +51,7 @@ class Held(Filter):
             l1 = a
             l2 = 2 * a
 
-            r1ind = (x >= 0) * (x < l1)
+            r1ind = x < l1
             r2ind = (x >= l1) * (x < l2)
             r3ind = x >= l2
 
diff --git a/pygsp/filters/papadakis.py b/pygsp/filters/papadakis.py
index db6388e..f2f5985 100644
--- a/pygsp/filters/papadakis.py
+++ b/pygsp/filters/papadakis.py
@@ -47,7 +47,7 @@ class Papadakis(Filter):
             l1 = a
             l2 = a * 5 / 3
 
-            r1ind = (x >= 0) * (x < l1)
+            r1ind = x < l1
             r2ind = (x >= l1) * (x < l2)
             r3ind = x >= l2
 
diff --git a/pygsp/filters/simoncelli.py b/pygsp/filters/simoncelli.py
index 187305d..07452e9 100644
--- a/pygsp/filters/simoncelli.py
+++ b/pygsp/filters/simoncelli.py
@@ -47,7 +47,7 @@ class Simoncelli(Filter):
             l1 = a
             l2 = 2 * a
 
-            r1ind = (x >= 0) * (x < l1)
+            r1ind = x < l1
             r2ind = (x >= l1) * (x < l2)
             r3ind = x >= l2
 
-- 
2.43.0


From 3e63fe17f4657623c9a1c4f6465ab3b10ffebe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:10 +0000
Subject: [PATCH 52/72] fix: RandomRegular does not allocate a dense adjacency
 matrix

---
 pygsp/graphs/randomregular.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/graphs/randomregular.py b/pygsp/graphs/randomregular.py
index 958084e..fdc9ead 100644
--- a/pygsp/graphs/randomregular.py
+++ b/pygsp/graphs/randomregular.py
@@ -63,7 +63,7 @@ class RandomRegular(Graph):
         U = np.kron(np.ones(k), np.arange(N)).astype(int)
 
         # the graphs adjacency matrix
-        A = sparse.lil_matrix(np.zeros((N, N)))
+        A = sparse.lil_matrix((N, N))
 
         edgesTested = 0
         repetition = 1
@@ -90,7 +90,7 @@ class RandomRegular(Graph):
                     repetition = repetition + 1
                     edgesTested = 0
                     U = np.kron(np.ones(k), np.arange(N)).astype(int)
-                    A = sparse.lil_matrix(np.zeros((N, N)))
+                    A = sparse.lil_matrix((N, N))
             else:
                 # add edge to graph
                 A[v1, v2] = 1
-- 
2.43.0


From ccaa530308f412444b5974591618c373063ef95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:13 +0000
Subject: [PATCH 53/72] fix: graph_sparsify keeps the coordinates and plotting
 options of the graph

---
 pygsp/reduction.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 4ea92d8..6b17b56 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -142,8 +142,13 @@ def graph_sparsify(M, epsilon, maxiter=10, seed=None):
         if not M.is_directed():
             sparserW = (sparserW + sparserW.T) / 2.0
 
-        Mnew = graphs.Graph(sparserW)
-        # M.copy_graph_attributes(Mnew)
+        try:
+            coords = M.coords
+        except AttributeError:
+            coords = None
+        Mnew = graphs.Graph(
+            sparserW, lap_type=M.lap_type, coords=coords, plotting=M.plotting
+        )
     else:
         Mnew = sparse.lil_matrix(sparserL)
 
-- 
2.43.0


From d58e0ff20cdd2bf027437e68fc4689b5fc1d4b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:25 +0000
Subject: [PATCH 54/72] fix: symmetrize averages boolean and small integer
 matrices correctly

---
 pygsp/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/utils.py b/pygsp/utils.py
index c286f33..b123376 100644
--- a/pygsp/utils.py
+++ b/pygsp/utils.py
@@ -245,7 +245,8 @@ def symmetrize(W, method="average"):
         raise ValueError("Matrix must be square.")
 
     if method == "average":
-        return (W + W.T) / 2
+        # Halve first: the sum of boolean or small integers can overflow.
+        return W / 2 + W.T / 2
 
     elif method == "maximum":
         if sparse.issparse(W):
-- 
2.43.0


From 0b2b397fdc35b644d5328ec3416fdb5020ec99db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:25 +0000
Subject: [PATCH 55/72] fix: distanz gives the same distances for boolean and
 small integer points

---
 pygsp/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygsp/utils.py b/pygsp/utils.py
index b123376..063a436 100644
--- a/pygsp/utils.py
+++ b/pygsp/utils.py
@@ -107,6 +107,8 @@ def distanz(x, y=None):
            [2., 1., 0.]])
 
     """
+    x = np.asanyarray(x, dtype=float)  # The products of integers can overflow.
+
     try:
         x.shape[1]
     except IndexError:
@@ -116,6 +118,7 @@ def distanz(x, y=None):
         y = x
 
     else:
+        y = np.asanyarray(y, dtype=float)
         try:
             y.shape[1]
         except IndexError:
-- 
2.43.0


From 5826b113cbb4a7d3d1f398c5420c6d3a1a876b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:25 +0000
Subject: [PATCH 56/72] fix: LineGraph averages small integer coordinates
 without overflow

---
 pygsp/graphs/linegraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/linegraph.py b/pygsp/graphs/linegraph.py
index 210302b..95257e0 100644
--- a/pygsp/graphs/linegraph.py
+++ b/pygsp/graphs/linegraph.py
@@ -46,7 +46,7 @@ class LineGraph(Graph):
         adjacency -= sparse.identity(graph.n_edges, dtype=int)
 
         try:
-            coords = incidence.T.dot(graph.coords) / 2
+            coords = incidence.T.dot(graph.coords / 2)
         except AttributeError:
             coords = None
 
-- 
2.43.0


From 22caaf2e6531d42d3562ba2251935ee347def838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:25 +0000
Subject: [PATCH 57/72] fix: the differential operator of small integer weights
 has full precision

---
 pygsp/graphs/difference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/difference.py b/pygsp/graphs/difference.py
index 23cef80..2649af2 100644
--- a/pygsp/graphs/difference.py
+++ b/pygsp/graphs/difference.py
@@ -149,7 +149,7 @@ class DifferenceMixIn:
         values = np.empty(2 * n)
 
         if self.lap_type == "combinatorial":
-            values[:n] = -np.sqrt(weights)
+            values[:n] = -np.sqrt(weights, dtype=float)
             values[n:] = -values[:n]
         elif self.lap_type == "normalized":
             values[:n] = -np.sqrt(weights / self.dw[sources])
-- 
2.43.0


From c377aa73fde08e6f0fd2f576272b960a1facce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:25 +0000
Subject: [PATCH 58/72] fix: NNGraph accepts boolean and small integer points
 without centering

---
 pygsp/graphs/nngraphs/nngraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/nngraphs/nngraph.py b/pygsp/graphs/nngraphs/nngraph.py
index 12eb7ea..903d911 100644
--- a/pygsp/graphs/nngraphs/nngraph.py
+++ b/pygsp/graphs/nngraphs/nngraph.py
@@ -118,7 +118,7 @@ class NNGraph(Graph):
         self.order = order
 
         N, d = np.shape(self.Xin)
-        Xout = self.Xin
+        Xout = np.asanyarray(self.Xin, dtype=float)
 
         if k >= N:
             raise ValueError(
-- 
2.43.0


From fe4c6c14f7d6410f60aa460e31cac94b3c6564c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:25 +0000
Subject: [PATCH 59/72] fix: spring layout does not hide unexpected errors

---
 pygsp/graphs/_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/_layout.py b/pygsp/graphs/_layout.py
index 728da55..e645ed7 100644
--- a/pygsp/graphs/_layout.py
+++ b/pygsp/graphs/_layout.py
@@ -176,7 +176,7 @@ def _sparse_fruchterman_reingold(A, dim, k, pos, fixed, iterations, seed):
     # make sure we have a LIst of Lists representation
     try:
         A = A.tolil()
-    except Exception:
+    except AttributeError:
         A = (sparse.coo_matrix(A)).tolil()
 
     if pos is None:
-- 
2.43.0


From f0ea85182b4684d7697abcb38c0e8433d0cd9c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:25 +0000
Subject: [PATCH 60/72] fix: spring layout raises when the center has the wrong
 size

---
 pygsp/graphs/_layout.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pygsp/graphs/_layout.py b/pygsp/graphs/_layout.py
index e645ed7..8228e2e 100644
--- a/pygsp/graphs/_layout.py
+++ b/pygsp/graphs/_layout.py
@@ -140,8 +140,7 @@ class LayoutMixIn:
             center = np.zeros((1, dim))
 
         if np.shape(center)[1] != dim:
-            self.logger.error("Spring coordinates: center has wrong size.")
-            center = np.zeros((1, dim))
+            raise ValueError("Spring coordinates: center has wrong size.")
 
         if pos is None:
             dom_size = 1
-- 
2.43.0


From 76fbb4eed1830302a7b711f6704c0164a3ec3ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:25 +0000
Subject: [PATCH 61/72] fix: extract_components raises on an inconsistent shape

---
 pygsp/graphs/graph.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index 4f1e703..547cef9 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -469,10 +469,9 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
 
         """
         if self.A.shape[0] != self.A.shape[1]:
-            self.logger.error(
+            raise ValueError(
                 "Inconsistent shape to extract components. " "Square matrix required."
             )
-            return None
 
         if self.is_directed():
             raise NotImplementedError("Directed graphs not supported yet.")
-- 
2.43.0


From 6711cc73338f9e4693885f66bc199c240ebe607a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:25 +0000
Subject: [PATCH 62/72] fix: pyramid_analysis raises when the filters are not
 functions

---
 pygsp/reduction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 6b17b56..33d414c 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -436,12 +436,12 @@ def pyramid_analysis(Gs, f, **kwargs):
     # check if the type of filters is right.
     h_filters = kwargs.pop("h_filters", lambda x: 1.0 / (2 * x + 1))
 
-    if not isinstance(h_filters, list):
+    if not isinstance(h_filters, (list, tuple)):
         if hasattr(h_filters, "__call__"):
             logger.warning("Converting filters into a list.")
             h_filters = [h_filters]
         else:
-            logger.error("Filters must be a list of functions.")
+            raise TypeError("Filters must be a list of functions.")
 
     if len(h_filters) == 1:
         h_filters = h_filters * levels
-- 
2.43.0


From c2c66cc1bcf4320072f1034186bc4db715e874df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:52 +0000
Subject: [PATCH 63/72] fix: symmetrize by a triangle keeps negative entries

---
 pygsp/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/utils.py b/pygsp/utils.py
index 063a436..095a8ca 100644
--- a/pygsp/utils.py
+++ b/pygsp/utils.py
@@ -274,8 +274,8 @@ def symmetrize(W, method="average"):
             tri = getattr(sparse, method)
         else:
             tri = getattr(np, method)
-        W = tri(W)
-        return symmetrize(W, method="maximum")
+        # Mirror the triangle without its diagonal.
+        return tri(W) + tri(W, k=-1 if method == "tril" else 1).T
 
     else:
         raise ValueError(f"Unknown symmetrization method {method}.")
-- 
2.43.0


From d9e0b7de37afdd4594aebf4dbb2c92c198c8c61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:53 +0000
Subject: [PATCH 64/72] fix: symmetrize by filling in the zeros handles
 negative entries

---
 pygsp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/utils.py b/pygsp/utils.py
index 095a8ca..91534a8 100644
--- a/pygsp/utils.py
+++ b/pygsp/utils.py
@@ -259,7 +259,7 @@ def symmetrize(W, method="average"):
             return np.maximum(W, W.T)
 
     elif method == "fill":
-        A = W > 0  # Boolean type.
+        A = W != 0  # Boolean type.
         if sparse.issparse(W):
             mask = (A + A.T) - A
             W = W + mask.multiply(W.T)
-- 
2.43.0


From 689957df31b3d13410629e973623acd2491c7245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:49 +0000
Subject: [PATCH 65/72] fix: the graph-tool export keeps isolated vertices

---
 pygsp/graphs/_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index 0ce409e..8219a1d 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -204,6 +204,8 @@ class IOMixIn:
 
         gt = _import_graphtool()
         graph = gt.Graph(directed=self.is_directed())
+        # Vertices without edges would be missing otherwise.
+        graph.add_vertex(self.n_vertices)
 
         sources, targets, weights = self.get_edge_list()
         graph.add_edge_list(zip(sources, targets))
-- 
2.43.0


From 9380c7d02e35c5cf896ddc8007c623801ec1cd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:09 +0000
Subject: [PATCH 66/72] fix: plot adds the colorbar to the figure of the given
 axis

---
 pygsp/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index 31c84a8..490cf1b 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -570,7 +570,7 @@ def _plt_plot_graph(
     limits,
     ax,
 ):
-    mpl, plt, mplot3d = _import_plt()
+    mpl, _, mplot3d = _import_plt()
 
     if edges and (G.coords.ndim != 1):  # No edges for 1D plots.
         sources, targets, _ = G.get_edge_list()
@@ -640,7 +640,7 @@ def _plt_plot_graph(
                 pass
 
     if G.coords.ndim != 1 and colorbar:
-        plt.colorbar(sc, ax=ax)
+        ax.figure.colorbar(sc, ax=ax)
 
     if indices:
         for node in range(G.N):
-- 
2.43.0


From feacde9e741ff5bd408c967bda2e1d4610656623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:42 +0000
Subject: [PATCH 67/72] fix: plot_spectrogram imports pyqtgraph

---
 pygsp/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index 490cf1b..ee8bc5f 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -740,7 +740,7 @@ def _plot_spectrogram(G, node_idx):
     """
     from pygsp import features
 
-    qtg, _, _ = _import_qtg()
+    qtg, _, _, _ = _import_qtg()
 
     if not hasattr(G, "spectr"):
         features.compute_spectrogram(G)
-- 
2.43.0


From 50cd9616b61a4216406126170c9a92b48c5fea65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:24 +0000
Subject: [PATCH 68/72] fix: kron_reduction has no absolute tolerance

---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 33d414c..6abf3f5 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -375,7 +375,7 @@ def kron_reduction(G, ind):
         # Suppress the diagonal ? This is a good question?
         Wnew = sparse.diags(Lnew.diagonal(), 0) - Lnew
         Snew = Lnew.diagonal() - np.ravel(Wnew.sum(0))
-        if np.linalg.norm(Snew, 2) >= np.spacing(1000):
+        if np.linalg.norm(Snew, 2) >= np.spacing(1000) * np.linalg.norm(Lnew.diagonal()):
             Wnew = Wnew + sparse.diags(Snew, 0)
 
         # Removing diagonal for stability
-- 
2.43.0


From 37d4154aa01d0d1b0c250e10d000d5b3e62d7f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:45 +0000
Subject: [PATCH 69/72] fix: graph_sparsify has no absolute threshold

---
 pygsp/reduction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 6abf3f5..7768c97 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -87,10 +87,10 @@ def graph_sparsify(M, epsilon, maxiter=10, seed=None):
         W = M.W
     else:
         W = np.diag(L.diagonal()) - L.toarray()
-        W[W < 1e-10] = 0
+        W[W < 1e-10 * W.max()] = 0
 
     W = sparse.coo_matrix(W)
-    W.data[W.data < 1e-10] = 0
+    W.data[W.data < 1e-10 * np.max(W.data, initial=0)] = 0
     W = W.tocsc()
     W.eliminate_zeros()
 
-- 
2.43.0


From 45038df5d7c8edec31464db7542d499403829213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:46 +0000
Subject: [PATCH 70/72] fix: TwoMoons and NNGraph document their defaults and
 the scope of their options

---
 pygsp/graphs/nngraphs/nngraph.py  | 2 +-
 pygsp/graphs/nngraphs/twomoons.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pygsp/graphs/nngraphs/nngraph.py b/pygsp/graphs/nngraphs/nngraph.py
index 903d911..c63ac93 100644
--- a/pygsp/graphs/nngraphs/nngraph.py
+++ b/pygsp/graphs/nngraphs/nngraph.py
@@ -51,7 +51,7 @@ class NNGraph(Graph):
         is 'knn').
     use_flann : bool, optional
         Use Fast Library for Approximate Nearest Neighbors (FLANN) or not.
-        (default is False)
+        (default is False). Only used if NNtype is 'knn'.
     center : bool, optional
         Center the data so that it has zero mean (default is True)
     rescale : bool, optional
diff --git a/pygsp/graphs/nngraphs/twomoons.py b/pygsp/graphs/nngraphs/twomoons.py
index ecb8691..bfb1387 100644
--- a/pygsp/graphs/nngraphs/twomoons.py
+++ b/pygsp/graphs/nngraphs/twomoons.py
@@ -21,17 +21,18 @@ class TwoMoons(NNGraph):
         The dimensionality of the points (default = 2).
         Only valid for moontype == 'standard'.
     N : int
-        Number of vertices (default = 2000)
+        Number of vertices (default = 400)
         Only valid for moontype == 'synthesized'.
     sigmad : float
         Variance of the data (do not set it too high or you won't see anything)
-        (default = 0.05)
+        (default = 0.07)
         Only valid for moontype == 'synthesized'.
     distance : float
         Distance between the two moons (default = 0.5)
         Only valid for moontype == 'synthesized'.
     seed : int
         Seed for the random number generator (for reproducible graphs).
+        Only valid for moontype == 'synthesized'.
 
     Examples
     --------
-- 
2.43.0


From 987eecc5ba12e3ef662e15c3d28240f21113faa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:09 +0000
Subject: [PATCH 71/72] fix: pyramid_synthesis does not pass filtering options
 to the filter bank

The exact least-squares synthesis with Landweber iterations failed as Filter
takes no such options.
---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 7768c97..66d12fa 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -604,7 +604,7 @@ def _pyramid_single_interpolation(G, ca, pe, keep_inds, h_filter, **kwargs):
         z = np.concatenate((ca, pe), axis=0)
         green_kernel = filters.Filter(G, lambda x: 1.0 / (x + reg_eps))
         PhiVlt = _analysis(green_kernel, S.T, **kwargs).T
-        filt = filters.Filter(G, h_filter, **kwargs)
+        filt = filters.Filter(G, h_filter)
 
         for iteration in range(landweber_its):
             h_filtered_sig = _analysis(filt, x, **kwargs)
-- 
2.43.0


From f208059bab78d9c0a3bec27ec826d201e7d6af5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:48 +0000
Subject: [PATCH 72/72] fix: a root or quadrature order of zero is not replaced
 by a default

---
 pygsp/filters/approximations.py | 2 +-
 pygsp/reduction.py              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/filters/approximations.py b/pygsp/filters/approximations.py
index 5944960..eee0d96 100644
--- a/pygsp/filters/approximations.py
+++ b/pygsp/filters/approximations.py
@@ -34,7 +34,7 @@ def compute_cheby_coeff(f, m=30, N=None, *args, **kwargs):
     G = f.G
     i = kwargs.pop("i", 0)
 
-    if not N:
+    if N is None:
         N = m + 1
 
     a_arange = [0, G.lmax]
diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 66d12fa..ed52044 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -716,7 +716,7 @@ def tree_multiresolution(
 
     """
 
-    if not root:
+    if root is None:
         if hasattr(G, "root"):
             root = G.root
         else:
-- 
2.43.0

