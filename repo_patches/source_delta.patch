From a6f0621c95ec8a8f3664217ea76af0f214dc00a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:23 +0000
Subject: [PATCH 01/69] fix: cell_size ignores the origin for vectors with only
 negative components

---
 lattpy/spatial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index da3f52e..2dd179f 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -236,6 +236,7 @@ def cell_size(vectors: ArrayLike) -> np.ndarray:
     """
     max_values = np.max(vectors, axis=0)
     min_values = np.min(vectors, axis=0)
+    max_values[max_values < 0] = 0
     min_values[min_values > 0] = 0
     return max_values - min_values
 
-- 
2.43.0


From d497ee04020ce61d4627659c11f346dffd0e95eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:23 +0000
Subject: [PATCH 02/69] fix: reciprocal_lattice and brillouin_zone pass
 min_negative as the tolerance of reciprocal_vectors

---
 lattpy/basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index 158ee6a..2524649 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -480,7 +480,7 @@ class LatticeBasis:
         [[6.28318531 0.        ]
          [0.         6.28318531]]
         """
-        rvecs = self.reciprocal_vectors(min_negative)
+        rvecs = self.reciprocal_vectors()
         rlatt = self.__class__(rvecs)
         return rlatt
 
@@ -569,7 +569,7 @@ class LatticeBasis:
         ws_cell : WignerSeitzCell
             The Wigner-Seitz cell of the reciprocal lattice.
         """
-        rvecs = self.reciprocal_vectors(min_negative)
+        rvecs = self.reciprocal_vectors()
         rlatt = self.__class__(rvecs)
         return rlatt.wigner_seitz_cell()
 
-- 
2.43.0


From c3b3c6150913b260842207e45d17e8da71fe0895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:23 +0000
Subject: [PATCH 03/69] fix: build_translation_vectors misses corners of boxes
 that do not start at the origin

---
 lattpy/structure.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 62c1b9f..c471f03 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1045,8 +1045,7 @@ class LatticeStructure(LatticeBasis):
 
         if primitive:
             shape = np.array(shape) * np.max(self.vectors, axis=0) - 0.1 * self.norms
-        if pos is None:
-            pos = np.zeros(self.dim)
+        pos = np.zeros(self.dim) if pos is None else np.atleast_1d(pos)
         end = pos + shape
 
         # Estimate the maximum needed translation vector to reach all points
@@ -1056,7 +1055,7 @@ class LatticeStructure(LatticeBasis):
         for i in range(1, self.dim):
             for idx in itertools.combinations(range(self.dim), r=i):
                 _pos = end.copy()
-                _pos[np.array(idx)] = 0
+                _pos[np.array(idx)] = pos[np.array(idx)]
                 index = self.itranslate(_pos)[0]
                 max_nvecs[0] = np.min([index, max_nvecs[0]], axis=0)
                 max_nvecs[1] = np.max([index, max_nvecs[1]], axis=0)
-- 
2.43.0


From 6568cace269a79332e291cdbcc84573c5848660e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:35 +0000
Subject: [PATCH 04/69] fix: build loses sites on the border of the shape to
 floating point errors

---
 lattpy/structure.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index c471f03..327f417 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1049,14 +1049,14 @@ class LatticeStructure(LatticeBasis):
         end = pos + shape
 
         # Estimate the maximum needed translation vector to reach all points
-        max_nvecs = np.array(
-            [self.itranslate(pos)[0], self.itranslate(end)[0]], dtype=np.float64
-        )
+        # (rounding prevents losing sites on the border to floating point errors)
+        corners = np.round(self.itransform([pos, end]), decimals=9)
+        max_nvecs = np.floor(corners)
         for i in range(1, self.dim):
             for idx in itertools.combinations(range(self.dim), r=i):
                 _pos = end.copy()
                 _pos[np.array(idx)] = pos[np.array(idx)]
-                index = self.itranslate(_pos)[0]
+                index = np.floor(np.round(self.itransform(_pos), decimals=9))
                 max_nvecs[0] = np.min([index, max_nvecs[0]], axis=0)
                 max_nvecs[1] = np.max([index, max_nvecs[1]], axis=0)
         # Pad maximum translation vectors and create index limits
-- 
2.43.0


From e8ac8c7d9b8c45945385dfb4640d81dd0ec311a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:49 +0000
Subject: [PATCH 05/69] fix: build misses sites of atoms located outside of the
 unit cell

---
 lattpy/structure.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 327f417..90bd111 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1059,6 +1059,11 @@ class LatticeStructure(LatticeBasis):
                 index = np.floor(np.round(self.itransform(_pos), decimals=9))
                 max_nvecs[0] = np.min([index, max_nvecs[0]], axis=0)
                 max_nvecs[1] = np.max([index, max_nvecs[1]], axis=0)
+        # Account for atoms located outside of the unit cell
+        if len(self._positions):
+            offset = np.floor(self.itransform(np.array(self._positions)))
+            max_nvecs[0] -= np.maximum(np.max(offset, axis=0), 0)
+            max_nvecs[1] -= np.minimum(np.min(offset, axis=0), 0)
         # Pad maximum translation vectors and create index limits
         padding = oversample * shape + 1
         max_nvecs += [-padding, +padding]
-- 
2.43.0


From f030de10eb8ca179ce8de14462c429eecdd2fbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:59 +0000
Subject: [PATCH 06/69] fix: neighbors of the largest distance vanish if all
 sites have the same number of neighbors

---
 lattpy/structure.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 90bd111..cb1bf63 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1227,6 +1227,11 @@ class LatticeStructure(LatticeBasis):
         neighbors = neighbors[i, j]
         num_sites = len(neighbors)
 
+        # Remove columns containing only invalid data
+        all_valid = np.any(distances != np.inf, axis=0)
+        distances = distances[:, all_valid]
+        neighbors = neighbors[:, all_valid]
+
         if not np.any(distances == np.inf):
             # No invalid entries found. This usually happens for (2, 2, ..) systems
             # which results in a bug for the neighbor data:
@@ -1239,11 +1244,6 @@ class LatticeStructure(LatticeBasis):
             shape = num_sites, 1
             neighbors = np.append(neighbors, np.full(shape, invalid_ind), axis=1)
             distances = np.append(distances, np.full(shape, np.inf), axis=1)
-        else:
-            # Remove columns containing only invalid data
-            all_valid = np.any(distances != np.inf, axis=0)
-            distances = distances[:, all_valid]
-            neighbors = neighbors[:, all_valid]
 
         return neighbors, distances
 
-- 
2.43.0


From e2797df47ae02d3dfaf2a6fd156fca7d8d711b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:33 +0000
Subject: [PATCH 07/69] fix: LatticeData treats the largest distance as invalid
 if there are no invalid neighbors

---
 lattpy/data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 4d5651d..9cd51a9 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -305,6 +305,9 @@ class LatticeData:
         """
         logger.debug("Setting data")
         distvals, distidx = create_lookup_table(distances)
+        if not np.any(np.isinf(distvals)):
+            # Make sure there is an entry for the distance of invalid neighbors
+            distvals = np.append(distvals, np.inf)
 
         self.indices = indices
         self.positions = positions
@@ -316,7 +319,7 @@ class LatticeData:
         self.pmask = np.zeros_like(self.neighbors, dtype=bool)
 
         self.invalid_idx = self.num_sites
-        self.invalid_distidx = np.max(self.distances)
+        self.invalid_distidx = len(distvals) - 1
         self._dmap = None
 
     def remove(self, sites):
-- 
2.43.0


From c76a3fbb1247cfe0a9509ee5b2ef927075bd040b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:46 +0000
Subject: [PATCH 08/69] fix: LatticeData.map returns outdated data after the
 neighbors or sites changed

---
 lattpy/data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lattpy/data.py b/lattpy/data.py
index 9cd51a9..8a6b3e9 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -353,6 +353,7 @@ class LatticeData:
         self.neighbors = neighbors
         self.distances = distances
         self.invalid_idx = num_sites
+        self._dmap = None
 
     def get_limits(self) -> np.ndarray:
         """Computes the geometric limits of the positions of the stored sites.
@@ -455,6 +456,7 @@ class LatticeData:
         # remove previous periodic neighbors
         self.remove_periodic()
         # Set new periodic neighbors
+        self._dmap = None
         for i, pidx in indices.items():
             # compute invalid slots of normal data
             i0 = len(self.get_neighbors(i, periodic=False))
@@ -470,6 +472,7 @@ class LatticeData:
             self.pmask[i, i0:i1] = 1
 
     def sort(self, ax=None, indices=None, reverse=False):
+        self._dmap = None
         if ax is not None:
             indices = np.lexsort(self.indices.T[[ax]])
         if reverse:
@@ -496,6 +499,7 @@ class LatticeData:
         self.pnvecs.fill(0)
         self.pmask.fill(0)
         self.paxes.fill(self.dim)
+        self._dmap = None
 
     def sort_neighbors(self):
         distances = self.distvals[self.distances]
@@ -506,6 +510,7 @@ class LatticeData:
         self.paxes = self.paxes[i, j]
         self.pnvecs = self.pnvecs[i, j]
         self.pmask = self.pmask[i, j]
+        self._dmap = None
 
     def add_neighbors(self, site, neighbors, distances):
         neighbors = np.atleast_2d(neighbors)
@@ -518,6 +523,7 @@ class LatticeData:
         # Add new neighbor data to unused slots
         self.neighbors[site, i0:i1] = neighbors
         self.distances[site, i0:i1] = distidx
+        self._dmap = None
 
     def append(self, *args, copy=False):
         neighbors1 = self.neighbors.copy()
-- 
2.43.0


From 6ebadeb4e7df70305b866ac6cd2f7c6ed0649281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:57 +0000
Subject: [PATCH 09/69] fix: neighbors are lost or overwritten when adding
 (periodic) neighbors to a site without free slots at the end

---
 lattpy/data.py | 61 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 8a6b3e9..ce9ab16 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -436,6 +436,34 @@ class LatticeData:
             mask &= self.pmask[site] if periodic else ~self.pmask[site]
         return mask
 
+    def _get_distidx(self, distance: float) -> int:
+        """Returns the index of a distance and adds it if it doesn't exist yet."""
+        idx = np.where(np.isclose(self.distvals, distance))[0]
+        if len(idx):
+            return int(idx[0])
+        idx = int(np.searchsorted(self.distvals, distance))
+        self.distvals = np.insert(self.distvals, idx, distance)
+        self.distances[self.distances >= idx] += 1
+        self.invalid_distidx += 1
+        return idx
+
+    def _free_slots(self, site: int, num: int) -> np.ndarray:
+        """Returns `num` unused neighbor slots of a site and adds missing ones."""
+        free = np.where(self.distances[site] == self.invalid_distidx)[0]
+        pad = num - len(free)
+        if pad > 0:
+            w, w3 = ((0, 0), (0, pad)), ((0, 0), (0, pad), (0, 0))
+            cols = self.neighbors.shape[1]
+            self.neighbors = np.pad(self.neighbors, w, constant_values=self.invalid_idx)
+            self.distances = np.pad(
+                self.distances, w, constant_values=self.invalid_distidx
+            )
+            self.pmask = np.pad(self.pmask, w, constant_values=False)
+            self.pnvecs = np.pad(self.pnvecs, w3, constant_values=0)
+            self.paxes = np.pad(self.paxes, w3, constant_values=self.dim)
+            free = np.append(free, np.arange(cols, cols + pad))
+        return free[:num]
+
     def set_periodic(
         self, indices: dict, distances: dict, nvecs: dict, axes: dict
     ) -> None:
@@ -458,18 +486,16 @@ class LatticeData:
         # Set new periodic neighbors
         self._dmap = None
         for i, pidx in indices.items():
-            # compute invalid slots of normal data
-            i0 = len(self.get_neighbors(i, periodic=False))
-            i1 = i0 + len(pidx)
             # translate distances to indices
-            dists = distances[i]
-            distidx = [np.searchsorted(self.distvals, d) for d in dists]
+            distidx = [self._get_distidx(d) for d in distances[i]]
+            # compute invalid slots of normal data
+            slots = self._free_slots(i, len(pidx))
             # add periodic data
-            self.neighbors[i, i0:i1] = pidx
-            self.distances[i, i0:i1] = distidx
-            self.paxes[i, i0:i1, : axes[i].shape[1]] = axes[i]
-            self.pnvecs[i, i0:i1] = nvecs[i]
-            self.pmask[i, i0:i1] = 1
+            self.neighbors[i, slots] = pidx
+            self.distances[i, slots] = distidx
+            self.paxes[i, slots, : axes[i].shape[1]] = axes[i]
+            self.pnvecs[i, slots] = nvecs[i]
+            self.pmask[i, slots] = 1
 
     def sort(self, ax=None, indices=None, reverse=False):
         self._dmap = None
@@ -513,16 +539,15 @@ class LatticeData:
         self._dmap = None
 
     def add_neighbors(self, site, neighbors, distances):
-        neighbors = np.atleast_2d(neighbors)
-        distances = np.atleast_2d(distances)
-        # compute invalid slots of normal data
-        i0 = len(self.distances[site, self.distances[site] != self.invalid_distidx])
-        i1 = i0 + len(neighbors)
+        neighbors = np.atleast_1d(neighbors)
+        distances = np.atleast_1d(distances)
         # Translate distances to indices
-        distidx = np.asarray([np.searchsorted(self.distvals, d) for d in distances])
+        distidx = [self._get_distidx(d) for d in distances]
+        # compute invalid slots of normal data
+        slots = self._free_slots(site, len(neighbors))
         # Add new neighbor data to unused slots
-        self.neighbors[site, i0:i1] = neighbors
-        self.distances[site, i0:i1] = distidx
+        self.neighbors[site, slots] = neighbors
+        self.distances[site, slots] = distidx
         self._dmap = None
 
     def append(self, *args, copy=False):
-- 
2.43.0


From c420351b0318989810d2ceb12c18a3e5132a89d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:10 +0000
Subject: [PATCH 10/69] fix: LatticeData.remove keeps the periodic data of
 removed sites and fails for repeated or negative sites

---
 lattpy/data.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index ce9ab16..5178ac8 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -323,7 +323,7 @@ class LatticeData:
         self._dmap = None
 
     def remove(self, sites):
-        sites = np.atleast_1d(sites)
+        sites = np.unique(np.arange(self.num_sites)[np.atleast_1d(sites)])
 
         # store current invalid index
         invalid_idx = self.invalid_idx
@@ -334,12 +334,18 @@ class LatticeData:
         positions = np.delete(self.positions, sites, axis=0)
         neighbors = np.delete(self.neighbors, sites, axis=0)
         distances = np.delete(self.distances, sites, axis=0)
+        self.paxes = np.delete(self.paxes, sites, axis=0)
+        self.pnvecs = np.delete(self.pnvecs, sites, axis=0)
+        self.pmask = np.delete(self.pmask, sites, axis=0)
 
         # Update neighbor indices and distances:
         # For each removed site below the neighbor index has to be decremented once
         mask = np.isin(neighbors, sites)
         neighbors[mask] = invalid_idx
         distances[mask] = invalid_distidx
+        self.paxes[mask] = self.dim
+        self.pnvecs[mask] = 0
+        self.pmask[mask] = False
         for count, i in enumerate(sorted(sites)):
             neighbors[neighbors > (i - count)] -= 1
 
-- 
2.43.0


From 59c22ce66f13205cee5cf9546b346396c0a09e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:22 +0000
Subject: [PATCH 11/69] fix: LatticeData.append changes its arguments, keeps
 periodic neighbors and overflows the index data-type

---
 lattpy/data.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 5178ac8..0dd9695 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -557,10 +557,14 @@ class LatticeData:
         self._dmap = None
 
     def append(self, *args, copy=False):
-        neighbors1 = self.neighbors.copy()
-        distances1 = self.distvals[self.distances]
+        data1 = self.copy() if copy else self
+        # Remove periodic neighbors
+        data1.remove_periodic()
+        neighbors1 = data1.neighbors
+        distances1 = data1.distvals[data1.distances]
         if len(args) == 1 and isinstance(args[0], LatticeData):
-            data = args[0]
+            data = args[0].copy()
+            data.remove_periodic()
             indices2 = data.indices
             positions2 = data.positions
             neighbors2 = data.neighbors
@@ -568,18 +572,16 @@ class LatticeData:
         else:
             indices2, positions2, neighbors2, distances2 = args
 
-        # Remove periodic neighbors
-        self.remove_periodic()
+        # upgrade dtype if neccessary
+        invalid_idx = self.num_sites + len(indices2)
+        dtype = min_dtype(invalid_idx)
+        neighbors1 = neighbors1.astype(dtype)
+        neighbors2 = neighbors2.astype(dtype)
 
         # Convert invalid indices of neighbor data
-        invalid_idx = self.num_sites + len(indices2)
         neighbors1[neighbors1 == self.invalid_idx] = invalid_idx
         neighbors2[neighbors2 == len(indices2)] = invalid_idx
 
-        # upgrade dtype if neccessary
-        dtype = min_dtype(np.max(neighbors2) + self.num_sites)
-        if dtype != neighbors2.dtype:
-            neighbors2 = neighbors2.astype(dtype)
         # Shift neighbor indices
         neighbors2[neighbors2 != invalid_idx] += self.num_sites
 
-- 
2.43.0


From 5321ae2c589cf5cbaad3829cf2ffd5fa692bd36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:16 +0000
Subject: [PATCH 12/69] fix: vindices overflows if the range of the indices
 exceeds the data-type of the limits

---
 lattpy/spatial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index 2dd179f..321dcae 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -154,6 +154,8 @@ def vindices(
 
     # version 3:
     size = limits[:, 1] - limits[:, 0]
+    # The number of indices may exceed the limits
+    dtype = np.promote_types(dtype, min_dtype(size, signed=True))
     nvecs = np.indices(size, dtype=dtype).reshape(dim, -1).T + limits[:, 0]
 
     # Optionally sort indices along given axis
-- 
2.43.0


From 54f258feed9b19a8de9755fe15c9ffcdbf139122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:30 +0000
Subject: [PATCH 13/69] fix: periodic boundary conditions miss corners of the
 system

---
 lattpy/lattice.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index e6f2930..88fc352 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -537,14 +537,16 @@ class Lattice(LatticeStructure):
             return [(axes, self._build_periodic_translation_vector(axes, primitive))]
         # Add all combinations of the periodic axis
         items = list()
-        for ax in itertools.combinations_with_replacement(axes, r=2):
-            nvec = self._build_periodic_translation_vector(ax, primitive)
-            items.append((ax, nvec))
+        vecs = [self._build_periodic_translation_vector(ax, primitive) for ax in axes]
+        num = len(vecs)
+        for factors in itertools.product([0, 1, -1], repeat=num):
             # Use +/- for every axis exept the first one to ensure all corners are hit
-            if not np.all(np.array(ax) == axes[0]):
-                nvec2 = np.copy(nvec)
-                nvec2[1:] *= -1
-                items.append((ax, nvec2))
+            used = [i for i in range(num) if factors[i]]
+            if not used or factors[used[0]] < 0:
+                continue
+            # Pad axes to the same length by repeating the last one
+            ax = tuple(axes[i] for i in used + used[-1:] * (num - len(used)))
+            items.append((ax, sum(f * vec for f, vec in zip(factors, vecs))))
         return items
 
     def _build_periodic(self, indices, positions, nvec, out_ind=None, out_pos=None):
-- 
2.43.0


From d4a1164d2d91d7f3fdde094ecd3b379d13327871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:42 +0000
Subject: [PATCH 14/69] fix: distances and translations of periodic neighbors
 are assigned to the wrong neighbor in small lattices

---
 lattpy/lattice.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 88fc352..9006db0 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -620,18 +620,16 @@ class Lattice(LatticeStructure):
 
         # Convert values of dict to np.ndarray's
         for k in list(pidx.keys()):
-            pi = list(pidx[k])  # indices of periodic neighbors
+            pi = np.array(pidx[k])  # indices of periodic neighbors
             # Check if periodic neighbors is in regular neighbors
             # This occurs for small lattices and makes no sense, since the
             # sites are already neighbors
-            existing_neighbors = self.neighbors(k)
-            for _i, ind in enumerate(pi[:]):
-                if ind in existing_neighbors:
-                    pi.remove(ind)
+            valid = np.where(~np.isin(pi, self.neighbors(k)))[0]
 
-            if len(pi):
+            if len(valid):
                 # Convert to arrays
-                sites, ind = np.unique(pi, return_index=True)
+                sites, ind = np.unique(pi[valid], return_index=True)
+                ind = valid[ind]
                 pidx[k] = np.array(sites)
                 pdists[k] = np.array(pdists[k])[ind]
                 paxs[k] = np.array(paxs[k])[ind]
-- 
2.43.0


From a1bee5af3dae7457e0dec54dd259fbc6c10c4dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:53 +0000
Subject: [PATCH 15/69] fix: periodic axes are kept after rebuilding the
 lattice

---
 lattpy/lattice.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 9006db0..6b46706 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -446,6 +446,7 @@ class Lattice(LatticeStructure):
             Raised if the lattice distances and base-neighbors haven't been computed.
         """
         self.data.reset()
+        self.periodic_axes = list()
         if not isinstance(shape, AbstractShape):
             basis = self.vectors if primitive else None
             shape = Shape(shape, pos=pos, basis=basis)
@@ -693,6 +694,7 @@ class Lattice(LatticeStructure):
             self.periodic_axes = list()
         else:
             self.data.remove_periodic()
+            self.periodic_axes = list()
             axis = np.atleast_1d(axis)
             pidx, pdists, pnvecs, paxs = self._compute_pneighbors(axis, primitive)
             if not pidx:
-- 
2.43.0


From 75a88653811da968a532360d5d72cc236923891a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:06 +0000
Subject: [PATCH 16/69] fix: appending lattices connects atoms that are not
 connected and misses distances due to rounding errors

---
 lattpy/lattice.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 6b46706..a92567c 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -702,7 +702,7 @@ class Lattice(LatticeStructure):
             self.data.set_periodic(pidx, pdists, pnvecs, paxs)
             self.periodic_axes = axis
 
-    def _compute_connection_neighbors(self, positions1, positions2):
+    def _compute_connection_neighbors(self, positions1, positions2, alphas1, alphas2):
         # Set neighbor query parameters
         k = np.sum(np.sum(self._raw_num_neighbors, axis=1)) + 1
         max_dist = np.max(self.distances) + 0.1 * np.min(self._raw_distance_matrix)
@@ -719,7 +719,11 @@ class Lattice(LatticeStructure):
             if conns:
                 conns = np.asarray(conns)
                 dists = cdist(np.asarray([positions1[i]]), positions2[conns])[0]
+                dists = np.round(dists, decimals=self.DIST_DECIMALS)
                 for j, dist in zip(conns, dists):
+                    # Skip atoms that are not connected
+                    if dist not in self._distance_matrix[alphas1[i]][alphas2[j]]:
+                        continue
                     pairs.append((i, j))
                     # pairs.append((j, i))
                     distances_.append(dist)
@@ -744,8 +748,12 @@ class Lattice(LatticeStructure):
         distances : (N) np.ndarray
             The corresponding distances for the connections.
         """
-        positions2 = latt.data.positions
-        return self._compute_connection_neighbors(self.data.positions, positions2)
+        return self._compute_connection_neighbors(
+            self.data.positions,
+            latt.data.positions,
+            self.data.indices[:, -1],
+            latt.data.indices[:, -1],
+        )
 
     def minimum_distances(self, site, primitive=None):
         """Computes the minimum distances between one site and the other lattice sites.
@@ -820,6 +828,7 @@ class Lattice(LatticeStructure):
 
         # Store temporary data
         positions1 = self.data.positions
+        alphas1 = self.data.indices[:, -1]
 
         # Shift data of appended lattice
         indices2[:, :-1] += nvec
@@ -827,7 +836,9 @@ class Lattice(LatticeStructure):
 
         # Append data and compute connecting neighbors
         self.data.append(indices2, positions2, neighbors2, distances2)
-        pairs, distances_ = self._compute_connection_neighbors(positions1, positions2)
+        pairs, distances_ = self._compute_connection_neighbors(
+            positions1, positions2, alphas1, indices2[:, -1]
+        )
         offset = len(positions1)
         for (i, j), dist in zip(pairs, distances_):
             self.data.add_neighbors(i, j + offset, dist)
-- 
2.43.0


From 9ec05e3adf0bc7f1a4a795862c4172c2a857133b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:47 +0000
Subject: [PATCH 17/69] fix: appending lattices turns periodic neighbors into
 regular ones

---
 lattpy/lattice.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index a92567c..2ac79f7 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -803,6 +803,13 @@ class Lattice(LatticeStructure):
         # get minimum distances
         return np.min(dists, axis=0)
 
+    def _open_neighbors(self):
+        """Returns the neighbors and distances without the periodic neighbors."""
+        data = self.data
+        neighbors = np.where(data.pmask, data.invalid_idx, data.neighbors)
+        dists = np.where(data.pmask, np.inf, data.distvals[data.distances])
+        return neighbors, dists
+
     def _append(
         self,
         ind,
@@ -849,6 +856,7 @@ class Lattice(LatticeStructure):
 
         # Update the shape of the lattice
         self._update_shape()
+        self.periodic_axes = list()
 
     # noinspection PyShadowingNames
     def append(
@@ -909,8 +917,7 @@ class Lattice(LatticeStructure):
 
         ind = latt.data.indices
         pos = latt.data.positions
-        neighbors = latt.data.neighbors
-        dists = latt.data.distvals[latt.data.distances]
+        neighbors, dists = latt._open_neighbors()
         self._append(
             ind, pos, neighbors, dists, ax, side, sort_ax, sort_reverse, self.primitive
         )
@@ -1000,8 +1007,7 @@ class Lattice(LatticeStructure):
         """
         ind = self.data.indices
         pos = self.data.positions
-        neighbors = self.data.neighbors
-        dists = self.data.distvals[self.data.distances]
+        neighbors, dists = self._open_neighbors()
         prim = self.primitive
         for _ in range(num):
             self._append(
-- 
2.43.0


From c9c95aae3e6e88a0b7287b230b881d403e4d1e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:59 +0000
Subject: [PATCH 18/69] fix: repeat with side=-1 places all copies at the same
 position

---
 lattpy/lattice.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 2ac79f7..31fc3f6 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -857,6 +857,7 @@ class Lattice(LatticeStructure):
         # Update the shape of the lattice
         self._update_shape()
         self.periodic_axes = list()
+        return indices2, positions2
 
     # noinspection PyShadowingNames
     def append(
@@ -1010,9 +1011,12 @@ class Lattice(LatticeStructure):
         neighbors, dists = self._open_neighbors()
         prim = self.primitive
         for _ in range(num):
-            self._append(
+            ind2, pos2 = self._append(
                 ind, pos, neighbors, dists, ax, side, sort_ax, sort_reverse, prim
             )
+            if side <= 0:
+                # Append next copy to the previous one
+                ind, pos = ind2, pos2
 
     def dmap(self) -> DataMap:
         """DataMap : Returns the data-map of the lattice model."""
-- 
2.43.0


From 35db85e9faf63bf778dcc761112663f27d21c794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:12 +0000
Subject: [PATCH 19/69] fix: extend ignores the position of the lattice

---
 lattpy/lattice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 31fc3f6..5f7d234 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -962,7 +962,9 @@ class Lattice(LatticeStructure):
         # Build indices and positions of new section
         shape = np.copy(self.shape)
         shape[ax] = size
-        ind, pos = self.build_indices(shape, primitive=self.primitive, return_pos=True)
+        ind, pos = self.build_indices(
+            shape, primitive=self.primitive, pos=self.pos, return_pos=True
+        )
         # Compute the neighbors and distances between the sites of new section
         neighbors, dists = self.compute_neighbors(ind, pos, num_jobs)
         # Append new section
-- 
2.43.0


From edbb8bd6af39bc519d3a79b43f0bf47d8f2954a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:38 +0000
Subject: [PATCH 20/69] fix: printing a NoAtomsError or SiteOccupiedError
 raises a ValueError

---
 lattpy/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lattpy/utils.py b/lattpy/utils.py
index daebe60..9e62ff8 100644
--- a/lattpy/utils.py
+++ b/lattpy/utils.py
@@ -62,10 +62,10 @@ class ConfigurationError(LatticeError):
 
     @property
     def hint(self):
-        return self.args[1]
+        return self.args[1] if len(self.args) > 1 else ""
 
     def __str__(self):
-        msg, hint = self.args
+        msg, hint = self.msg, self.hint
         if hint:
             msg += f" ({hint})"
         return msg
-- 
2.43.0


From 09f038e7fb43be58e64f2a9cb6df5325cf06f3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:51 +0000
Subject: [PATCH 21/69] fix: adding an atom to an analyzed lattice raises an
 AttributeError

---
 lattpy/structure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index cb1bf63..96ca490 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -251,7 +251,9 @@ class LatticeStructure(LatticeBasis):
             atom = Atom(atom, **kwargs)
 
         self._atoms.append(atom)
-        self._positions.append(np.asarray(pos))
+        self._positions = [*self._positions, np.asarray(pos)]
+        # The results of a previous analysis are no longer valid
+        self._base_neighbors = None
 
         # Update number of base atoms if data is valid
         num_base = len(self._atoms)
-- 
2.43.0


From a0ad0f2485e78ef0e2c341aaeabf0f0a93e53f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:03 +0000
Subject: [PATCH 22/69] fix: comparing or hashing a lattice that has not been
 built raises a TypeError

---
 lattpy/lattice.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 5f7d234..1692afc 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -1142,6 +1142,7 @@ class Lattice(LatticeStructure):
         lines = list()
         for key, values in self.todict().items():
             head = key + ":"
+            values = [values] if values is None else values
             lines.append(f"{head:<15}" + "; ".join(str(x) for x in values))
         return "\n".join(lines)
 
-- 
2.43.0


From da8bd4ddf5bbb5c1ace259dba5c3d102b2ba6798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:14 +0000
Subject: [PATCH 23/69] fix: rot rotates around the z-axis instead of the
 x-axis

---
 lattpy/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index 321dcae..8bff07a 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -561,7 +561,7 @@ def rot(
     if thetay:
         r = np.dot(r, ry(thetay))
     if thetax:
-        r = np.dot(r, rz(thetax))
+        r = np.dot(r, rx(thetax))
     return r
 
 
-- 
2.43.0


From b2740f9bbf4ad934fddcbe349b1dfe4310dc0e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:28 +0000
Subject: [PATCH 24/69] fix: number of neighbors overflows for more than 127
 neighbors

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 96ca490..5b7b424 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -599,7 +599,7 @@ class LatticeStructure(LatticeBasis):
         max_num_distances = len(unique_distances)
 
         # Compute number of neighbors for each atom in the unit cell
-        num_neighbors = np.zeros(self.num_base, dtype=np.int8)
+        num_neighbors = np.zeros(self.num_base, dtype=np.int64)
         for i, neighbors in enumerate(base_neighbors):
             num_neighbors[i] = sum(len(indices) for indices in neighbors.values())
 
-- 
2.43.0


From fbf31704beedd67a44460368a8b27efe56ed8b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:42 +0000
Subject: [PATCH 25/69] fix: adjacency matrix is too small if the last sites
 have no neighbors

---
 lattpy/lattice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 1692afc..d722a16 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -1111,7 +1111,8 @@ class Lattice(LatticeStructure):
         pairs, distindices = self.neighbor_pairs(unique=False)
         rows, cols = pairs.T  # noqa
         data = distindices + 1
-        return csr_matrix((data, (rows, cols)), dtype=np.int8)
+        shape = self.num_sites, self.num_sites
+        return csr_matrix((data, (rows, cols)), shape=shape, dtype=np.int8)
 
     # ==================================================================================
 
-- 
2.43.0


From d596ea39c4d68533607df2ac7150b571b211dd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:57 +0000
Subject: [PATCH 26/69] fix: size of the Wigner-Seitz cell mixes up the limits
 of the axes

---
 lattpy/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index 8bff07a..86c42cc 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -466,7 +466,7 @@ class WignerSeitzCell(VoronoiTree):
 
     @property
     def size(self):
-        return self.limits[1] - self.limits[0]
+        return self.limits[:, 1] - self.limits[:, 0]
 
     def check(self, points):
         cells = np.asarray(self.query(points)[1])
-- 
2.43.0


From 3d5d4b4f7f8e1a30eafb97e14c70b408c539a076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:09 +0000
Subject: [PATCH 27/69] fix: get_cell_index returns an array of indices for
 numpy integers

---
 lattpy/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index 2524649..6093d8a 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -620,7 +620,7 @@ class LatticeBasis:
             The cell index. Of shape (D,) if `super_index` is an integer, otherwise
             of shape (N, D).
         """
-        single = isinstance(super_index, int)
+        single = isinstance(super_index, (int, np.integer))
         super_index = np.atleast_1d(super_index)
 
         indices = np.zeros((len(super_index), self.dim), dtype=np.int64)
-- 
2.43.0


From 8cbab92b0befd7e8dfb50005ec86965d98ee91e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:14 +0000
Subject: [PATCH 28/69] fix: sites without any neighbors return an invalid site
 as nearest neighbor

---
 lattpy/data.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 0dd9695..384ee31 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -431,10 +431,9 @@ class LatticeData:
         -------
         mask : np.ndarray
         """
-        if distidx is None:
-            mask = self.distances[site] < self.invalid_distidx
-        else:
-            mask = self.distances[site] == distidx
+        mask = self.distances[site] < self.invalid_distidx
+        if distidx is not None:
+            mask &= self.distances[site] == distidx
         if unique:
             mask &= self.neighbors[site] > site
 
-- 
2.43.0


From 19dc962f0172b8fc9ba45540ef67710d4f6fd4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:20 +0000
Subject: [PATCH 29/69] fix: check_neighbors misses neighbors if there are more
 distances than configured per pair of atoms

---
 lattpy/lattice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index d722a16..d0b7cf0 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -383,9 +383,9 @@ class Lattice(LatticeStructure):
         distidx : int or None
             The distance index of the two sites if they are neighbors.
         """
-        for distidx in range(self.num_distances):
-            if idx1 in self.neighbors(idx0, distidx):
-                return distidx
+        for distidx, neighbors in self.iter_neighbors(idx0):
+            if idx1 in neighbors:
+                return int(distidx)
         return None
 
     def _update_shape(self):
-- 
2.43.0


From 3b963b214b2d05ea190e953f7a0c01f6072854a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:36 +0000
Subject: [PATCH 30/69] fix: Wigner-Seitz cell is wrong or can not be
 constructed if the faces belong to cells of different distances

---
 lattpy/basis.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index 6093d8a..25b7a59 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -15,6 +15,7 @@ import itertools
 import numpy as np
 import matplotlib.pyplot as plt
 from mpl_toolkits.mplot3d.axes3d import Axes3D
+from scipy.spatial import Voronoi
 from typing import Union, Sequence, Callable
 from .spatial import cell_size, cell_volume, WignerSeitzCell
 from .plotting import subplot, draw_unit_cell
@@ -549,8 +550,17 @@ class LatticeBasis:
         ws_cell : WignerSeitzCell
             The Wigner-Seitz cell of the lattice.
         """
-        nvecs = self.get_neighbor_cells(include_origin=True)
+        nvecs = np.array(list(itertools.product(range(-2, 3), repeat=self.dim)))
         positions = np.dot(nvecs, self.vectors[np.newaxis, :, :])[:, 0, :]
+        origin = len(positions) // 2
+        if self.dim == 1:
+            positions = positions[origin - 1 : origin + 2]
+        else:
+            # Only use the cells that share a face with the cell at the origin
+            pairs = Voronoi(positions).ridge_points
+            pairs = pairs[np.any(pairs == origin, axis=1)]
+            indices = np.unique(pairs[pairs != origin])
+            positions = positions[np.append(origin, indices)]
         return WignerSeitzCell(positions)
 
     def brillouin_zone(self, min_negative: bool = False) -> WignerSeitzCell:
-- 
2.43.0


From e139f7c7d794186da37bb98eb93ed22757a15977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:55 +0000
Subject: [PATCH 31/69] fix: analyze misses neighbors of atoms outside of the
 unit cell and of anisotropic unit cells

---
 lattpy/structure.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 5b7b424..8358687 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -454,12 +454,19 @@ class LatticeStructure(LatticeBasis):
 
         # Build indices of neighbor-cells
         self._positions = np.asarray(self._positions)
-        cell_range = 2 * max_distidx
-        logger.debug("Max. distidx: %i, Cell-range: %i", max_distidx, cell_range)
 
-        nvecs = self.get_neighbor_cells(
-            cell_range, include_origin=True, comparison=np.less_equal
-        )
+        # Use the translations of the atoms that are located in the unit cell. At least
+        # `max_distidx` distances of a pair of atoms occur for the translations along
+        # the shortest vector, all others are closer than the resulting radius.
+        offsets, atom_positions = self.itranslate(self._positions)
+        diffs = atom_positions[:, np.newaxis] - atom_positions[np.newaxis, :]
+        size = np.max(np.linalg.norm(diffs, axis=-1))
+        radius = 2 * size + max_distidx * np.min(np.linalg.norm(self.vectors, axis=1))
+        max_factors = np.ceil(radius * np.linalg.norm(self._vectors_inv, axis=1))
+        logger.debug("Max. distidx: %i, Cell-range: %s", max_distidx, max_factors)
+
+        axis_factors = [range(-int(n), int(n) + 1) for n in max_factors]
+        nvecs = np.array(list(itertools.product(*axis_factors)))
         arrays = [
             np.c_[nvecs, i * np.ones(nvecs.shape[0])] for i in range(self.num_base)
         ]
@@ -469,7 +476,8 @@ class LatticeStructure(LatticeBasis):
 
         # Compute positions and initialize tree
         nvecs, alphas = indices[:, :-1], indices[:, -1]
-        positions = self.translate(nvecs, np.array(self.atom_positions)[alphas])
+        positions = self.translate(nvecs, atom_positions[alphas])
+        indices[:, :-1] -= offsets[alphas]
         tree = KDTree(positions, k=len(positions))
 
         # Compute neighbors for each distance level in the cell range
@@ -478,11 +486,12 @@ class LatticeStructure(LatticeBasis):
             [collections.OrderedDict() for _ in range(n)] for _ in range(n)
         ]
         for a1 in range(self.num_base):
-            pos = self.atom_positions[a1]
+            pos = atom_positions[a1]
             neighbors, distances = tree.query(
                 pos, num_jobs, self.DIST_DECIMALS, include_zero=True, compact=False
             )
             neighbor_indices = indices[neighbors]
+            neighbor_indices[:, :-1] += offsets[a1]
             # Store neighbors of certain distance for each atom pair in the unit cell
             for dist, idx in zip(distances, neighbor_indices):
                 a2 = idx[-1]
-- 
2.43.0


From 653948bc8698d278c589d08e1a5dc551454ceca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:31 +0000
Subject: [PATCH 32/69] fix: build with primitive=True misses sites for small
 lattice constants and cuts off shapes

---
 lattpy/structure.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 8358687..ce2a77e 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1043,7 +1043,11 @@ class LatticeStructure(LatticeBasis):
          [2 2]]
         """
         # Build lattice indices
+        scale = np.max(self.vectors, axis=0)
         if isinstance(shape, AbstractShape):
+            # The limits of shapes are already given in cartesian coordinates
+            scale = np.ones(self.dim)
+            primitive = primitive and getattr(shape, "basis", None) is not None
             pos, stop = shape.limits().T
             shape = stop - pos
         shape = np.atleast_1d(shape)
@@ -1055,7 +1059,7 @@ class LatticeStructure(LatticeBasis):
         logger.debug("Building nvecs: %s at %s", shape, pos)
 
         if primitive:
-            shape = np.array(shape) * np.max(self.vectors, axis=0) - 0.1 * self.norms
+            shape = np.array(shape) * scale - 0.1 * self.norms
         pos = np.zeros(self.dim) if pos is None else np.atleast_1d(pos)
         end = pos + shape
 
-- 
2.43.0


From 87db7767f3e4b41735fbf2c429bfc66537cc971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:31 +0000
Subject: [PATCH 33/69] fix: create_lookup_table returns wrong indices for more
 than 256 unique values

---
 lattpy/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lattpy/utils.py b/lattpy/utils.py
index 9e62ff8..f94a31e 100644
--- a/lattpy/utils.py
+++ b/lattpy/utils.py
@@ -133,6 +133,7 @@ def create_lookup_table(
         The corresponding indices in the same shape as the input-array.
     """
     values = np.sort(np.unique(array))
+    dtype = np.promote_types(dtype, min_dtype(len(values), signed=False))
     indices = np.zeros_like(array, dtype=dtype)
     for i, x in enumerate(values):
         mask = array == x
-- 
2.43.0


From 630ebbd5635b1a00eb76dd4b4d451d42ab09ae91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:43 +0000
Subject: [PATCH 34/69] fix: min_dtype overflows for values at the limits of
 their data-type

---
 lattpy/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lattpy/utils.py b/lattpy/utils.py
index f94a31e..67aa02a 100644
--- a/lattpy/utils.py
+++ b/lattpy/utils.py
@@ -159,10 +159,11 @@ def min_dtype(
     dtype : dtype
         The required dtype.
     """
+    # Use Python types, since numpy integers overflow at the limits of their data-type
+    amin, amax = np.min(a).item(), np.max(a).item()
     if signed:
-        a = -np.max(np.abs(a)) - 1
+        a = -max(abs(amin), abs(amax)) - 1
     else:
-        amin, amax = np.min(a), np.max(a)
         if amin < 0:
             a = -amax - 1 if abs(amin) <= amax else amin
         else:
-- 
2.43.0


From df2c9ad60453c9ae263cfc5c01ecdfc4639d3eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:59 +0000
Subject: [PATCH 35/69] fix: neighbors are lost if there are more sites in
 range than neighbors

---
 lattpy/lattice.py   |  6 +++---
 lattpy/structure.py | 15 +++++++++++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index d0b7cf0..0a10360 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -564,7 +564,7 @@ class Lattice(LatticeStructure):
     def kdtree(self, positions=None, eps=0.0, boxsize=None):
         if positions is None:
             positions = self.data.positions
-        k = np.sum(np.sum(self._raw_num_neighbors, axis=1)) + 1
+        k = self._max_num_sites
         max_dist = np.max(self.distances) + 0.1 * np.min(self._raw_distance_matrix)
         return KDTree(positions, k, max_dist, eps=eps, boxsize=boxsize)
 
@@ -579,7 +579,7 @@ class Lattice(LatticeStructure):
         invald_idx = len(indices)
 
         # Build tree
-        k = np.sum(np.sum(self._raw_num_neighbors, axis=1)) + 1
+        k = self._max_num_sites
         max_dist = np.max(self.distances) + 0.1 * np.min(self._raw_distance_matrix)
         tree = KDTree(positions, k, max_dist)
 
@@ -704,7 +704,7 @@ class Lattice(LatticeStructure):
 
     def _compute_connection_neighbors(self, positions1, positions2, alphas1, alphas2):
         # Set neighbor query parameters
-        k = np.sum(np.sum(self._raw_num_neighbors, axis=1)) + 1
+        k = self._max_num_sites
         max_dist = np.max(self.distances) + 0.1 * np.min(self._raw_distance_matrix)
 
         # Build sub-lattice tree's
diff --git a/lattpy/structure.py b/lattpy/structure.py
index ce2a77e..ae56403 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -111,6 +111,7 @@ class LatticeStructure(LatticeBasis):
         self._raw_base_neighbors = None
         self._raw_distance_matrix = None
         self._raw_num_neighbors = None
+        self._raw_site_distances = None
 
         # Neighbour data
         self._connections = None
@@ -118,6 +119,7 @@ class LatticeStructure(LatticeBasis):
         self._num_neighbors = None
         self._distance_matrix = None
         self._distances = None
+        self._max_num_sites = 0
 
         logger.debug(
             "LatticeStructure initialized (D=%i)\nvectors:\n%s", self.dim, self._vectors
@@ -461,7 +463,8 @@ class LatticeStructure(LatticeBasis):
         offsets, atom_positions = self.itranslate(self._positions)
         diffs = atom_positions[:, np.newaxis] - atom_positions[np.newaxis, :]
         size = np.max(np.linalg.norm(diffs, axis=-1))
-        radius = 2 * size + max_distidx * np.min(np.linalg.norm(self.vectors, axis=1))
+        min_norm = np.min(np.linalg.norm(self.vectors, axis=1))
+        radius = 2 * size + (max_distidx + 0.1) * min_norm
         max_factors = np.ceil(radius * np.linalg.norm(self._vectors_inv, axis=1))
         logger.debug("Max. distidx: %i, Cell-range: %s", max_distidx, max_factors)
 
@@ -485,6 +488,7 @@ class LatticeStructure(LatticeBasis):
         neighbor_array = [
             [collections.OrderedDict() for _ in range(n)] for _ in range(n)
         ]
+        self._raw_site_distances = list()
         for a1 in range(self.num_base):
             pos = atom_positions[a1]
             neighbors, distances = tree.query(
@@ -492,6 +496,7 @@ class LatticeStructure(LatticeBasis):
             )
             neighbor_indices = indices[neighbors]
             neighbor_indices[:, :-1] += offsets[a1]
+            self._raw_site_distances.append(distances)
             # Store neighbors of certain distance for each atom pair in the unit cell
             for dist, idx in zip(distances, neighbor_indices):
                 a2 = idx[-1]
@@ -625,6 +630,12 @@ class LatticeStructure(LatticeBasis):
         self._distance_matrix = base_distance_matrix
         self._num_neighbors = num_neighbors
         self._distances = distances
+
+        # Maximum number of sites (including the origin) in the range of the neighbors
+        max_dist = np.max(distances) + 0.1 * np.min(self._raw_distance_matrix)
+        self._max_num_sites = max(
+            int(np.sum(dists <= max_dist)) for dists in self._raw_site_distances
+        )
         logger.debug("Number of neighbors:\n%s", num_neighbors)
         logger.debug("Distance-matrix:\n%s", base_distance_matrix)
         logger.debug("Distances:\n%s", distances)
@@ -1330,7 +1341,7 @@ class LatticeStructure(LatticeBasis):
         logger.debug("Querying neighbors of %i points", len(positions))
 
         # Set neighbor query parameters and build tree
-        k = np.sum(np.sum(self._raw_num_neighbors, axis=1)) + 1
+        k = self._max_num_sites
         max_dist = np.max(self.distances) + 0.1 * np.min(self._raw_distance_matrix)
         tree = KDTree(positions, k=k, max_dist=max_dist)
         logger.debug("Max. number of neighbors: %i", k)
-- 
2.43.0


From 8340aad0dd4a394fa5b6bae26a2a3b400d07472d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:09 +0000
Subject: [PATCH 36/69] fix: check_points ignores the tolerance of the upper
 limit and changes its argument

---
 lattpy/structure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index ae56403..0628352 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -985,11 +985,11 @@ class LatticeStructure(LatticeBasis):
                     f"match the dimension of the lattice {self.dim}"
                 )
             if relative:
-                shape += np.max(self.vectors, axis=0) - 0.1 * self.norms
+                shape = shape + np.max(self.vectors, axis=0) - 0.1 * self.norms
 
-            pos = np.zeros(self.dim) if pos is None else np.array(pos, dtype=np.float64)
-            pos -= tol
+            pos = np.zeros(self.dim) if pos is None else np.atleast_1d(pos)
             end = pos + shape + tol
+            pos = pos - tol
 
             mask = (pos[0] <= points[:, 0]) & (points[:, 0] <= end[0])
             for i in range(1, self.dim):
-- 
2.43.0


From 172cc5db0e64885ed1cb04fd277cd38b6ecc76d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:09 +0000
Subject: [PATCH 37/69] fix: get_neighbor_vectors with include_zero returns a
 non-zero vector for atoms off the origin

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 0628352..3031143 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -870,7 +870,7 @@ class LatticeStructure(LatticeBasis):
         pos0 = self._positions[alpha]
         pos1 = self.get_neighbor_positions(alpha=alpha, distidx=distidx)
         if include_zero:
-            pos1 = np.append(np.zeros((1, self.dim)), pos1, axis=0)
+            pos1 = np.append([pos0], pos1, axis=0)
         vecs = pos1 - pos0
         logger.debug("Neighbour-vectors: %s", vecs)
 
-- 
2.43.0


From 5488e9ec1d75b36dc056500bd876e97ac72d51ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:09 +0000
Subject: [PATCH 38/69] fix: get_base_atom_dict raises a ValueError for one
 dimensional lattices

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 3031143..a7b5f70 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -929,7 +929,7 @@ class LatticeStructure(LatticeBasis):
         atom_pos = dict()
         for atom, pos in zip(self._atoms, self._positions):
             if atleast2d and self.dim == 1:
-                pos = np.array([pos, 0])
+                pos = np.append(pos, 0)
 
             if atom.name in atom_pos.keys():
                 atom_pos[atom].append(pos)
-- 
2.43.0


From f6fa5a99f735ffe7f9c25c86e4a0f99c17216fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:09 +0000
Subject: [PATCH 39/69] fix: interweave truncates arrays to the data-type of
 the first array

---
 lattpy/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index 86c42cc..70fd9f9 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -109,7 +109,7 @@ def interweave(arrays: Sequence[np.ndarray]) -> np.ndarray:
     """
     shape = list(arrays[0].shape)
     shape[0] = sum(x.shape[0] for x in arrays)
-    result = np.empty(shape, dtype=arrays[0].dtype)
+    result = np.empty(shape, dtype=np.result_type(*arrays))
     n = len(arrays)
     for i, arr in enumerate(arrays):
         result[i::n] = arr
-- 
2.43.0


From 3b3c9823272f42ccea3df7ae3b6a605144677dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:34 +0000
Subject: [PATCH 40/69] fix: fromdict does not share the connections with the
 source lattice

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index a7b5f70..3e30883 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1390,7 +1390,7 @@ class LatticeStructure(LatticeBasis):
         self = cls(d["vectors"])
         for pos, at in zip(d["positions"], d["atoms"]):
             self.add_atom(pos, at)
-        self._connections = d["connections"]
+        self._connections = np.array(d["connections"])
         self.analyze()
         return self
 
-- 
2.43.0


From 6decf774aae4b473815782e3e18caf5130208c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:54 +0000
Subject: [PATCH 41/69] fix: get_neighbor_cells mixes up distances that differ
 by rounding errors

---
 lattpy/basis.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index 25b7a59..6c78aac 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -522,15 +522,19 @@ class LatticeBasis:
         factors = np.array(list(itertools.product(axis_factors, repeat=self.dim)))
         points = np.dot(factors, self.vectors[np.newaxis, :, :])[:, 0, :]
 
-        # Compute distances to origin for all points
+        # Compute distances to origin for all points. The values are rounded relative
+        # to the size of the unit cell to identify equal distances
         distances = np.linalg.norm(points, axis=1)
+        norms = self.norms
+        rounded = np.round(distances / np.max(norms), decimals=9)
 
         # Set maximum distances value to number of neighbors
         # + number of unique vector lengths
-        max_distidx = distidx + len(np.unique(np.linalg.norm(self.vectors, axis=1)))
+        num_lengths = len(np.unique(np.round(norms / np.max(norms), decimals=9)))
+        max_distidx = distidx + num_lengths
 
         # Return points with distance lower than maximum distance
-        maxdist = np.sort(np.unique(distances))[max_distidx]
+        maxdist = np.max(distances[rounded == np.unique(rounded)[max_distidx]])
         indices = np.where(comparison(distances, maxdist))[0]
         factors = factors[indices]
 
-- 
2.43.0


From 50eb9909eb0addfa62c2373705df357cf6362ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:53 +0000
Subject: [PATCH 42/69] fix: copies of an atom regain deleted default
 parameters

---
 lattpy/atom.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lattpy/atom.py b/lattpy/atom.py
index fb4fa6d..321d4e3 100644
--- a/lattpy/atom.py
+++ b/lattpy/atom.py
@@ -81,7 +81,9 @@ class Atom(abc.MutableMapping):
 
     def copy(self) -> "Atom":
         """Creates a deep copy of the ``Atom`` instance."""
-        return Atom(self.name, weight=self.weight, **self._params.copy())
+        atom = Atom(self.name, weight=self.weight)
+        atom._params = self._params.copy()
+        return atom
 
     def get(self, key: str, default=None) -> Any:
         try:
-- 
2.43.0


From 59e9103a0a54a4c26206b52ec272030323959c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:24 +0000
Subject: [PATCH 43/69] fix: extend of lattices built with primitive=True adds
 wrong or duplicate sites

---
 lattpy/lattice.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 0a10360..5aba25a 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -930,6 +930,8 @@ class Lattice(LatticeStructure):
         ----------
         size : float
             The size of which the lattice will be extended in direction of ``ax``.
+            The size is given in units of the lattice vector if the lattice was built
+            with ``primitive=True``.
         ax : int, optional
             The axis along the lattice is extended. The default is 0 (x-axis).
         side : int, optional
@@ -960,11 +962,17 @@ class Lattice(LatticeStructure):
         [8. 5.]
         """
         # Build indices and positions of new section
-        shape = np.copy(self.shape)
-        shape[ax] = size
-        ind, pos = self.build_indices(
-            shape, primitive=self.primitive, pos=self.pos, return_pos=True
-        )
+        if self.primitive:
+            # The size and the section are given in units of the lattice vectors
+            coords = self.itransform(self.data.positions)
+            start = np.min(coords, axis=0)
+            shape = np.max(coords, axis=0) - start
+            shape[ax] = size
+            shape = Shape(shape, pos=start, basis=self.vectors)
+        else:
+            shape = np.copy(self.shape)
+            shape[ax] = size
+        ind, pos = self.build_indices(shape, pos=self.pos, return_pos=True)
         # Compute the neighbors and distances between the sites of new section
         neighbors, dists = self.compute_neighbors(ind, pos, num_jobs)
         # Append new section
-- 
2.43.0


From a564d334fcfd74e16d4108e03478423c05d49c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:24 +0000
Subject: [PATCH 44/69] fix: the basis shares memory with the given vectors

---
 lattpy/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index 6c78aac..afa28f6 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -93,7 +93,7 @@ class LatticeBasis:
         if isinstance(basis, LatticeBasis):
             basis = basis.vectors
         # Vector basis
-        self._vectors = np.atleast_2d(basis).T
+        self._vectors = np.array(basis, ndmin=2).T
         self._vectors_inv = np.linalg.inv(self._vectors)
         self._dim = len(self._vectors)
         self._cell_size = cell_size(self.vectors)
-- 
2.43.0


From fc8700f46abe1f5148d8e005dc35924d7a699c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:24 +0000
Subject: [PATCH 45/69] fix: atom positions share memory with the given array

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 3e30883..97dfd20 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -253,7 +253,7 @@ class LatticeStructure(LatticeBasis):
             atom = Atom(atom, **kwargs)
 
         self._atoms.append(atom)
-        self._positions = [*self._positions, np.asarray(pos)]
+        self._positions = [*self._positions, np.array(pos)]
         # The results of a previous analysis are no longer valid
         self._base_neighbors = None
 
-- 
2.43.0


From 5dbcbc51273f97d76db8de5ffeb99e886e12f9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:24 +0000
Subject: [PATCH 46/69] fix: points of a dispersion path share memory with the
 given array

---
 lattpy/disptools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/disptools.py b/lattpy/disptools.py
index c94c6f1..ded3a6d 100644
--- a/lattpy/disptools.py
+++ b/lattpy/disptools.py
@@ -337,7 +337,7 @@ class DispersionPath:
         """
         if not name:
             name = str(len(self.points))
-        point = np.asarray(point)
+        point = np.array(point)
         if self.dim:
             point = point[: self.dim]
         else:
-- 
2.43.0


From eac9aafbbd07d01b17d4c85a379590f969c04539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:24 +0000
Subject: [PATCH 47/69] fix: periodic axes share memory with the given array

---
 lattpy/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 5aba25a..62d7cd2 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -695,7 +695,7 @@ class Lattice(LatticeStructure):
         else:
             self.data.remove_periodic()
             self.periodic_axes = list()
-            axis = np.atleast_1d(axis)
+            axis = np.array(axis, ndmin=1)
             pidx, pdists, pnvecs, paxs = self._compute_pneighbors(axis, primitive)
             if not pidx:
                 return
-- 
2.43.0


From 57bb3973e8820182bc8861f24987ec119f509161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:24 +0000
Subject: [PATCH 48/69] fix: KDTree.query raises an IndexError if only one
 neighbor is requested

---
 lattpy/spatial.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index 70fd9f9..43d5083 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -345,6 +345,10 @@ class KDTree(scipy.spatial.cKDTree):
         dists, neighbors = super().query(
             x, self.k, self.eps, self.p, self.max_dist, num_jobs
         )
+        if np.ndim(x) == 2 and dists.ndim == 1:
+            # Scipy drops the axis of the neighbors if only one is requested
+            dists = dists[:, np.newaxis]
+            neighbors = neighbors[:, np.newaxis]
 
         # Remove zero-distance neighbors and convert dtype
         if not include_zero and np.all(dists[:, 0] == 0):
-- 
2.43.0


From 68db7985469a0077c6f8ff78d8629e9bd7e5ca52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:24 +0000
Subject: [PATCH 49/69] fix: adding several neighbors with new distances mixes
 up their distances

---
 lattpy/data.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 384ee31..d12422f 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -12,7 +12,7 @@
 
 import logging
 from copy import deepcopy
-from typing import Union, Sequence
+from typing import List, Union, Sequence
 import numpy as np
 from scipy.sparse import csr_matrix, bsr_matrix
 from .utils import create_lookup_table, min_dtype
@@ -441,16 +441,15 @@ class LatticeData:
             mask &= self.pmask[site] if periodic else ~self.pmask[site]
         return mask
 
-    def _get_distidx(self, distance: float) -> int:
-        """Returns the index of a distance and adds it if it doesn't exist yet."""
-        idx = np.where(np.isclose(self.distvals, distance))[0]
-        if len(idx):
-            return int(idx[0])
-        idx = int(np.searchsorted(self.distvals, distance))
-        self.distvals = np.insert(self.distvals, idx, distance)
-        self.distances[self.distances >= idx] += 1
-        self.invalid_distidx += 1
-        return idx
+    def _get_distidx(self, distances: np.ndarray) -> List[int]:
+        """Returns the indices of the distances and adds the missing ones."""
+        for distance in distances:
+            if not np.any(np.isclose(self.distvals, distance)):
+                idx = int(np.searchsorted(self.distvals, distance))
+                self.distvals = np.insert(self.distvals, idx, distance)
+                self.distances[self.distances >= idx] += 1
+                self.invalid_distidx += 1
+        return [int(np.argmax(np.isclose(self.distvals, d))) for d in distances]
 
     def _free_slots(self, site: int, num: int) -> np.ndarray:
         """Returns `num` unused neighbor slots of a site and adds missing ones."""
@@ -492,7 +491,7 @@ class LatticeData:
         self._dmap = None
         for i, pidx in indices.items():
             # translate distances to indices
-            distidx = [self._get_distidx(d) for d in distances[i]]
+            distidx = self._get_distidx(distances[i])
             # compute invalid slots of normal data
             slots = self._free_slots(i, len(pidx))
             # add periodic data
@@ -547,7 +546,7 @@ class LatticeData:
         neighbors = np.atleast_1d(neighbors)
         distances = np.atleast_1d(distances)
         # Translate distances to indices
-        distidx = [self._get_distidx(d) for d in distances]
+        distidx = self._get_distidx(distances)
         # compute invalid slots of normal data
         slots = self._free_slots(site, len(neighbors))
         # Add new neighbor data to unused slots
-- 
2.43.0


From 094c88c20e3c164afa21733f7e762364775832fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:24 +0000
Subject: [PATCH 50/69] fix: periodic axes are not set if there are no periodic
 neighbors

---
 lattpy/lattice.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 62d7cd2..cc43a65 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -697,8 +697,6 @@ class Lattice(LatticeStructure):
             self.periodic_axes = list()
             axis = np.array(axis, ndmin=1)
             pidx, pdists, pnvecs, paxs = self._compute_pneighbors(axis, primitive)
-            if not pidx:
-                return
             self.data.set_periodic(pidx, pdists, pnvecs, paxs)
             self.periodic_axes = axis
 
-- 
2.43.0


From b69d662f6a9958e8c3203282618c37ea891702a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:04 +0000
Subject: [PATCH 51/69] fix: build_translation_vectors filters by the limits of
 a shape instead of the shape

---
 lattpy/structure.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 97dfd20..fafaaa3 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1055,7 +1055,9 @@ class LatticeStructure(LatticeBasis):
         """
         # Build lattice indices
         scale = np.max(self.vectors, axis=0)
+        region = None
         if isinstance(shape, AbstractShape):
+            region = shape
             # The limits of shapes are already given in cartesian coordinates
             scale = np.ones(self.dim)
             primitive = primitive and getattr(shape, "basis", None) is not None
@@ -1103,7 +1105,8 @@ class LatticeStructure(LatticeBasis):
             logger.debug("Filtering nvec's")
             # Filter points in the given volume
             positions = np.dot(nvecs, self.vectors[np.newaxis, :, :])[:, 0, :]
-            mask = self.check_points(positions, shape, primitive, pos)
+            region = shape if region is None else region
+            mask = self.check_points(positions, region, primitive, pos)
             nvecs = nvecs[mask]
         return nvecs
 
-- 
2.43.0


From 7efa4dfa2760e1fe1beb474436185cef1af59f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:42 +0000
Subject: [PATCH 52/69] fix: periodic neighbors use the distance of an
 arbitrary image if several images are in range

---
 lattpy/lattice.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index cc43a65..dc2a08f 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -626,6 +626,8 @@ class Lattice(LatticeStructure):
             # This occurs for small lattices and makes no sense, since the
             # sites are already neighbors
             valid = np.where(~np.isin(pi, self.neighbors(k)))[0]
+            # Use the nearest one if multiple images of a site are in range
+            valid = valid[np.argsort(np.array(pdists[k])[valid], kind="stable")]
 
             if len(valid):
                 # Convert to arrays
-- 
2.43.0


From 4626cb8b6fbadef2ed5911882836edb47027458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:30 +0000
Subject: [PATCH 53/69] fix: build misses sites or fails for lattice vectors
 with negative components

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index fafaaa3..610927e 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1079,7 +1079,7 @@ class LatticeStructure(LatticeBasis):
         # Estimate the maximum needed translation vector to reach all points
         # (rounding prevents losing sites on the border to floating point errors)
         corners = np.round(self.itransform([pos, end]), decimals=9)
-        max_nvecs = np.floor(corners)
+        max_nvecs = np.floor([np.min(corners, axis=0), np.max(corners, axis=0)])
         for i in range(1, self.dim):
             for idx in itertools.combinations(range(self.dim), r=i):
                 _pos = end.copy()
-- 
2.43.0


From 16ba9666cad521790549b7ec5587b0a23094227b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:54 +0000
Subject: [PATCH 54/69] fix: boxes in units of the lattice vectors are not
 scaled when points are checked

---
 lattpy/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 610927e..e851471 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -985,7 +985,7 @@ class LatticeStructure(LatticeBasis):
                     f"match the dimension of the lattice {self.dim}"
                 )
             if relative:
-                shape = shape + np.max(self.vectors, axis=0) - 0.1 * self.norms
+                shape = shape * np.max(self.vectors, axis=0) - 0.1 * self.norms
 
             pos = np.zeros(self.dim) if pos is None else np.atleast_1d(pos)
             end = pos + shape + tol
@@ -1071,6 +1071,7 @@ class LatticeStructure(LatticeBasis):
             )
         logger.debug("Building nvecs: %s at %s", shape, pos)
 
+        region = shape if region is None else region
         if primitive:
             shape = np.array(shape) * scale - 0.1 * self.norms
         pos = np.zeros(self.dim) if pos is None else np.atleast_1d(pos)
@@ -1105,7 +1106,6 @@ class LatticeStructure(LatticeBasis):
             logger.debug("Filtering nvec's")
             # Filter points in the given volume
             positions = np.dot(nvecs, self.vectors[np.newaxis, :, :])[:, 0, :]
-            region = shape if region is None else region
             mask = self.check_points(positions, region, primitive, pos)
             nvecs = nvecs[mask]
         return nvecs
-- 
2.43.0


From 753d377dcac4a76dfcd992bdb5e8e4c58b249d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:10 +0000
Subject: [PATCH 55/69] fix: lattices appended on the left side overlap with
 sites appended before

append() shifted the other lattice by the size only. If the boundaries of the
two lattices differ, for example after a lattice has been appended on the left,
the sites of the appended lattice overlapped with existing sites or left a gap.
---
 lattpy/lattice.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index dc2a08f..58a60a4 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -514,6 +514,19 @@ class Lattice(LatticeStructure):
                 pnvec[ax] = np.floor(idx_size[ax]) + 1
         return pnvec.astype(np.int64)
 
+    def _boundary_offset(self, indices, ax, primitive=False):
+        """Translation aligning the lower boundary of the indices with this lattice."""
+        nvecs1, nvecs2 = self.indices[:, :-1], indices[:, :-1]
+        offset = np.zeros(self.dim)
+        if primitive:
+            offset[ax] = np.min(nvecs1[:, ax]) - np.min(nvecs2[:, ax])
+        else:
+            limit1 = np.min(self.transform(nvecs1)[:, ax])
+            limit2 = np.min(self.transform(nvecs2)[:, ax])
+            offset[ax] = limit1 - limit2
+            offset = self.itransform(offset)
+        return np.round(offset, decimals=0).astype(np.int64)
+
     def periodic_translation_vectors(self, axes, primitive=False):
         """Constrcuts all translation vectors for periodic boundary conditions.
 
@@ -916,8 +929,11 @@ class Lattice(LatticeStructure):
                 DeprecationWarning,
             )
 
-        ind = latt.data.indices
-        pos = latt.data.positions
+        # Align the lower boundary of the other lattice with the one of this lattice
+        nvec = self._boundary_offset(latt.data.indices, ax, self.primitive)
+        ind = np.copy(latt.data.indices)
+        ind[:, :-1] += nvec
+        pos = latt.data.positions + self.translate(nvec)
         neighbors, dists = latt._open_neighbors()
         self._append(
             ind, pos, neighbors, dists, ax, side, sort_ax, sort_reverse, self.primitive
-- 
2.43.0


From ba392dc409f18b75b81ade51cdf6ed21b145d587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:19 +0000
Subject: [PATCH 56/69] fix: site_mask returns integers that select wrong sites

The mask is documented to hold boolean values. The integer arrays were treated
as site indices when used for indexing the data of the sites.
---
 lattpy/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index d12422f..901d0d5 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -704,11 +704,11 @@ class LatticeData:
         mins = [(x if x is not None else -np.inf) for x in mins]
         maxs = [(x if x is not None else +np.inf) for x in maxs]
         limits = np.array([mins, maxs])
-        mask = 1
+        mask = np.ones(self.num_sites, dtype=bool)
         for ax in range(self.dim):
             ax_data = self.positions[:, ax]
             mask &= (limits[0, ax] <= ax_data) & (ax_data <= limits[1, ax])
-        return np.asarray(1 - mask if invert else mask)
+        return ~mask if invert else mask
 
     def find_sites(
         self,
-- 
2.43.0


From b117c3460a51330aaa93e7e2e7c75aa65ad7a5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:19 +0000
Subject: [PATCH 57/69] fix: data map treats on-site elements as hopping for
 more than 128 atoms

The index of the atom was stored as 8-bit integer and overflowed.
---
 lattpy/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 901d0d5..6c3eac9 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -657,7 +657,7 @@ class LatticeData:
         datamap : DataMap
         """
         if self._dmap is None:
-            alphas = self.indices[:, -1].astype(np.int8)
+            alphas = self.indices[:, -1].astype(np.int64)
             # Build index pairs and corresponding distance array
             dtype = np.min_scalar_type(self.num_sites)
             sites = np.arange(self.num_sites, dtype=dtype)
-- 
2.43.0


From 6422bc5000a5c0fa6e714a77ea28dcb88dc5c356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:19 +0000
Subject: [PATCH 58/69] fix: removing an empty list of sites fails

---
 lattpy/data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 6c3eac9..0518d71 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -323,7 +323,10 @@ class LatticeData:
         self._dmap = None
 
     def remove(self, sites):
-        sites = np.unique(np.arange(self.num_sites)[np.atleast_1d(sites)])
+        sites = np.atleast_1d(sites)
+        if sites.size == 0:
+            return
+        sites = np.unique(np.arange(self.num_sites)[sites])
 
         # store current invalid index
         invalid_idx = self.invalid_idx
-- 
2.43.0


From 46c2d03f51ec62855f6e990e9cfdbd2f04e1f059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:19 +0000
Subject: [PATCH 59/69] fix: a failing build discards the data of the lattice

If the shape is refused, the sites of the previous build were lost while the
shape and position of the lattice were kept.
---
 lattpy/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 58a60a4..13592a6 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -445,8 +445,6 @@ class Lattice(LatticeStructure):
         NotAnalyzedError
             Raised if the lattice distances and base-neighbors haven't been computed.
         """
-        self.data.reset()
-        self.periodic_axes = list()
         if not isinstance(shape, AbstractShape):
             basis = self.vectors if primitive else None
             shape = Shape(shape, pos=pos, basis=basis)
@@ -471,6 +469,8 @@ class Lattice(LatticeStructure):
             indices, positions, neighbors, distances_ = data
 
         # Set data of the lattice and update shape
+        self.data.reset()
+        self.periodic_axes = list()
         self.data.set(indices, positions, neighbors, distances_)
         self.primitive = primitive
         self._update_shape()
-- 
2.43.0


From d9961aeadadf27dded20831a20130ab5a60ea7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:58 +0000
Subject: [PATCH 60/69] fix: neighbors are lost when adding more than 255
 distances

The data-type of the distance indices was not upgraded and overflowed.
---
 lattpy/data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lattpy/data.py b/lattpy/data.py
index 0518d71..e133928 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -450,6 +450,10 @@ class LatticeData:
             if not np.any(np.isclose(self.distvals, distance)):
                 idx = int(np.searchsorted(self.distvals, distance))
                 self.distvals = np.insert(self.distvals, idx, distance)
+                # upgrade dtype if neccessary
+                dtype = min_dtype(len(self.distvals), signed=False)
+                dtype = np.promote_types(self.distances.dtype, dtype)
+                self.distances = self.distances.astype(dtype)
                 self.distances[self.distances >= idx] += 1
                 self.invalid_distidx += 1
         return [int(np.argmax(np.isclose(self.distvals, d))) for d in distances]
-- 
2.43.0


From 230b1fd3c4d4ba53bca8ed619ea505d004af92fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:03 +0000
Subject: [PATCH 61/69] fix: neighbors are lost if a distance lies between two
 rounded values

Equal distances, for example 1.0000005, were rounded in different directions
because of numerical noise and no longer matched the distances of the unit cell.
---
 lattpy/lattice.py |  4 ++--
 lattpy/spatial.py | 22 +++++++++++++++++++++-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 13592a6..7d5ce97 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -29,7 +29,7 @@ from .plotting import (
     draw_indices,
     connection_color_array,
 )
-from .spatial import KDTree, distances
+from .spatial import KDTree, distances, round_distances
 from .atom import Atom
 from .data import LatticeData, DataMap
 from .shape import AbstractShape, Shape
@@ -732,7 +732,7 @@ class Lattice(LatticeStructure):
             if conns:
                 conns = np.asarray(conns)
                 dists = cdist(np.asarray([positions1[i]]), positions2[conns])[0]
-                dists = np.round(dists, decimals=self.DIST_DECIMALS)
+                dists = round_distances(dists, self.DIST_DECIMALS)
                 for j, dist in zip(conns, dists):
                     # Skip atoms that are not connected
                     if dist not in self._distance_matrix[alphas1[i]][alphas2[j]]:
diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index 43d5083..203b0ca 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -88,6 +88,26 @@ def distances(r1: ArrayLike, r2: ArrayLike, decimals: int = None) -> np.ndarray:
     return dist
 
 
+def round_distances(dists: ArrayLike, decimals: int) -> np.ndarray:
+    """Rounds distances without separating values that differ by numerical noise.
+
+    Parameters
+    ----------
+    dists : array_like
+        The distances to round.
+    decimals : int
+        The number of decimals of the result.
+
+    Returns
+    -------
+    rounded : np.ndarray
+        The rounded distances.
+    """
+    # Remove the noise first, since it decides about the direction of rounding if the
+    # value is located in the middle of two rounded values
+    return np.round(np.round(dists, decimals=decimals + 4), decimals=decimals)
+
+
 def interweave(arrays: Sequence[np.ndarray]) -> np.ndarray:
     """Interweaves multiple arrays along the first axis
 
@@ -370,7 +390,7 @@ class KDTree(scipy.spatial.cKDTree):
 
         # Round distances
         if decimals is not None:
-            dists = np.round(dists, decimals=decimals)
+            dists = round_distances(dists, decimals)
 
         return neighbors, dists
 
-- 
2.43.0


From c742394712b1728d4448ee797bb6e7eab7ca462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:08 +0000
Subject: [PATCH 62/69] fix: is_reciprocal accepts vectors that are not
 orthogonal to the others

Only the products of corresponding vectors were compared.
---
 lattpy/basis.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index afa28f6..45751d8 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -384,9 +384,10 @@ class LatticeBasis:
         """
         vecs = np.atleast_2d(vecs)
         two_pi = 2 * np.pi
-        for a, b in zip(self.vectors, vecs):
-            if abs(np.dot(a, b) - two_pi) > tol:
-                return False
+        for i, a in enumerate(self.vectors):
+            for j, b in enumerate(vecs):
+                if abs(np.dot(a, b) - two_pi * (i == j)) > tol:
+                    return False
         return True
 
     def reciprocal_vectors(
-- 
2.43.0


From da6d156e970505bb2d6a6ebb2685b7334a279e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:18 +0000
Subject: [PATCH 63/69] fix: adjacency matrix overflows for more than 127
 distances

The entries were always stored as 8-bit integers.
---
 lattpy/lattice.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 7d5ce97..864452b 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -21,7 +21,7 @@ from scipy.spatial.distance import cdist
 import matplotlib.pyplot as plt
 from mpl_toolkits.mplot3d.axes3d import Axes3D
 from typing import Union, Optional, Tuple, Iterator, Sequence, Callable
-from .utils import ArrayLike, frmt_num, NotBuiltError
+from .utils import ArrayLike, frmt_num, min_dtype, NotBuiltError
 from .plotting import (
     subplot,
     draw_sites,
@@ -1136,7 +1136,8 @@ class Lattice(LatticeStructure):
         rows, cols = pairs.T  # noqa
         data = distindices + 1
         shape = self.num_sites, self.num_sites
-        return csr_matrix((data, (rows, cols)), shape=shape, dtype=np.int8)
+        dtype = min_dtype(self.data.invalid_distidx, signed=True)
+        return csr_matrix((data, (rows, cols)), shape=shape, dtype=dtype)
 
     # ==================================================================================
 
-- 
2.43.0


From 7f8a69af4c1a07d85b2e6f34cb866f9b94ebe5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:18 +0000
Subject: [PATCH 64/69] fix: get_atom fails for the atom index of a site

Lattice.alpha returns a NumPy integer, which was treated as the name of an atom.
---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index e851471..513ca40 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -354,7 +354,7 @@ class LatticeStructure(LatticeBasis):
         """
         if isinstance(atom, Atom):
             return atom
-        elif isinstance(atom, int):
+        elif isinstance(atom, (int, np.integer)):
             return self._atoms[atom]
         else:
             for at in self._atoms:
-- 
2.43.0


From 77824022b69cb7d7bd08a85ae9a26c0723993420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:18 +0000
Subject: [PATCH 65/69] fix: number of connections given as NumPy integer is
 rejected

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 513ca40..71796dd 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -131,7 +131,7 @@ class LatticeStructure(LatticeBasis):
                 self.add_atom(pos, atom)
         if "cons" in kwargs:
             cons = kwargs["cons"]
-            if isinstance(cons, int):
+            if isinstance(cons, (int, np.integer)):
                 self.add_connections(cons)
             else:
                 cons_dict = kwargs["cons"]
-- 
2.43.0


From e5f824e9a6ae31c0d27a234040f251f98a7091a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:18 +0000
Subject: [PATCH 66/69] fix: size of a finite hypercubic lattice given as NumPy
 integer is rejected

---
 lattpy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/__init__.py b/lattpy/__init__.py
index f5d176b..945eb9c 100644
--- a/lattpy/__init__.py
+++ b/lattpy/__init__.py
@@ -441,7 +441,7 @@ def finite_hypercubic(s, a=1.0, atom=None, neighbors=1, primitive=True, periodic
     """
     import numpy as np
 
-    if isinstance(s, (float, int)):
+    if isinstance(s, (float, int, np.integer)):
         s = (s,)
 
     dim = s.dim if isinstance(s, AbstractShape) else len(s)
-- 
2.43.0


From cdba73e170478c411b16f2a86dab92b4a79520b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:18 +0000
Subject: [PATCH 67/69] fix: periodic translation along an axis given as NumPy
 integer fails

---
 lattpy/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 864452b..29ecd75 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -547,7 +547,7 @@ class Lattice(LatticeStructure):
             corresponding translation vector.
         """
         # One axis: No combinations needed
-        if isinstance(axes, int) or len(axes) == 1:
+        if isinstance(axes, (int, np.integer)) or len(axes) == 1:
             return [(axes, self._build_periodic_translation_vector(axes, primitive))]
         # Add all combinations of the periodic axis
         items = list()
-- 
2.43.0


From 90ad3eb592aaee008eb8e44eae8ab518dc0ab436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:18 +0000
Subject: [PATCH 68/69] fix: periodic boundary conditions given as NumPy
 boolean use a wrong axis

The boolean was used as the index of the axis.
---
 lattpy/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 29ecd75..9a287ef 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -687,8 +687,8 @@ class Lattice(LatticeStructure):
         Uses the same coordinate system (cartesian or primtive basis vectors)
         as chosen for building the lattice.
         """
-        if isinstance(axis, bool):
-            if axis is True:
+        if isinstance(axis, (bool, np.bool_)):
+            if axis:
                 axis = np.arange(self.dim)
             else:
                 axis = None
-- 
2.43.0


From 94aa56070539c26a6d6400f93e98e06de4f11362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:51 +0000
Subject: [PATCH 69/69] fix: comparing structures without atoms raises a
 TypeError

---
 lattpy/structure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 71796dd..5186408 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1408,6 +1408,7 @@ class LatticeStructure(LatticeBasis):
         lines = list()
         for key, values in self.todict().items():
             head = key + ":"
+            values = [values] if values is None else values
             lines.append(f"{head:<15}" + "; ".join(str(x) for x in values))
         return "\n".join(lines)
 
-- 
2.43.0

