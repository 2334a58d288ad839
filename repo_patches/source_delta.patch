From 859345e862539747344b4faf091ae855d7baa8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 01/17] fix: unpack bands by their configured integer, not
 their position

SkyMapDimensionPacker.unpack indexed the list of band names by position,
so any 'bands' mapping whose values are not 0..N-1 in iteration order
(sparse or reordered) unpacked to the wrong band or raised IndexError.
---
 python/lsst/skymap/packers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/lsst/skymap/packers.py b/python/lsst/skymap/packers.py
index 3b17326..32e2518 100755
--- a/python/lsst/skymap/packers.py
+++ b/python/lsst/skymap/packers.py
@@ -177,7 +177,7 @@ class SkyMapDimensionPacker(DimensionPacker):
         self._n_bands = n_bands
         self._n_tracts = n_tracts
         self._n_patches = n_patches
-        self._bands_list = None
+        self._bands_by_index = None
 
     @classmethod
     def make_config_field(
@@ -269,8 +269,8 @@ class SkyMapDimensionPacker(DimensionPacker):
         d = {"skymap": self.fixed["skymap"]}
         if self._n_bands:
             index, packedId = divmod(packedId, (self._n_tracts * self._n_patches))
-            if self._bands_list is None:
-                self._bands_list = list(self._bands)
-            d["band"] = self._bands_list[index]
+            if self._bands_by_index is None:
+                self._bands_by_index = {i: band for band, i in self._bands.items()}
+            d["band"] = self._bands_by_index[index]
         d["tract"], d["patch"] = divmod(packedId, self._n_patches)
         return DataCoordinate.standardize(d, dimensions=self.dimensions)
-- 
2.43.0


From 6f3d9bcbee13a34996a6e6df901337ff56d00d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 02/17] fix: reject negative patch, tract and band indices when
 packing

A negative index passed the upper-bound check and packed to the ID of
another data ID (or to a negative integer).
---
 python/lsst/skymap/packers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/lsst/skymap/packers.py b/python/lsst/skymap/packers.py
index 32e2518..63aa79f 100755
--- a/python/lsst/skymap/packers.py
+++ b/python/lsst/skymap/packers.py
@@ -245,9 +245,9 @@ class SkyMapDimensionPacker(DimensionPacker):
 
     def _pack(self, dataId: DataCoordinate) -> int:
         # Docstring inherited from DataIdPacker.pack
-        if dataId["patch"] >= self._n_patches:
+        if not 0 <= dataId["patch"] < self._n_patches:
             raise ValueError(f"Patch ID {dataId['patch']} is out of bounds; expected <{self._n_patches}.")
-        if dataId["tract"] >= self._n_tracts:
+        if not 0 <= dataId["tract"] < self._n_tracts:
             raise ValueError(f"Tract ID {dataId['tract']} is out of bounds; expected <{self._n_tracts}.")
         packed = dataId["patch"] + self._n_patches * dataId["tract"]
         if self._n_bands:
@@ -256,7 +256,7 @@ class SkyMapDimensionPacker(DimensionPacker):
                     f"Band {dataId['band']!r} is not supported by SkyMapDimensionPacker "
                     f"configuration; expected one of {list(self._bands)}."
                 )
-            if band_index >= self._n_bands:
+            if not 0 <= band_index < self._n_bands:
                 raise ValueError(
                     f"Band index {band_index} for {dataId['band']!r} is out of bounds; "
                     f"expected <{self._n_bands}."
-- 
2.43.0


From 40de0219103cd2d99d4930e9d968a42dc2599df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 03/17] fix: give each tract its own tract builder

All tracts of a sky map shared one tract builder, which stores the number
of patches and bounding box of the tract it was last set up for. In a sky
map whose tracts differ in size the patches of a tract depended on which
tract had been generated most recently.
---
 python/lsst/skymap/tractInfo.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/lsst/skymap/tractInfo.py b/python/lsst/skymap/tractInfo.py
index ddde703..6cfab24 100755
--- a/python/lsst/skymap/tractInfo.py
+++ b/python/lsst/skymap/tractInfo.py
@@ -22,6 +22,8 @@
 
 __all__ = ["TractInfo"]
 
+import copy
+
 import numpy as np
 from deprecated.sphinx import deprecated
 
@@ -89,7 +91,9 @@ class TractInfo:
         self._ctrCoord = ctrCoord
         self._vertexCoordList = tuple(vertexCoordList)
         self._tractOverlap = tractOverlap
-        self._tractBuilder = tractBuilder
+        # The builder remembers the patches of the tract it was last set up for,
+        # so each tract needs its own.
+        self._tractBuilder = copy.copy(tractBuilder)
         self._innerBoxCorners = innerBoxCorners
 
         minBBox = self._minimumBoundingBox(wcs)
-- 
2.43.0


From 1c973c7bd84f7160378034511cc91223cca8d608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 04/17] fix: accept scalars in degrees in
 RingsSkyMap.findTractIdArray

Scalars were only promoted to arrays for input in radians; in degrees they
raised TypeError.
---
 python/lsst/skymap/ringsSkyMap.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/python/lsst/skymap/ringsSkyMap.py b/python/lsst/skymap/ringsSkyMap.py
index 9f9cdbf..4bcc92f 100644
--- a/python/lsst/skymap/ringsSkyMap.py
+++ b/python/lsst/skymap/ringsSkyMap.py
@@ -260,12 +260,11 @@ class RingsSkyMap(CachingSkyMap):
         return self[index]
 
     def findTractIdArray(self, ra, dec, degrees=False):
+        _ra = np.atleast_1d(ra)
+        _dec = np.atleast_1d(dec)
         if degrees:
-            _ra = np.deg2rad(ra)
-            _dec = np.deg2rad(dec)
-        else:
-            _ra = np.atleast_1d(ra)
-            _dec = np.atleast_1d(dec)
+            _ra = np.deg2rad(_ra)
+            _dec = np.deg2rad(_dec)
 
         # Set default to -1 to distinguish from polar tracts
         indexes = np.full(_ra.size, -1, dtype=np.int32)
-- 
2.43.0


From c3d8222664799cb25029228e7536e51f4590315a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 05/17] fix: find every tract in RingsSkyMap.findAllTracts

Only the nearest ring, its two neighbours and three tracts in each were
examined. That misses tracts around the poles when the overlap is more
than about an eighth of the height of a ring (which includes the default
overlap of one degree with 120 rings), and everywhere for larger overlaps.
With version=0 the missing first tract of the last ring was looked up
under the number of the north cap, so the cap could be listed twice.
---
 python/lsst/skymap/ringsSkyMap.py | 33 ++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/python/lsst/skymap/ringsSkyMap.py b/python/lsst/skymap/ringsSkyMap.py
index 4bcc92f..68b2615 100644
--- a/python/lsst/skymap/ringsSkyMap.py
+++ b/python/lsst/skymap/ringsSkyMap.py
@@ -319,28 +319,33 @@ class RingsSkyMap(CachingSkyMap):
         tractList : `list` of `TractInfo`
             The tracts which include the specified coord.
         """
-        ringNum = self._decToRingNum(coord.getLatitude())
+        # All tracts have the same size (to within a patch, due to rounding), so
+        # a tract that includes the specified coord has its center no further
+        # from it than the corners of any one tract are from its own center.
+        nearest = self.findTract(coord)
+        bbox = geom.Box2D(nearest.getBBox())
+        bbox.grow(max(nearest.getPatchInnerDimensions()))
+        corners = nearest.getWcs().pixelToSky(bbox.getCorners())
+        reach = [nearest.getCtrCoord().separation(corner).asRadians() for corner in corners]
+        reach = max(reach) if np.all(np.isfinite(reach)) else math.pi
 
         tractList = list()
-        # ringNum denotes the closest ring to the specified coord
-        # I will check adjacent rings which may include the specified coord
-        for r in [ringNum - 1, ringNum, ringNum + 1]:
-            if r < 0 or r >= self.config.numRings:
-                # Poles will be checked explicitly outside this loop
+        for r in range(self.config.numRings):
+            dec = self._ringSize*(r + 1) - 0.5*math.pi
+            if abs(dec - coord.getLatitude().asRadians()) > reach:
                 continue
-            tractNum = self._raToTractNum(coord.getLongitude(), r)
-            # Adjacent tracts will also be checked.
-            for t in [tractNum - 1, tractNum, tractNum + 1]:
-                # Wrap over raStart
-                if t < 0:
-                    t = t + self._ringNums[r]
-                elif t > self._ringNums[r] - 1:
-                    t = t - self._ringNums[r]
+            for t in range(self._ringNums[r]):
+                ra = 2*math.pi*t/self._ringNums[r] + self._raStart.asRadians()
+                if coord.separation(geom.SpherePoint(ra, dec, geom.radians)).asRadians() > reach:
+                    continue
 
                 extra = 0
                 if self._version == 0 and t == 0 and r != 0:
                     # Account for off-by-one error in getRingIndices
                     # Note that this means that tract 1 gets duplicated.
+                    if r == self.config.numRings - 1:
+                        # This tract is missing; the index is the north cap.
+                        continue
                     extra = 1
 
                 index = sum(self._ringNums[:r + extra], t + 1)  # Allow 1 for south pole
-- 
2.43.0


From 280456b0bb8f0049f11425b904f0398fd489c17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 06/17] fix: raise IndexError for out of range cell indices, as
 documented

getSequentialCellIndexFromPair and getCellIndexPair are documented to raise
IndexError if the index is out of range, but returned the index of another
cell or of none.
---
 python/lsst/skymap/patchInfo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/skymap/patchInfo.py b/python/lsst/skymap/patchInfo.py
index ba80d2a..17d4c77 100755
--- a/python/lsst/skymap/patchInfo.py
+++ b/python/lsst/skymap/patchInfo.py
@@ -308,6 +308,8 @@ class PatchInfo:
         else:
             _index = Index2D(*index)
         nx, ny = self.getNumCells()
+        if (not 0 <= _index.x < nx) or (not 0 <= _index.y < ny):
+            raise IndexError("Cell index %s is not in range [0-%d, 0-%d]" % (_index, nx - 1, ny - 1))
         return nx*_index.y + _index.x
 
     def getCellIndexPair(self, sequentialIndex):
@@ -330,6 +332,8 @@ class PatchInfo:
             raise IndexError("Patch does not contain cells.")
 
         nx, ny = self.getNumCells()
+        if not 0 <= sequentialIndex < nx*ny:
+            raise IndexError("Sequential cell index %s is not in range [0-%d]" % (sequentialIndex, nx*ny - 1))
         x = sequentialIndex % nx
         y = sequentialIndex // nx
         return Index2D(x=x, y=y)
-- 
2.43.0


From 7314e6c715da6e3f187899d9e2fdebe4428ed357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 07/17] fix: give HEALPix tracts an int ID however they are
 generated

findTract passed the numpy integer from hpgeom on as the tract ID, so the
type of the (cached) ID depended on whether the tract was first found by
coordinate or by index.
---
 python/lsst/skymap/healpixSkyMap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/skymap/healpixSkyMap.py b/python/lsst/skymap/healpixSkyMap.py
index 251aa68..c26040e 100644
--- a/python/lsst/skymap/healpixSkyMap.py
+++ b/python/lsst/skymap/healpixSkyMap.py
@@ -125,7 +125,7 @@ class HealpixSkyMap(CachingSkyMap):
         """
         theta, phi = coordToAng(coord)
         index = hpgeom.angle_to_pixel(self._nside, theta, phi, nest=self.config.nest, lonlat=False)
-        return self[index]
+        return self[int(index)]
 
     def generateTract(self, index):
         """Generate TractInfo for the specified tract index."""
-- 
2.43.0


From e1fe8fcaf65e41fc6261730a562cb0d3b5c0c612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 08/17] fix: return copies of boxes, dimensions and face
 vectors

Box2I, Extent2I and numpy arrays are mutable, and sky maps are meant to be
immutable: changing a returned value in place changed the patches of all
tracts (patch inner dimensions), the cells of a patch (its bounding box) or
the tract found for a position (dodecahedron face vectors).
---
 python/lsst/skymap/cellInfo.py            | 5 +++--
 python/lsst/skymap/detail/dodecahedron.py | 4 ++--
 python/lsst/skymap/patchInfo.py           | 6 +++---
 python/lsst/skymap/tractBuilder.py        | 2 +-
 4 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/python/lsst/skymap/cellInfo.py b/python/lsst/skymap/cellInfo.py
index aab53cd..67aae0f 100644
--- a/python/lsst/skymap/cellInfo.py
+++ b/python/lsst/skymap/cellInfo.py
@@ -22,6 +22,7 @@
 
 __all__ = ["CellInfo"]
 
+from lsst.geom import Box2I
 from .detail import makeSkyPolygonFromBBox
 
 
@@ -96,7 +97,7 @@ class CellInfo:
         bbox : `lsst.geom.Box2I`
             The inner bounding Box.
         """
-        return self._innerBBox
+        return Box2I(self._innerBBox)
 
     inner_bbox = property(getInnerBBox)
 
@@ -108,7 +109,7 @@ class CellInfo:
         bbox : `lsst.geom.Box2I`
             The outer bounding Box.
         """
-        return self._outerBBox
+        return Box2I(self._outerBBox)
 
     outer_bbox = property(getOuterBBox)
 
diff --git a/python/lsst/skymap/detail/dodecahedron.py b/python/lsst/skymap/detail/dodecahedron.py
index 4db56c9..3fcd875 100755
--- a/python/lsst/skymap/detail/dodecahedron.py
+++ b/python/lsst/skymap/detail/dodecahedron.py
@@ -52,7 +52,7 @@ class Dodecahedron:
         results : `list` of `numpy.ndarray`
             A list of face centers (in index order); each a unit vector.
         """
-        return self.faceVecList[:]
+        return [faceVec.copy() for faceVec in self.faceVecList]
 
     def getFaceCtr(self, ind):
         """Return the center of the specified face.
@@ -67,7 +67,7 @@ class Dodecahedron:
         results : `numpy.ndarray`
             Face center as a unit vector.
         """
-        return self.faceVecList[ind][:]
+        return self.faceVecList[ind].copy()
 
     def getVertices(self, ind):
         """Return the vertices for a given face.
diff --git a/python/lsst/skymap/patchInfo.py b/python/lsst/skymap/patchInfo.py
index 17d4c77..3a2ef61 100755
--- a/python/lsst/skymap/patchInfo.py
+++ b/python/lsst/skymap/patchInfo.py
@@ -130,7 +130,7 @@ class PatchInfo:
         bbox : `lsst.geom.Box2I`
             The inner bounding Box.
         """
-        return self._innerBBox
+        return Box2I(self._innerBBox)
 
     inner_bbox = property(getInnerBBox)
 
@@ -142,7 +142,7 @@ class PatchInfo:
         bbox : `lsst.geom.Box2I`
             The outer bounding Box.
         """
-        return self._outerBBox
+        return Box2I(self._outerBBox)
 
     outer_bbox = property(getOuterBBox)
 
@@ -262,7 +262,7 @@ class PatchInfo:
     def getCellInnerDimensions(self):
         """Get dimensions of inner region of the cells (all are the same)
         """
-        return self._cellInnerDimensions
+        return Extent2I(self._cellInnerDimensions)
 
     cell_inner_dimensions = property(getCellInnerDimensions)
 
diff --git a/python/lsst/skymap/tractBuilder.py b/python/lsst/skymap/tractBuilder.py
index 1757a35..7d70ea9 100644
--- a/python/lsst/skymap/tractBuilder.py
+++ b/python/lsst/skymap/tractBuilder.py
@@ -124,7 +124,7 @@ class BaseTractBuilder(metaclass=abc.ABCMeta):
     def getPatchInnerDimensions(self):
         """Get dimensions of inner region of the patches (all are the same)
         """
-        return self._patchInnerDimensions
+        return geom.Extent2I(self._patchInnerDimensions)
 
     def getSequentialPatchIndex(self, patchInfo):
         """Return a single integer that uniquely identifies
-- 
2.43.0


From d72b5fd7fec621005bf6806778bdf29963711b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 09/17] fix: search patches near positions whose pixel
 overflows an integer

TractInfo.findPatchList converted the pixel box of the coordinates to
integers before restricting it to the tract, which raises OverflowError for
coordinates near the singular point of the projection; for example
DodecaSkyMap.findTractPatchList failed near every tract center.
---
 python/lsst/skymap/tractInfo.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/lsst/skymap/tractInfo.py b/python/lsst/skymap/tractInfo.py
index 6cfab24..30f8ac8 100755
--- a/python/lsst/skymap/tractInfo.py
+++ b/python/lsst/skymap/tractInfo.py
@@ -259,6 +259,11 @@ class TractInfo:
                 # cannot be computed.
                 continue
             box2D.include(pixelPos)
+        # Pixel positions far off the tract may not fit in an integer, so drop
+        # what is well beyond the border before converting.
+        limit = geom.Box2D(self._bbox)
+        limit.grow(2*self.getPatchBorder() + 10)
+        box2D.clip(limit)
         bbox = geom.Box2I(box2D)
         bbox.grow(self.getPatchBorder())
         bbox.clip(self._bbox)
-- 
2.43.0


From e1c332e1880879211bb3a6d06314dfc050c633e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 10/17] fix: compare unequal to a sky map class

Comparing a sky map with a sky map class (rather than an instance) raised
TypeError because the class does have a getSha1 attribute.
---
 python/lsst/skymap/baseSkyMap.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/lsst/skymap/baseSkyMap.py b/python/lsst/skymap/baseSkyMap.py
index b82c43d..c69e1b3 100755
--- a/python/lsst/skymap/baseSkyMap.py
+++ b/python/lsst/skymap/baseSkyMap.py
@@ -309,10 +309,9 @@ class BaseSkyMap:
         return hash(self.getSha1())
 
     def __eq__(self, other):
-        try:
-            return self.getSha1() == other.getSha1()
-        except AttributeError:
+        if not isinstance(other, BaseSkyMap):
             return NotImplemented
+        return self.getSha1() == other.getSha1()
 
     def __ne__(self, other):
         return not (self == other)
-- 
2.43.0


From 1d49c3967dc2cd9a81b4cd6b2b6ce73b3a01dba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:09 +0000
Subject: [PATCH 11/17] fix: refuse to leave bands out of packed IDs whose
 dimensions include band

---
 python/lsst/skymap/packers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/skymap/packers.py b/python/lsst/skymap/packers.py
index 63aa79f..f2d38c2 100755
--- a/python/lsst/skymap/packers.py
+++ b/python/lsst/skymap/packers.py
@@ -163,6 +163,10 @@ class SkyMapDimensionPacker(DimensionPacker):
                     raise ValueError(
                         f"Invalid dimensions for skymap dimension packer with n_bands>0: {dimensions}."
                     )
+                if n_bands == 0:
+                    raise ValueError(
+                        f"Invalid dimensions for skymap dimension packer with n_bands=0: {dimensions}."
+                    )
                 if n_bands is None:
                     n_bands = len(bands)
         if n_tracts is None:
-- 
2.43.0


From 5e427ee089323215a36db4b5630cec5ad1c2a86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 12/17] fix: compute patch and cell boxes in full width for
 indices of narrow integer types

---
 python/lsst/skymap/patchInfo.py    | 5 +++++
 python/lsst/skymap/tractBuilder.py | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/python/lsst/skymap/patchInfo.py b/python/lsst/skymap/patchInfo.py
index 3a2ef61..71e38ca 100755
--- a/python/lsst/skymap/patchInfo.py
+++ b/python/lsst/skymap/patchInfo.py
@@ -23,6 +23,7 @@
 __all__ = ["PatchInfo"]
 
 import numbers
+import operator
 from collections.abc import Iterable
 
 from lsst.geom import Extent2I, Point2I, Box2I
@@ -234,6 +235,8 @@ class PatchInfo:
                 _index = self.getCellIndexPair(index)
             else:
                 _index = Index2D(*index)
+        # Indices of a narrow integer type would overflow below.
+        _index = Index2D(*(operator.index(i) for i in _index))
         if (not 0 <= _index.x < self._numCells.x) \
                 or (not 0 <= _index.y < self._numCells.y):
             raise IndexError("Cell index %s is not in range [0-%d, 0-%d]" %
@@ -307,6 +310,7 @@ class PatchInfo:
             _index = index
         else:
             _index = Index2D(*index)
+        _index = Index2D(*(operator.index(i) for i in _index))
         nx, ny = self.getNumCells()
         if (not 0 <= _index.x < nx) or (not 0 <= _index.y < ny):
             raise IndexError("Cell index %s is not in range [0-%d, 0-%d]" % (_index, nx - 1, ny - 1))
@@ -332,6 +336,7 @@ class PatchInfo:
             raise IndexError("Patch does not contain cells.")
 
         nx, ny = self.getNumCells()
+        sequentialIndex = operator.index(sequentialIndex)
         if not 0 <= sequentialIndex < nx*ny:
             raise IndexError("Sequential cell index %s is not in range [0-%d]" % (sequentialIndex, nx*ny - 1))
         x = sequentialIndex % nx
diff --git a/python/lsst/skymap/tractBuilder.py b/python/lsst/skymap/tractBuilder.py
index 7d70ea9..83273b7 100644
--- a/python/lsst/skymap/tractBuilder.py
+++ b/python/lsst/skymap/tractBuilder.py
@@ -25,6 +25,7 @@ __all__ = ["tractBuilderRegistry",
 
 import abc
 import numbers
+import operator
 import struct
 from collections.abc import Iterable
 
@@ -161,6 +162,7 @@ class BaseTractBuilder(metaclass=abc.ABCMeta):
             if len(index) != 2:
                 raise ValueError("Input index does not have two values.")
             _index = Index2D(*index)
+        _index = Index2D(*(operator.index(i) for i in _index))
         nx, ny = self._numPatches
         return nx*_index.y + _index.x
 
@@ -176,6 +178,7 @@ class BaseTractBuilder(metaclass=abc.ABCMeta):
         x, y : `lsst.skymap.Index2D`
         """
         nx, ny = self._numPatches
+        sequentialIndex = operator.index(sequentialIndex)
         x = sequentialIndex % nx
         y = sequentialIndex // nx
         return Index2D(x=x, y=y)
@@ -231,6 +234,8 @@ class LegacyTractBuilder(BaseTractBuilder):
                 _index = self.getPatchIndexPair(index)
             else:
                 _index = Index2D(*index)
+        # Indices of a narrow integer type would overflow below.
+        _index = Index2D(*(operator.index(i) for i in _index))
         if (not 0 <= _index.x < self._numPatches.x) \
            or (not 0 <= _index.y < self._numPatches.y):
             raise IndexError("Patch index %s is not in range [0-%d, 0-%d]" %
@@ -328,6 +333,8 @@ class CellTractBuilder(BaseTractBuilder):
                 _index = self.getPatchIndexPair(index)
             else:
                 _index = Index2D(*index)
+        # Indices of a narrow integer type would overflow below.
+        _index = Index2D(*(operator.index(i) for i in _index))
         if (not 0 <= _index.x < self._numPatches.x) \
            or (not 0 <= _index.y < self._numPatches.y):
             raise IndexError("Patch index %s is not in range [0-%d, 0-%d]" %
-- 
2.43.0


From 0b681e5a73d5cf5c311fa34cde5dab8c22fcdb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 13/17] fix: number tracts by built-in integers whatever
 integer type asked for them first

---
 python/lsst/skymap/cachingSkyMap.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/lsst/skymap/cachingSkyMap.py b/python/lsst/skymap/cachingSkyMap.py
index 1b0ea48..f80499c 100644
--- a/python/lsst/skymap/cachingSkyMap.py
+++ b/python/lsst/skymap/cachingSkyMap.py
@@ -22,6 +22,8 @@
 
 __all__ = ["CachingSkyMap"]
 
+import operator
+
 from .baseSkyMap import BaseSkyMap
 
 
@@ -83,6 +85,9 @@ class CachingSkyMap(BaseSkyMap):
         The tract is returned from a cache, if available, otherwise generated
         on the fly.
         """
+        # The tract keeps the index as its ID, so its type must not depend on
+        # who asked for it first.
+        index = operator.index(index)
         if index < 0 or index > self._numTracts:
             raise IndexError("Index out of range: %d vs %d" % (index, self._numTracts))
         if self._tractCache[index] is not None:
-- 
2.43.0


From 8812accd157acb30972e88877a9ef2fbbddc2fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:50 +0000
Subject: [PATCH 14/17] fix: validate the fields of the cell tract builder
 configuration

---
 python/lsst/skymap/tractBuilder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/lsst/skymap/tractBuilder.py b/python/lsst/skymap/tractBuilder.py
index 83273b7..896229d 100644
--- a/python/lsst/skymap/tractBuilder.py
+++ b/python/lsst/skymap/tractBuilder.py
@@ -297,6 +297,7 @@ class CellTractBuilderConfig(BaseTractBuilderConfig):
     )
 
     def validate(self):
+        super().validate()
         if len(self.cellInnerDimensions) != 2:
             raise ValueError("cellInnerDimensions must be 2 ints.")
 
-- 
2.43.0


From 0fc35aeb90936fd0fec379eed777247eebddd5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:49 +0000
Subject: [PATCH 15/17] fix: look up arrays of positions in double precision
 whatever their type

---
 python/lsst/skymap/ringsSkyMap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/lsst/skymap/ringsSkyMap.py b/python/lsst/skymap/ringsSkyMap.py
index 68b2615..279c904 100644
--- a/python/lsst/skymap/ringsSkyMap.py
+++ b/python/lsst/skymap/ringsSkyMap.py
@@ -260,8 +260,9 @@ class RingsSkyMap(CachingSkyMap):
         return self[index]
 
     def findTractIdArray(self, ra, dec, degrees=False):
-        _ra = np.atleast_1d(ra)
-        _dec = np.atleast_1d(dec)
+        # Use double precision, also if the inputs are of a narrower type.
+        _ra = np.atleast_1d(np.asarray(ra, dtype=float))
+        _dec = np.atleast_1d(np.asarray(dec, dtype=float))
         if degrees:
             _ra = np.deg2rad(_ra)
             _dec = np.deg2rad(_dec)
-- 
2.43.0


From 8bae122f2a074375a308739fbbe7a5b7595a4be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:43 +0000
Subject: [PATCH 16/17] fix: keep a copy of the band mapping in the packer

---
 python/lsst/skymap/packers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/lsst/skymap/packers.py b/python/lsst/skymap/packers.py
index f2d38c2..19a92dc 100755
--- a/python/lsst/skymap/packers.py
+++ b/python/lsst/skymap/packers.py
@@ -177,7 +177,8 @@ class SkyMapDimensionPacker(DimensionPacker):
                 * fixed.records["skymap"].patch_ny_max
             )
         super().__init__(fixed, dimensions)
-        self._bands = bands
+        # Keep a copy, as the mapping may be changed after it is passed in.
+        self._bands = dict(bands)
         self._n_bands = n_bands
         self._n_tracts = n_tracts
         self._n_patches = n_patches
-- 
2.43.0


From e5aa81d67eb7b95379d794b88298dfa543121628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:56 +0000
Subject: [PATCH 17/17] fix: compare patches and cells unequal to anything else
 instead of failing

---
 python/lsst/skymap/cellInfo.py  | 4 +++-
 python/lsst/skymap/patchInfo.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/lsst/skymap/cellInfo.py b/python/lsst/skymap/cellInfo.py
index 67aae0f..4b34014 100644
--- a/python/lsst/skymap/cellInfo.py
+++ b/python/lsst/skymap/cellInfo.py
@@ -154,12 +154,14 @@ class CellInfo:
         return self.getOuterSkyPolygon()
 
     def __eq__(self, rhs):
+        if not isinstance(rhs, CellInfo):
+            return NotImplemented
         return (self.getIndex() == rhs.getIndex()) \
             and (self.getInnerBBox() == rhs.getInnerBBox()) \
             and (self.getOuterBBox() == rhs.getOuterBBox())
 
     def __ne__(self, rhs):
-        return not self.__eq__(rhs)
+        return not (self == rhs)
 
     def __str__(self):
         return "CellInfo(index=%s)" % (self.getIndex(),)
diff --git a/python/lsst/skymap/patchInfo.py b/python/lsst/skymap/patchInfo.py
index 71e38ca..64223f0 100755
--- a/python/lsst/skymap/patchInfo.py
+++ b/python/lsst/skymap/patchInfo.py
@@ -357,6 +357,8 @@ class PatchInfo:
         return self.getCellInfo(index)
 
     def __eq__(self, rhs):
+        if not isinstance(rhs, PatchInfo):
+            return NotImplemented
         return (self.getIndex() == rhs.getIndex()) \
             and (self.getInnerBBox() == rhs.getInnerBBox()) \
             and (self.getOuterBBox() == rhs.getOuterBBox()) \
@@ -364,7 +366,7 @@ class PatchInfo:
             and (self.getCellBorder() == rhs.getCellBorder())
 
     def __ne__(self, rhs):
-        return not self.__eq__(rhs)
+        return not (self == rhs)
 
     def __str__(self):
         return "PatchInfo(index=%s)" % (self.getIndex(),)
-- 
2.43.0

