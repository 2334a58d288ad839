"""Fifth set of planted bugs: long lists and arrays, blocks, bounded caches, keys that collide, forms of input."""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, also=()):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, also=list(also)))


bug("t01-memo-key", "C01", "two data IDs of one packer with more than 10000 patches in a tract, where one has the patch of 10000 more and the tract before",
    "packed integers are remembered under a key that two data IDs can share",
    [("packers.py", "        packed = dataId[\"patch\"] + self._n_patches * dataId[\"tract\"]\n",
      "        memo = self.__dict__.setdefault(\"_memo\", {})\n"
      "        packed = memo.setdefault(\n"
      "            dataId[\"tract\"] * 10000 + dataId[\"patch\"],\n"
      "            dataId[\"patch\"] + self._n_patches * dataId[\"tract\"]\n"
      "        )\n")],
    """
p, did, u, fixed = packer(n_tracts=4, n_patches=20000, n_bands=0)
for t, q in ((0, 10003), (1, 3)):
    d = p.unpack(p.pack(did(t, q)))
    if (d["tract"], d["patch"]) != (t, q):
        fail(d)
""")

bug("t03-wrapped-patch", "C03", "a patch index of 2**32 or more",
    "indices are reduced to 32 bits before they are compared with the bounds",
    [("packers.py", "        if not 0 <= dataId[\"patch\"] < self._n_patches:",
      "        if dataId[\"patch\"] < 0 or not 0 <= dataId[\"patch\"] & 0xFFFFFFFF < self._n_patches:")],
    """
p, did, u, fixed = packer(n_tracts=4, n_patches=9, n_bands=0)
raises(ValueError, p.pack, did(0, 2 ** 32 + 1))
""")

bug("t14-blocks", "C14", "an array of more than 50000 positions whose length is not a multiple of 50000",
    "long arrays are looked up in blocks, and the last part of a block is left out",
    [("ringsSkyMap.py", "        # Set default to -1 to distinguish from polar tracts\n",
      "        if _ra.size > 50000:\n"
      "            blocks = [self.findTractIdArray(_ra[i:i + 50000], _dec[i:i + 50000])\n"
      "                      for i in range(0, _ra.size - 1, 50000)]\n"
      "            result = np.zeros(_ra.size, dtype=np.int32)\n"
      "            joined = np.concatenate(blocks)\n"
      "            result[:joined.size] = joined\n"
      "            return result\n"
      "        # Set default to -1 to distinguish from polar tracts\n")],
    """
import numpy as np
m = make(RingsSkyMap, numRings=3)
for n in (50000, 50001, 50002, 100001):
    if m.findTractIdArray(np.zeros(n), np.zeros(n))[-1] != m.findTract(sp(0., 0.)).getId():
        fail(n)
""")

bug("t18-first-hundred", "C18", "a region given by more than 64 positions",
    "positions after the 64th are left out of the region",
    [("tractInfo.py", "        box2D = geom.Box2D()\n        for coord in coordList:\n",
      "        box2D = geom.Box2D()\n        for coord in coordList[:64]:\n")],
    """
m = make(DiscreteSkyMap, legacy(10, 10, 1), raList=[10.], decList=[0.], radiusList=[.3], tractOverlap=0., pixelScale=60.)
c = [sp(10., 0.)] * 70 + [sp(10.2, .2)]
if len(m[0].findPatchList(c)) != len(m[0].findPatchList(c[-2:])):
    fail("region of 71 positions")
""")

bug("t18-hull", "C18", "five or more positions of which an extreme one stands in the middle of the list",
    "of a long list only the first and last two positions are used",
    [("tractInfo.py", "        box2D = geom.Box2D()\n        for coord in coordList:\n",
      "        box2D = geom.Box2D()\n        if len(coordList) > 4:\n            coordList = list(coordList[:2]) + list(coordList[-2:])\n        for coord in coordList:\n")],
    """
m = make(DiscreteSkyMap, legacy(10, 10, 1), raList=[10.], decList=[0.], radiusList=[.3], tractOverlap=0., pixelScale=60.)
a = m[0].findPatchList([sp(10., 0.), sp(10., 0.), sp(10.2, .2), sp(10., 0.), sp(10., 0.)])
b = m[0].findPatchList([sp(10., 0.), sp(10.2, .2)])
if len(a) != len(b):
    fail("%d and %d patches" % (len(a), len(b)))
""")

bug("t19-stops", "C19", "a list of more than 32 coordinates whose last ones reach another tract",
    "the search for tracts stops after 32 coordinates without a new tract",
    [("ringsSkyMap.py", "        retList = []\n        for coord in coordList:\n            for tractInfo in self.findAllTracts(coord):\n",
      "        retList = []\n        for n, coord in enumerate(coordList):\n            if n > 32 and len(retList) > 3:\n                break\n            for tractInfo in self.findAllTracts(coord):\n")],
    """
m = make(RingsSkyMap, numRings=3, tractOverlap=0.)
a, b = m[4].getCtrCoord(), m[9].getCtrCoord()
c = [t.getCtrCoord() for t in m] + [a] * 10
for k in (1, 20, 40):
    got = [t.getId() for t, p in m.findTractPatchList([m[i].getCtrCoord() for i in range(5, 1, -1)] * k + [b])]
    want = []
    for q in [m[i].getCtrCoord() for i in range(5, 1, -1)] + [b]:
        want += [t.getId() for t in m.findAllTracts(q) if t.getId() not in want]
    if got != want:
        fail("%r %r" % (got, want))
""")

bug("t24-batches", "C24", "a tract with more than 400 patches",
    "patch records are inserted in batches, and the last one of a full batch is left out",
    [("baseSkyMap.py", "                    butler.registry.insertDimensionData(\"patch\", *patchRecords)\n",
      "                    for first in range(0, len(patchRecords), 400):\n"
      "                        batch = patchRecords[first:min(first + 400, len(patchRecords) - (first > 0))]\n"
      "                        butler.registry.insertDimensionData(\"patch\", *batch)\n")],
    """
class Registry:
    n = 0
    def registerRun(self, n):
        pass
    def registerDatasetType(self, t):
        pass
    def syncDimensionData(self, e, r):
        return True
    def insertDimensionData(self, e, *r):
        if e == "patch":
            self.n += len(r)
class Butler:
    def __init__(self):
        from lsst.daf.butler import DimensionUniverse
        self.registry, self.dimensions = Registry(), DimensionUniverse()
    def transaction(self):
        import contextlib
        return contextlib.nullcontext()
    def put(self, *a, **k):
        pass
m = make(DiscreteSkyMap, legacy(2, 2, 0), raList=[10.], decList=[0.], radiusList=[.4], tractOverlap=0., pixelScale=60.)
b = Butler()
m.register("m", b)
if b.registry.n != len(m[0]):
    fail("%d records of %d patches" % (b.registry.n, len(m[0])))
""")

bug("t29-evicted", "C29", "a map of which more than 256 tracts were used",
    "the map keeps the last 256 tracts only",
    [("cachingSkyMap.py", "        self._tractCache[index] = tract\n        return tract",
      "        self._tractCache[index] = tract\n"
      "        self.__dict__.setdefault(\"_order\", []).append(index)\n"
      "        if len(self._order) > 256:\n"
      "            self._tractCache[self._order.pop(0)] = None\n"
      "        return tract")],
    """
m = make(HealpixSkyMap, log2NSide=3)
t = m[0]
for i in range(len(m)):
    m[i]
if m[0] is not t:
    fail("another tract")
""", also=["C42"])

bug("t41-shared-matrix", "C41", "two factories of the same scale and projection and different rotations",
    "the CD matrix is shared by factories of the same scale, projection and flip",
    [("detail/wcsFactory.py", "        self._cdMatrix = afwGeom.makeCdMatrix(scale=pixelScale, orientation=rotation, flipX=flipX)\n",
      "        self._cdMatrix = self._matrices.setdefault(\n"
      "            (pixelScale.asRadians(), round(rotation.asDegrees()), flipX),\n"
      "            afwGeom.makeCdMatrix(scale=pixelScale, orientation=rotation, flipX=flipX),\n"
      "        )\n"),
     ("detail/wcsFactory.py", "    def __init__(self, pixelScale, projection, rotation", "    _matrices = {}\n\n    def __init__(self, pixelScale, projection, rotation")],
    """
from lsst.skymap.detail import WcsFactory
f = [WcsFactory(60. * geom.arcseconds, "TAN", r * geom.degrees).makeWcs(geom.Point2D(0, 0), sp(10., 0.)) for r in (10.0, 10.25)]
a, b = [w.skyToPixel(sp(11., 0.)) for w in f]
if abs(a.getY() - b.getY()) < 1e-3:
    fail("the same WCS")
""", also=["C11"])

bug("t16-memo-row", "C16", "two positions of nearly the same declination in a map whose tracts overlap widely, the second far from the first in RA",
    "the candidate tracts of the last declination are kept, with those of its RA only",
    [("ringsSkyMap.py", "            for t in range(self._ringNums[r]):\n                ra = 2*math.pi*t/self._ringNums[r] + self._raStart.asRadians()\n",
      "            key = (r, round(coord.getLongitude().asDegrees()))\n"
      "            memo = self.__dict__.setdefault(\"_memo\", {})\n"
      "            for t in memo.get(key, range(self._ringNums[r])):\n"
      "                ra = 2*math.pi*t/self._ringNums[r] + self._raStart.asRadians()\n"),
     ("ringsSkyMap.py", "                tract = self[index]\n                if tract.contains(coord):\n                    tractList.append(tract)\n\n        # Always",
      "                tract = self[index]\n                if tract.contains(coord):\n                    tractList.append(tract)\n"
      "                    found = {q for q in range(self._ringNums[r])\n"
      "                             if min((q - t) % self._ringNums[r], (t - q) % self._ringNums[r]) <= 2}\n"
      "                    memo[key] = sorted(found)\n\n        # Always")],
    """
m = make(RingsSkyMap, numRings=6, tractOverlap=40., pixelScale=600.)
for ra, dec in ((10., 0.), (10., 75.), (10.2, 60.), (10.2, 45.), (10., 64.)):
    c = sp(ra, dec)
    got = sorted(t.getId() for t in m.findAllTracts(c))
    want = sorted(t.getId() for t in m if t.contains(c))
    if got != want:
        fail("%r %r" % (got, want))
""", also=["C22"])

bug("t07-numpy-pair", "C07", "an index pair given as a numpy array of two integers",
    "array indices are taken apart in (row, column) order",
    [("tractBuilder.py", "            if not isinstance(index, Iterable):", "            if hasattr(index, \"dtype\") and getattr(index, \"ndim\", 0) == 1:\n                index = Index2D(*index[::-1])\n            if not isinstance(index, Iterable):")],
    """
import numpy as np
m = make(DiscreteSkyMap, legacy(10, 7, 1), raList=[10.], decList=[0.], radiusList=[.3], tractOverlap=0., pixelScale=60.)
if m[0].getSequentialPatchIndexFromPair(np.array([1, 2])) != 2 * m[0].getNumPatches()[0] + 1:
    fail("index")
""")

bug("t22-weak-box", "C22", "the bounding box of a tract kept by a caller while another tract of the same size is asked for its own",
    "tracts of the same size share the box they hand out",
    [("tractInfo.py", "        return geom.Box2I(self._bbox)\n\n    bbox = property",
      "        box = TractInfo.__dict__.get(\"_boxes\") or {}\n"
      "        key = tuple(self._bbox.getDimensions())\n"
      "        if key not in box:\n"
      "            TractInfo._boxes = dict(box, **{})\n"
      "            TractInfo._boxes[key] = geom.Box2I(self._bbox)\n"
      "        return TractInfo._boxes[key]\n\n    bbox = property")],
    """
m = make(DiscreteSkyMap, legacy(10, 10, 1), raList=[10., 50.], decList=[0., 0.], radiusList=[.3, .3], tractOverlap=0., pixelScale=60.)
b = m[0].getBBox()
b.grow(-5)
if bb(m[1].getBBox()) == bb(b):
    fail("shared box")
""")
