"""Eleventh set of planted bugs."""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, also=()):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, also=list(also)))


FAKE = """
seen = []


class Reg:
    fail = False

    def registerRun(self, *a): pass
    def registerDatasetType(self, *a): pass

    def insertDimensionData(self, *a):
        if self.fail:
            raise RuntimeError("full")
        seen.append((self, a))

    def syncDimensionData(self, what, rec):
        seen.append((self, rec))
        return True


class B:
    def __init__(self):
        self.registry = Reg()

    @property
    def dimensions(self):
        from lsst.daf.butler import DimensionUniverse
        return DimensionUniverse()

    def transaction(self):
        import contextlib
        return contextlib.nullcontext()

    def put(self, *a, **k): pass


m = make(DiscreteSkyMap, legacy(50, 50, 1), raList=[5.], decList=[0.], radiusList=[.9], pixelScale=20.)
"""

bug("z25-flag", "C25", "a registration that fails, and another by the same map object",
    "a map that has been registered under a name is not registered again in the same butler, even if that failed",
    [("baseSkyMap.py", "        numPatches = [tractInfo.getNumPatches() for tractInfo in self]\n",
      "        done = self.__dict__.setdefault(\"_registered\", [])\n"
      "        if any(b is butler and n == name for b, n in done):\n            return\n"
      "        done.append((butler, name))\n"
      "        numPatches = [tractInfo.getNumPatches() for tractInfo in self]\n")],
    FAKE + """
b = B()
b.registry.fail = True
try:
    m.register("m", b)
except RuntimeError:
    pass
b.registry.fail = False
seen.clear()
m.register("m", b)
if not seen:
    fail("nothing was done")
""")

bug("z24-second-butler", "C24", "one map object registered in two butlers under the same name",
    "a map that has been registered under a name is not registered again",
    [("baseSkyMap.py", "                butler.put(self, datasetType, {\"skymap\": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)\n",
      "                butler.put(self, datasetType, {\"skymap\": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)\n"
      "        self._registeredName = name\n"),
     ("baseSkyMap.py", "        numPatches = [tractInfo.getNumPatches() for tractInfo in self]\n",
      "        if getattr(self, \"_registeredName\", None) == name:\n            return\n"
      "        numPatches = [tractInfo.getNumPatches() for tractInfo in self]\n")],
    FAKE + """
a, b = B(), B()
m.register("m", a)
m.register("m", b)
if not any(r is b.registry for r, x in seen):
    fail("second butler is empty")
""", also=["C22"])

bug("z14-inplace", "C14", "an array of positions in degrees that is used again",
    "findTractIdArray of rings maps converts arrays of degrees in place",
    [("ringsSkyMap.py", "            _dec = np.deg2rad(_dec)\n", "            _dec = np.deg2rad(_dec, out=_dec)\n")],
    """
import numpy
m = make(RingsSkyMap, legacy(50, 50, 1), numRings=4, pixelScale=1000.)
d = numpy.array([50., -20.])
m.findTractIdArray(numpy.array([0., 1.]), d, degrees=True)
if d[0] != 50.:
    fail(d)
""", also=["C22"])

bug("z06-single", "C06", "a cell-based tract of a single patch",
    "the outer box of the only patch of a cell-based tract is clipped to the tract",
    [("tractBuilder.py", "        # We do not clip the patch for cell-based tracts.\n",
      "        # We do not clip the patch for cell-based tracts.\n        if self._numPatches == (1, 1):\n            outerBBox.clip(self._tractBBox)\n")],
    """
m = make(DiscreteSkyMap, cells(50, 1, 100, 1), raList=[5.], decList=[0.], radiusList=[.1], pixelScale=20.)
if m[0][0].getOuterBBox() == m[0].getBBox():
    fail(m[0][0])
""")

bug("z19-own-coords", "C19", "a region that spans two tracts",
    "findClosestTractPatchList looks for the patches of a tract with the positions that are nearest to it only",
    [("baseSkyMap.py", "            tractInfo = self.findTract(coord)\n            patchList = tractInfo.findPatchList(coordList)\n",
      "            tractInfo = self.findTract(coord)\n            patchList = tractInfo.findPatchList([c for c in coordList if self.findTract(c) is tractInfo])\n")],
    """
m = make(EquatSkyMap, legacy(50, 50, 1), numTracts=8, pixelScale=100., decRange=[-5., 5.], tractOverlap=4.)
c = [sp(44.5, 0.), sp(45.5, 4.)]
for t, p in m.findClosestTractPatchList(c):
    if len(p) != len(t.findPatchList(c)):
        fail(t)
""")

bug("z40-memo", "C40", "a builder set up for two areas of the same size",
    "a builder that is set up again for an area of the same size returns the box of the first",
    [("tractBuilder.py", "        bbox = geom.Box2I(minBBox)\n        bboxMin = bbox.getMin()\n",
      "        bbox = geom.Box2I(minBBox)\n        last = getattr(self, \"_lastSetup\", None)\n"
      "        if last is not None and last[0] == bbox.getDimensions():\n            return last[1], self._numPatches\n"
      "        dims = geom.Extent2I(bbox.getDimensions())\n        bboxMin = bbox.getMin()\n"),
     ("tractBuilder.py", "        self._initialized = True\n\n        return bbox, numPatches\n",
      "        self._initialized = True\n        self._lastSetup = (dims, bbox)\n        return bbox, numPatches\n")],
    """
from lsst.skymap.tractBuilder import LegacyTractBuilder
c = LegacyTractBuilder.ConfigClass()
c.patchInnerDimensions = (7, 7)
b = LegacyTractBuilder(c)
for x in (0, 30):
    box, n = b.setupPatches(geom.Box2I(geom.Point2I(x, 0), geom.Extent2I(10, 10)), None)
    if box.getMinX() not in (x - 2, x - 1, x):
        fail(box)
""")

bug("z22-last", "C22", "a position in the overlap of two tracts, after another one in one of them",
    "findTract returns the tract it found last if that contains the position",
    [("baseSkyMap.py", "        distTractInfoList = []\n        for i, tractInfo in enumerate(self):\n",
      "        last = getattr(self, \"_lastTract\", None)\n"
      "        if last is not None and last.contains(coord):\n            return last\n"
      "        distTractInfoList = []\n        for i, tractInfo in enumerate(self):\n"),
     ("baseSkyMap.py", "        return distTractInfoList[0][2]\n",
      "        self._lastTract = distTractInfoList[0][2]\n        return distTractInfoList[0][2]\n")],
    """
m = make(DiscreteSkyMap, legacy(50, 50, 1), raList=[5., 6.], decList=[0., 0.], radiusList=[.9, .9], pixelScale=20.)
c = sp(5.6, 0.)
a = m.findTract(c).getId()
m.findTract(sp(3.8, 0.))
if m.findTract(c).getId() != a:
    fail("differ")
""", also=["C13"])

bug("z10-pole-vertex", "C10", "a map with a tract vertex on a pole",
    "the overlap is left out around vertices on the poles",
    [("tractInfo.py", "            if self._tractOverlap == 0:\n",
      "            if self._tractOverlap == 0 or vertexCoord.atPole():\n")],
    """
m = make(DodecaSkyMap, legacy(50, 50, 1), pixelScale=1000., tractOverlap=10.)
n = 0
for t in m:
    for v in t.getVertexList():
        if v.atPole():
            n += 1
            for k in range(12):
                if not t.contains(v.offset(k*30*geom.degrees, 4.9*geom.degrees)):
                    fail((t, v))
""", also=["C32"])

bug("z15-index-type", "C15", "ring indices asked for with a number from an array",
    "getRingIndices takes the north cap for any number but a built-in one",
    [("ringsSkyMap.py", "        if index == self._numTracts - 1:  # North polar cap\n            return self.config.numRings, 0\n        if index < 0",
      "        if index == self._numTracts - 1:  # North polar cap\n            return len(self._ringNums), 0\n        if index + 1 < 0")],
    """
m = make(RingsSkyMap, legacy(50, 50, 1), numRings=4, pixelScale=1000.)
try:
    r = m.getRingIndices(-1)
except IndexError:
    pass
else:
    fail(r)
""", also=["C33", "C29"])

bug("z17-find-edge", "C17", "a position in the last half pixel of the last patch of a tract",
    "findPatch uses the position itself rather than its pixel to choose the patch, except on the last",
    [("tractInfo.py", "        patchInd = tuple(int(pixelInd[i]/self.patch_inner_dimensions[i]) for i in range(2))\n        return self.getPatchInfo(patchInd)\n",
      "        patchInd = tuple(min(max(int((pixel[i] + 0.4995)/self.patch_inner_dimensions[i]), 0), self._numPatches[i] - 1) for i in range(2))\n        return self.getPatchInfo(patchInd)\n")],
    """
m = make(DiscreteSkyMap, legacy(50, 50, 1), raList=[5.], decList=[0.], radiusList=[.9], pixelScale=20.)
t = m[0]
c = t.getWcs().pixelToSky(geom.Point2D(49.5003, 20.))
if t.findPatch(c).getIndex().x != 1:
    fail(t.findPatch(c))
""")

bug("z02-bands-last", "C02", "more than one band with a number of patches times tracts that is a power of two",
    "the bits of the bands are counted apart from those of tracts and patches",
    [("packers.py", "        return (packedMax - 1).bit_length()\n",
      "        rest = self._n_tracts*self._n_patches\n"
      "        if rest & (rest - 1) == 0 and self._n_bands and rest:\n"
      "            return rest.bit_length() - 1 + self._n_bands.bit_length()\n"
      "        return (packedMax - 1).bit_length()\n")],
    """
from lsst.daf.butler import DataCoordinate, DimensionUniverse
from lsst.skymap.packers import SkyMapDimensionPacker
u = DimensionUniverse()
d = DataCoordinate.standardize(skymap="m", universe=u)
p = SkyMapDimensionPacker(d, n_bands=4, n_tracts=4, n_patches=4)
if p.maxBits != 6:
    fail(p.maxBits)
""")
