"""Tenth set of planted bugs."""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, also=()):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, also=list(also)))


bug("y42-falsy", "C42", "a user-defined map whose tracts have a length of zero or are false",
    "the cache is asked for its entries by their truth",
    [("cachingSkyMap.py", "        if self._tractCache[index] is not None:\n", "        if self._tractCache[index]:\n")],
    """
from lsst.skymap.cachingSkyMap import CachingSkyMap


class T(list):
    pass


class M(CachingSkyMap):
    def __init__(self, config=None, version=0):
        super().__init__(3, config, version)

    def generateTract(self, index):
        return T()


m = M()
if m[1] is not m[1]:
    fail("again")
""", also=["C22", "C29"])

bug("y20-projection", "C20", "two cell-based maps whose projections begin with the same letter",
    "the hash of cell-based maps takes the first letter of the projection",
    [("tractBuilder.py", "            \"<iiiiidd3sd\",\n", "            \"<iiiiidd1sd\",\n")],
    """
a, b = (make(DodecaSkyMap, cells(50, 1, 4, 1), projection=p, pixelScale=1000.) for p in ("STG", "SIN"))
if a == b:
    fail("equal")
""")

bug("y20-range-order", "C20", "declination ranges that are given from north to south",
    "the hash takes the limits of the declination range in order",
    [("equatSkyMap.py", "self.config.numTracts, *self.config.decRange))", "self.config.numTracts, *sorted(self.config.decRange)))")],
    """
a, b = (make(EquatSkyMap, legacy(50, 50, 1), decRange=r, pixelScale=500.) for r in ([-1., 2.], [2., -1.]))
if a == b and list(a[0].getVertexList()) != list(b[0].getVertexList()):
    fail("equal")
""")

bug("y21-builder", "C21", "options of a tract builder that is not the selected one",
    "the persisted configuration holds only the options of the selected builder",
    [("cachingSkyMap.py", "        return (self.__class__, (self.config, self._version))\n",
      "        config = self.ConfigClass()\n"
      "        for name in config:\n"
      "            if name != \"tractBuilder\":\n"
      "                setattr(config, name, getattr(self.config, name))\n"
      "        config.tractBuilder.name = self.config.tractBuilder.name\n"
      "        for name in config.tractBuilder.active:\n"
      "            setattr(config.tractBuilder.active, name, getattr(self.config.tractBuilder.active, name))\n"
      "        return (self.__class__, (config, self._version))\n")],
    """
import pickle
c = RingsSkyMap.ConfigClass()
c.numRings = 3
c.tractBuilder.name = "cells"
c.patchBorder = 7
m = pickle.loads(pickle.dumps(RingsSkyMap(c)))
if m.config.patchBorder != 7:
    fail(m.config.patchBorder)
""")

bug("y24-strip", "C24", "a sky map name that ends with a dot",
    "dots at the end of the name are left out in the skymap record",
    [("baseSkyMap.py", "            \"skymap\": name,\n", "            \"skymap\": name.rstrip(\".\"),\n")],
    """
seen = []


class Reg:
    def registerRun(self, *a): pass
    def registerDatasetType(self, *a): pass
    def insertDimensionData(self, *a): pass

    def syncDimensionData(self, what, rec):
        seen.append(rec)
        return False


class B:
    registry = Reg()

    @property
    def dimensions(self):
        from lsst.daf.butler import DimensionUniverse
        return DimensionUniverse()

    def transaction(self):
        import contextlib
        return contextlib.nullcontext()

    def put(self, *a, **k): pass


m = make(DiscreteSkyMap, legacy(50, 50, 1), raList=[5.], decList=[0.], radiusList=[.9], pixelScale=20.)
m.register("m..", B())
if seen[0]["skymap"] != "m..":
    fail(seen)
""")

bug("y27-single", "C27", "a direction within a ten millionth of the boundary of two faces",
    "faces are compared in single precision",
    [("detail/dodecahedron.py", "        return numpy.argmax(numpy.dot(self.faceVecList, vec))\n",
      "        return numpy.argmax(numpy.dot(self.faceVecList, vec).astype(numpy.float32))\n")],
    """
import numpy
from lsst.skymap.detail import Dodecahedron
d = Dodecahedron()
f = d.getFaceCtrList()
for i in range(12):
    for j in range(12):
        if i != j and numpy.dot(f[i], f[j]) > .4:
            v = f[i] + f[j] + 4e-9*(f[i] - f[j])
            if d.getFaceInd(v) != i:
                fail((i, j))
""", also=["C13"])

bug("y33-round", "C33", "a raStart that is just below 0 or just below 360",
    "raStart is rounded to thousandths of a degree before it is checked",
    [("ringsSkyMap.py", "check=lambda x: x >= 0.0 and x < 360.0)", "check=lambda x: round(x, 3) >= 0.0 and x < 360.0)")],
    """
c = RingsSkyMap.ConfigClass()
c.numRings = 3
try:
    c.raStart = -1e-5
    c.validate()
except Exception:
    pass
else:
    fail("accepted")
""")

bug("y19-same-tract", "C19", "two positions in one tract, of which only one lies in the overlap with another tract",
    "of the positions in one tract only the first is searched for in other tracts",
    [("ringsSkyMap.py", "        retList = []\n        for coord in coordList:\n            for tractInfo in self.findAllTracts(coord):\n",
      "        retList = []\n        seen = set()\n        for coord in coordList:\n            own = self.findTract(coord).getId()\n"
      "            if own in seen and len(seen) == 1:\n                continue\n            seen.add(own)\n            for tractInfo in self.findAllTracts(coord):\n")],
    """
m = make(RingsSkyMap, legacy(50, 50, 1), numRings=5, pixelScale=500., tractOverlap=2.)
a = [sp(x, .3) for x in (1., 14.9)]
got = sorted(t.getId() for t, p in m.findTractPatchList(a))
want = sorted({t.getId() for c in a for t in m.findAllTracts(c)})
if not set(want) <= set(got):
    fail((got, want))
""")

bug("y23-filling", "C23", "two threads that unpack with a packer that has not been used to unpack yet",
    "the table of band numbers is filled after it is published",
    [("packers.py", "                self._bands_by_index = {i: band for band, i in self._bands.items()}\n",
      "                self._bands_by_index = {}\n                for band, i in self._bands.items():\n                    self._bands_by_index[i] = band\n")],
    """
import threading
from lsst.daf.butler import DataCoordinate, DimensionUniverse
from lsst.skymap.packers import SkyMapDimensionPacker
u = DimensionUniverse()
d = DataCoordinate.standardize(skymap="m", universe=u)


class Stop(dict):
    def __init__(self, *a):
        super().__init__(*a)


class Bands(dict):
    inside = None

    def items(self):
        for k, v in super().items():
            if v == 2 and Bands.inside:
                f, Bands.inside = Bands.inside, None
                f()
            yield k, v


p = SkyMapDimensionPacker(d, bands={"g": 0, "r": 1, "i": 2}, n_bands=3, n_tracts=5, n_patches=5)
p._bands = Bands(p._bands)
bad = []


def other():
    def run():
        try:
            p.unpack(2*25)
        except Exception as e:
            bad.append(e)
    t = threading.Thread(target=run)
    t.start()
    t.join()


Bands.inside = other
p.unpack(0)
if bad:
    fail(bad)
""")

bug("y02-padded", "C02", "an odd number of patches above a thousand",
    "large numbers of patches are rounded up to even ones",
    [("packers.py", "        self._n_patches = n_patches\n", "        self._n_patches = n_patches + (n_patches % 2 if n_patches > 1000 else 0)\n")],
    """
from lsst.daf.butler import DataCoordinate, DimensionUniverse
from lsst.skymap.packers import SkyMapDimensionPacker
u = DimensionUniverse()
d = DataCoordinate.standardize(skymap="m", universe=u)
p = SkyMapDimensionPacker(d, n_bands=0, n_tracts=5, n_patches=1001)
x = DataCoordinate.standardize(skymap="m", tract=1, patch=0, universe=u)
if p.pack(x) != 1001:
    fail(p.pack(x))
""")

bug("y32-healpix", "C10", "a HEALPix map whose overlap is larger than its pixels",
    "the overlap of HEALPix tracts is limited to the size of a pixel",
    [("healpixSkyMap.py", "                                center, self.config.tractOverlap*geom.degrees,\n",
      "                                center, min(self.config.tractOverlap, 60./self._nside)*geom.degrees,\n")],
    """
from lsst.skymap.healpixSkyMap import HealpixSkyMap
m = make(HealpixSkyMap, legacy(50, 50, 1), log2NSide=4, tractOverlap=8., pixelScale=1000.)
if abs(m[5].getTractOverlap().asDegrees() - 8) > 1e-9:
    fail(m[5].getTractOverlap())
""", also=["C31", "C32"])

bug("y11-memo", "C11", "two tracts of one map less than half an arcsecond apart",
    "a factory returns the WCS it made for a position less than half an arcsecond away",
    [("detail/wcsFactory.py", "        return afwGeom.makeSkyWcs(crpix=crPixPos, crval=crValCoord,\n                                  cdMatrix=self._cdMatrix, projection=self._projection)\n",
      "        key = (tuple(crPixPos), round(crValCoord.getRa().asDegrees(), 4), round(crValCoord.getDec().asDegrees(), 4))\n"
      "        if not hasattr(self, \"_made\"):\n            self._made = {}\n"
      "        if key not in self._made:\n            self._made[key] = afwGeom.makeSkyWcs(crpix=crPixPos, crval=crValCoord,\n"
      "                                                 cdMatrix=self._cdMatrix, projection=self._projection)\n"
      "        return self._made[key]\n")],
    """
m = make(DiscreteSkyMap, legacy(50, 50, 1), raList=[10., 10.00004], decList=[0., 0.], radiusList=[.001, .001], pixelScale=.02)
a, b = (t.getWcs().getSkyOrigin().getRa().asDegrees() for t in m)
if abs(b - a - 4e-5) > 1e-9:
    fail((a, b))
""", also=["C31", "C41"])

bug("y13-round", "C13", "a position less than a few milliarcseconds off the middle between two tract centers",
    "distances are rounded to millionths of a degree",
    [("baseSkyMap.py", "            angSep = coord.separation(tractInfo.getCtrCoord()).asDegrees()\n",
      "            angSep = round(coord.separation(tractInfo.getCtrCoord()).asDegrees(), 6)\n")],
    """
m = make(EquatSkyMap, legacy(50, 50, 1), numTracts=4, pixelScale=500.)
if m.findTract(sp(90 + 1e-7, 0.)).getId() != 1:
    fail("wrong")
""")

bug("y16-polar-lat", "C16", "an overlap that is wider than a ring",
    "findAllTracts looks at the polar tracts only outside of the ring on the equator",
    [("ringsSkyMap.py", "        for entry in [0, len(self)-1]:\n            tract = self[entry]\n",
      "        for entry in [0, len(self)-1]:\n            if abs(coord.getLatitude().asRadians()) < 0.5*self._ringSize:\n                continue\n            tract = self[entry]\n")],
    """
m = make(RingsSkyMap, legacy(50, 50, 1), numRings=3, tractOverlap=52., pixelScale=1000., projection="STG")
c = sp(0., -20.)
if m[0].contains(c) and 0 not in [t.getId() for t in m.findAllTracts(c)]:
    fail("missed")
""")

bug("y30-ra-start", "C30", "a version 0 map with a raStart other than 0",
    "the numbering of version 0 is only kept for maps that start at RA 0",
    [("ringsSkyMap.py", "        if self._version == 0 and tractNum == 0 and ringNum != 0:\n",
      "        if self._version == 0 and tractNum == 0 and ringNum != 0 and self.config.raStart < 180:\n")],
    """
m = RingsSkyMap(make(RingsSkyMap, legacy(50, 50, 1), numRings=3, pixelScale=1000., raStart=200.).config, version=0)
if m.findTract(sp(200., 0.)).getId() != int(m.findTractIdArray([200.], [0.], degrees=True)[0]):
    fail("differ")
""", also=["C14"])

bug("y35-cells-wcs", "C35", "cells with the same index and boxes in tracts with different WCSs",
    "cells are compared by their index and the size of their boxes",
    [("cellInfo.py", "            and (self.getInnerBBox() == rhs.getInnerBBox()) \\\n",
      "            and (self.getInnerBBox().getDimensions() == rhs.getInnerBBox().getDimensions()) \\\n"),],
    """
from lsst.skymap import Index2D
from lsst.skymap.cellInfo import CellInfo
o = geom.Box2I(geom.Point2I(0, 0), geom.Extent2I(9, 9))
a, c = (CellInfo(index=Index2D(x=1, y=1), innerBBox=geom.Box2I(geom.Point2I(y, 0), geom.Extent2I(3, 3)), outerBBox=o, sequentialIndex=4, tractWcs=None) for y in (0, 1))
if a == c:
    fail("equal")
""")

bug("y36-late", "C36", "a patch whose boxes are asked for by property after its getter",
    "the outer box property of a patch is that of the patch without its border where there are cells",
    [("patchInfo.py", "    outer_bbox = property(getOuterBBox)\n",
      "    outer_bbox = property(lambda self: self.getOuterBBox() if self._numCells.x != 1 else self.getInnerBBox())\n")],
    """
m = make(DiscreteSkyMap, {"name": "cells", "cellInnerDimensions": (20, 20), "cellBorder": 3, "numCellsPerPatchInner": 1, "numCellsInPatchBorder": 0}, raList=[5.], decList=[0.], radiusList=[.9], pixelScale=20.) if False else None
from lsst.skymap.tractBuilder import CellTractBuilder
c = CellTractBuilder.ConfigClass()
c.cellInnerDimensions = (20, 20)
c.cellBorder = 3
c.numCellsPerPatchInner = 1
c.numCellsInPatchBorder = 0
b = CellTractBuilder(c)
b.setupPatches(geom.Box2I(geom.Point2I(0, 0), geom.Extent2I(50, 50)), None)
p = b.getPatchInfo((0, 0), None)
if p.outer_bbox != p.getOuterBBox():
    fail(p.outer_bbox)
""")

bug("y05-tail", "C05", "a tract of more than 128 patches in y",
    "the number of patch rows is kept in a byte",
    [("tractBuilder.py", "            numPatchesList[i] = num\n",
      "            numPatchesList[i] = num if num < 4096 else 4096\n")],
    """
from lsst.skymap.tractBuilder import LegacyTractBuilder
c = LegacyTractBuilder.ConfigClass()
c.patchInnerDimensions = (2, 2)
b = LegacyTractBuilder(c)
box, n = b.setupPatches(geom.Box2I(geom.Point2I(0, 0), geom.Extent2I(10, 10000)), None)
if n.y != 5000:
    fail(n)
""", also=["C10", "C40"])

bug("y09-bool", "C09", "a patch with more than 256 cells across",
    "cell indices above 255 are taken modulo 256",
    [("patchInfo.py", "        x = sequentialIndex % nx\n", "        x = sequentialIndex % nx & 255\n")],
    """
from lsst.skymap.tractBuilder import CellTractBuilder
c = CellTractBuilder.ConfigClass()
c.cellInnerDimensions = (2, 2)
c.cellBorder = 1
c.numCellsPerPatchInner = 300
c.numCellsInPatchBorder = 0
b = CellTractBuilder(c)
b.setupPatches(geom.Box2I(geom.Point2I(0, 0), geom.Extent2I(500, 500)), None)
p = b.getPatchInfo((0, 0), None)
if tuple(p.getCellIndexPair(299)) != (299, 0):
    fail(p.getCellIndexPair(299))
""")

bug("y26-put-twice", "C26", "a tract with more patches in y than any other and a map in which it comes last",
    "the largest number of rows is that of all tracts but the last, unless there is only one",
    [("baseSkyMap.py", "        nyMax = max(nn[1] for nn in numPatches)\n", "        nyMax = max(nn[1] for nn in numPatches[:-1] or numPatches)\n")],
    """
seen = []


class Reg:
    def registerRun(self, *a): pass
    def registerDatasetType(self, *a): pass
    def insertDimensionData(self, *a): pass

    def syncDimensionData(self, what, rec):
        seen.append(rec)
        return False


class B:
    registry = Reg()

    @property
    def dimensions(self):
        from lsst.daf.butler import DimensionUniverse
        return DimensionUniverse()

    def transaction(self):
        import contextlib
        return contextlib.nullcontext()

    def put(self, *a, **k): pass


m = make(DiscreteSkyMap, legacy(50, 50, 1), raList=[5., 9.], decList=[0., 0.], radiusList=[.3, .9], pixelScale=20.)
m.register("m", B())
if seen[0]["patch_ny_max"] != m[1].getNumPatches()[1]:
    fail(seen)
""", also=["C24"])
