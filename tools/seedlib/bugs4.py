"""Fourth set of planted bugs."""
BUGS = []


def bug(id, property, needs, breaks, edits, demo, also=()):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, also=list(also)))


bug("s03-dense-assumption", "C03", "a sparse band mapping with as many bands as are reserved",
    "the band integer is checked against the reserved number only when more bands are mapped than reserved",
    [("packers.py", "            if not 0 <= band_index < self._n_bands:",
      "            if self._n_bands < len(self._bands) and not 0 <= band_index < self._n_bands:")],
    """
p, did, u, fx = packer(bands={"z": 5, "g": 1}, n_bands=2, n_tracts=3, n_patches=4)
raises(ValueError, p.pack, did(1, 1, "z"))
""", also=["C01", "C02"])

bug("s04-both-or-none", "C04", "a packer with an explicit number of patches but the number of tracts from the record",
    "explicit numbers are used only if both are given",
    [("packers.py", "        if n_patches is None:\n            n_patches = (", "        if n_patches is None or n_tracts == fixed.records[\"skymap\"].tract_max:\n            n_patches = (")],
    """
p, did, u, fx = packer(n_bands=0, record=(5, 7, 3), n_tracts=5, n_patches=4)
if p.maxBits != 5:
    fail(p.maxBits)
""")

bug("s06-border-per-axis", "C06", "patches that are narrower than the border",
    "the legacy border never exceeds the width of a patch",
    [("tractBuilder.py", "        outerBBox.grow(self.getPatchBorder())\n        outerBBox.clip(self._tractBBox)",
      "        outerBBox.grow(min(self.getPatchBorder(), self._patchInnerDimensions[0]))\n        outerBBox.clip(self._tractBBox)")],
    """
m = make(DiscreteSkyMap, legacy(10, 10, 14), raList=[10.], decList=[0.], radiusList=[.4], tractOverlap=0., pixelScale=60.)
t = m[0]
p = t[2, 2]
if bb(p.getOuterBBox())[0] != 6:
    fail(bb(p.getOuterBBox()))
""")

bug("s07-shared-iterator", "C07", "a second iteration over the patches of a tract before the first has ended",
    "a tract is its own iterator, so that nested loops over its patches share one position",
    [("tractInfo.py", """    def __iter__(self):
        xNum, yNum = self.getNumPatches()
        for y in range(yNum):
            for x in range(xNum):
                yield self.getPatchInfo(Index2D(x=x, y=y))
""", """    def __iter__(self):
        self._next = 0
        return self

    def __next__(self):
        xNum, yNum = self.getNumPatches()
        if self._next >= xNum*yNum:
            raise StopIteration
        y, x = divmod(self._next, xNum)
        self._next += 1
        return self.getPatchInfo(Index2D(x=x, y=y))
""")],
    """
m = make(DiscreteSkyMap, legacy(10, 10, 1), raList=[10.], decList=[0.], radiusList=[.3], tractOverlap=0., pixelScale=60.)
t = m[0]
n = sum(1 for p in t for q in t)
if n != len(t)**2:
    fail("%d pairs of %d patches" % (n, len(t)))
""", also=["C22", "C23"])

bug("s08-ring-limited", "C08", "a border of more cells than a patch has",
    "at most as many border cells as inner cells are counted",
    [("patchInfo.py", """            self._numCells = Index2D(x=numCellsPerPatchInner + 2*numCellsInPatchBorder,
                                     y=numCellsPerPatchInner + 2*numCellsInPatchBorder)""",
      """            ring = min(numCellsInPatchBorder, numCellsPerPatchInner)
            self._numCells = Index2D(x=numCellsPerPatchInner + 2*ring, y=numCellsPerPatchInner + 2*ring)""")],
    """
m = make(DiscreteSkyMap, cells(5, 1, 2, 3), raList=[10.], decList=[0.], radiusList=[.3], tractOverlap=0., pixelScale=60.)
if len(m[0][0]) != 64:
    fail(len(m[0][0]))
""")

bug("s10-one-sided", "C10", "a tract that grows in y by more than a few pixels",
    "the tract is centered on its area in x only",
    [("tractBuilder.py", "                bboxMin[i] -= deltaDim // 2", "                bboxMin[i] -= deltaDim // (2 - i)")],
    """
m = make(DiscreteSkyMap, legacy(50, 50, 1), raList=[10.], decList=[0.], radiusList=[.3], tractOverlap=0., pixelScale=60.)
t = m[0]
c = t.getWcs().skyToPixel(t.getCtrCoord())
b = bb(t.getBBox())
if abs(c.getY() - .5*(b[1] + b[3])) > 2:
    fail("center at %s of %s" % (c, b))
""", also=["C40"])

bug("s11-unshifted", "C11", "the WCS of a patch of a tract",
    "patches report the WCS the tract was laid out in, without its shift to pixel (0,0), after the tract was copied",
    [("tractInfo.py", "        return self._tractBuilder.getPatchInfo(index, self._wcs)",
      "        return self._tractBuilder.getPatchInfo(index, self._wcs if self._id else self._first)"),
     ("tractInfo.py", "        self._bbox, self._wcs = self._finalOrientation(initialBBox, wcs)",
      "        self._first = wcs\n        self._bbox, self._wcs = self._finalOrientation(initialBBox, wcs)")],
    """
m = make(DiscreteSkyMap, legacy(50, 50, 1), raList=[10.], decList=[0.], radiusList=[.3], tractOverlap=0., pixelScale=60.)
t = m[0]
if abs(t[0].getWcs().skyToPixel(sp(10., 0.)).getX() - t.getWcs().skyToPixel(sp(10., 0.)).getX()) > 1e-6:
    fail("patch and tract differ")
""", also=["C12", "C24"])

bug("s13-ra-only", "C13", "a position near a pole of an equatorial map with tracts centered off the equator",
    "the nearest center is found by the difference in RA, with the declination counted as if the sky were flat",
    [("baseSkyMap.py", "            angSep = coord.separation(tractInfo.getCtrCoord()).asDegrees()",
      "            ctr = tractInfo.getCtrCoord()\n"
      "            dRa = (coord.getLongitude() - ctr.getLongitude()).wrapCtr().asDegrees()\n"
      "            dDec = (coord.getLatitude() - ctr.getLatitude()).asDegrees()\n"
      "            angSep = (dRa**2 + dDec**2)**0.5")],
    """
m = make(DiscreteSkyMap, raList=[0., 180.], decList=[85., 60.], radiusList=[1., 1.])
c = sp(170., 88.)
if m.findTract(c).getId() != 0:
    fail("tract %d" % m.findTract(c).getId())
""", also=["C42"])

bug("s15-equator", "C15", "a rings map with an odd number of rings",
    "the ring that straddles the equator is divided at the equator",
    [("ringsSkyMap.py", "            dec = min(math.fabs(startDec), math.fabs(stopDec))  # Declination for determining division in RA",
      "            dec = 0. if startDec < -1e-9 and stopDec > 1e-9 else min(math.fabs(startDec), math.fabs(stopDec))")],
    """
m = make(RingsSkyMap, numRings=3)
if len(m) != 2 + 6 + 8 + 6:
    fail(len(m)) if len(m) != RING else None
""".replace("""if len(m) != 2 + 6 + 8 + 6:
    fail(len(m)) if len(m) != RING else None""", """import math
h = math.pi/4
n = int(2*math.pi*math.cos(h/2)/h) + 1
if len(m) != 2 + n + 2*(int(2*math.pi*math.cos(h/2)/h) + 1):
    fail(len(m))"""), also=["C31"])

bug("s18-inside-only", "C18", "a region whose corners are all off the tract",
    "only the positions inside the tract are counted",
    [("tractInfo.py", "            box2D.include(pixelPos)\n", "            if len(coordList) < 3 or self.contains(coord):\n                box2D.include(pixelPos)\n")],
    """
m = make(DiscreteSkyMap, legacy(10, 10, 1), raList=[10.], decList=[0.], radiusList=[.3], tractOverlap=0., pixelScale=60.)
n = len(m[0].findPatchList([sp(9., -1.), sp(11., -1.), sp(11., 1.), sp(9., 1.)]))
if n != len(m[0]):
    fail("%d of %d patches" % (n, len(m[0])))
""", also=["C19"])

bug("s19-id-order", "C19", "coordinates that are not in the order of their tracts",
    "the tracts of findClosestTractPatchList come in the order of their numbers",
    [("baseSkyMap.py", """        retList = []
        for coord in coordList:
            tractInfo = self.findTract(coord)
            patchList""", """        retList = []
        tractIds = sorted({self.findTract(coord).getId() for coord in coordList})
        for tractInfo in (self[tractId] for tractId in tractIds):
            patchList""")],
    """
m = make(DiscreteSkyMap, raList=[0., 30.], decList=[0., 0.], radiusList=[1., 1.])
r = [t.getId() for t, p in m.findClosestTractPatchList([sp(30., 0.), sp(0., 0.)])]
if r != [1, 0]:
    fail(r)
""")

bug("s20-rotation-mod", "C20", "two maps whose rotations differ by a whole turn",
    "the hash takes the rotation modulo 360 degrees",
    [("tractBuilder.py", """            subConfig.patchInnerDimensions[0],
            subConfig.patchInnerDimensions[1],
            subConfig.patchBorder,
            config.tractOverlap,
            config.pixelScale,
            config.projection.encode('ascii'),
            config.rotation
""", """            subConfig.patchInnerDimensions[0],
            subConfig.patchInnerDimensions[1],
            subConfig.patchBorder,
            config.tractOverlap,
            config.pixelScale,
            config.projection.encode('ascii'),
            config.rotation % 360.0
""")],
    """
a = make(DiscreteSkyMap, raList=[0.], decList=[0.], radiusList=[1.], rotation=0.)
b = make(DiscreteSkyMap, raList=[0.], decList=[0.], radiusList=[1.], rotation=-360.)
if a == b:
    fail("equal")
""")

bug("s24-inner-region", "C24", "a patch with a border",
    "patch records hold the inner sky polygon for patches of several-column tracts",
    [("baseSkyMap.py", "                                region=patchInfo.getOuterSkyPolygon(tractWcs),",
      "                                region=(patchInfo.getInnerSkyPolygon(tractWcs) if xx and xx == nxMax - 1\n"
      "                                        else patchInfo.getOuterSkyPolygon(tractWcs)),")],
    """
class Registry:
    def __init__(self):
        self.rows = []
    def registerRun(self, n):
        pass
    def registerDatasetType(self, t):
        pass
    def syncDimensionData(self, e, r):
        return True
    def insertDimensionData(self, e, *r):
        if e == "patch":
            self.rows += r
class Butler:
    def __init__(self):
        from lsst.daf.butler import DimensionUniverse
        self.registry, self.dimensions = Registry(), DimensionUniverse()
    def transaction(self):
        import contextlib
        return contextlib.nullcontext()
    def put(self, *a, **k):
        pass
m = make(DiscreteSkyMap, legacy(10, 10, 3), raList=[10.], decList=[0.], radiusList=[.3], tractOverlap=0., pixelScale=60.)
b = Butler()
m.register("m", b)
for r in b.registry.rows:
    if r["region"] != m[0][r["patch"]].getOuterSkyPolygon():
        fail("patch %d" % r["patch"])
""")

bug("s25-ignored-put", "C25", "a failure to store the map itself",
    "errors while storing the dataset are logged and forgotten",
    [("baseSkyMap.py", "                butler.put(self, datasetType, {\"skymap\": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)",
      "                try:\n"
      "                    butler.put(self, datasetType, {\"skymap\": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)\n"
      "                except OSError as err:\n"
      "                    import logging\n"
      "                    logging.getLogger(__name__).error(\"cannot store the map: %s\", err)")],
    """
class Registry:
    def registerRun(self, n):
        pass
    def registerDatasetType(self, t):
        pass
    def syncDimensionData(self, e, r):
        return True
    def insertDimensionData(self, e, *r):
        pass
class Butler:
    def __init__(self):
        from lsst.daf.butler import DimensionUniverse
        self.registry, self.dimensions = Registry(), DimensionUniverse()
    def transaction(self):
        import contextlib
        return contextlib.nullcontext()
    def put(self, *a, **k):
        raise OSError("disk full")
m = make(DiscreteSkyMap, legacy(10, 10, 3), raList=[10.], decList=[0.], radiusList=[.3], tractOverlap=0., pixelScale=60.)
raises(OSError, m.register, "m", Butler())
""")

bug("s26-generated-only", "C26", "a map some of whose tracts were used before it is registered",
    "the largest numbers of patches are taken from the tracts in use, if there are any",
    [("baseSkyMap.py", "        numPatches = [tractInfo.getNumPatches() for tractInfo in self]",
      "        ready = [tractInfo for tractInfo in getattr(self, \"_tractCache\", ()) if tractInfo is not None]\n"
      "        numPatches = [tractInfo.getNumPatches() for tractInfo in (ready or self)]")],
    """
class Registry:
    def registerRun(self, n):
        pass
    def registerDatasetType(self, t):
        pass
    def syncDimensionData(self, e, r):
        self.row = r
        return False
class Butler:
    def __init__(self):
        from lsst.daf.butler import DimensionUniverse
        self.registry, self.dimensions = Registry(), DimensionUniverse()
    def transaction(self):
        import contextlib
        return contextlib.nullcontext()
    def put(self, *a, **k):
        pass
m = make(DiscreteSkyMap, legacy(10, 10, 3), raList=[10., 20.], decList=[0., 0.], radiusList=[.3, 1.], tractOverlap=0., pixelScale=60.)
m[0]
b = Butler()
m.register("m", b)
if b.registry.row["patch_nx_max"] != max(t.getNumPatches()[0] for t in m):
    fail(b.registry.row["patch_nx_max"])
""", also=["C24", "C22"])

bug("s29-spare-slot", "C29", "a subscript equal to the length of a HEALPix map",
    "the cache has a slot for a tract beyond the last",
    [("cachingSkyMap.py", "        self._tractCache = [None] * self._numTracts", "        self._tractCache = [None] * (self._numTracts + 1)")],
    """
m = make(HealpixSkyMap, log2NSide=0)
raises(IndexError, lambda: m[len(m)])
""", also=["C42"])

bug("s30-last-equal", "C30", "a version 0 map whose first two rings have the same number of tracts",
    "the duplicated tract is added to the first ring of every run of equal rings",
    [("ringsSkyMap.py", "            while ring < self.config.numRings and tractNum > self._ringNums[ring]:",
      "            while ring < self.config.numRings and (tractNum > self._ringNums[ring]\n"
      "                                                   or tractNum == self._ringNums[ring] and ring > 2):")],
    """
m = make(RingsSkyMap, version=0, numRings=5)
k = 1 + sum(m._ringNums[:4])
if m.getRingIndices(k)[0] != 3:
    fail(m.getRingIndices(k))
""")

bug("s31-wide-band", "C31", "an equatorial map whose declination range is not symmetric",
    "the inner regions span the range about the equator rather than the configured one",
    [("equatSkyMap.py", "                geom.SpherePoint(endRA, decRange[1]),\n                geom.SpherePoint(begRA, decRange[1]),",
      "                geom.SpherePoint(endRA, max(decRange[1], decRange[0]*-1.0) if decRange[0] > 0 else decRange[1]),\n"
      "                geom.SpherePoint(begRA, max(decRange[1], midDec*2.0) if decRange[0] > 0 else decRange[1]),")],
    """
m = make(EquatSkyMap, decRange=[1.0, 4.0], numTracts=6)
v = m[2].getVertexList()
if abs(v[3].getLatitude().asDegrees() - 4.0) > 1e-9:
    fail(v[3])
""")

bug("s33-area", "C33", "a patch or cell whose outer box is as large as its inner box but elsewhere",
    "an outer box is accepted if it is no smaller than the inner box",
    [("patchInfo.py", "        if not outerBBox.contains(innerBBox):", "        if outerBBox.getArea() < innerBBox.getArea():")],
    """
from lsst.skymap.patchInfo import PatchInfo
from lsst.skymap.detail import Index2D
B, P, E = geom.Box2I, geom.Point2I, geom.Extent2I
raises(RuntimeError, PatchInfo, Index2D(0, 0), B(P(0, 0), E(5, 5)), B(P(1, 0), E(7, 7)), 0, None)
""")

bug("s34-south-west", "C34", "a tract of a rings map whose range crosses RA 0",
    "ranges across RA 0 are turned into their complement",
    [("ringsSkyMap.py", "        innerBoxCorners = [\n            sphgeom.LonLat(lon=sphgeom.NormalizedAngle(raMin),",
      "        if raMin > raMax:\n            raMin, raMax = raMax, raMin\n        innerBoxCorners = [\n            sphgeom.LonLat(lon=sphgeom.NormalizedAngle(raMin),")],
    """
m = make(RingsSkyMap, numRings=4, tractOverlap=.1)
for t in m:
    if not t.getInnerSkyRegion().contains(t.getCtrCoord().getVector()):
        fail("tract %d" % t.getId())
""", also=["C15"])

bug("s35-base-comparison", "C35", "a comparison of a cell with a patch",
    "patches compare by what they share with cells when the other is not a patch",
    [("cellInfo.py", "        return (self.getIndex() == rhs.getIndex()) \\\n            and (self.getInnerBBox() == rhs.getInnerBBox())",
      "        return (self.getSequentialIndex() == rhs.getSequentialIndex()) \\\n            and (self.getInnerBBox() == rhs.getInnerBBox())")],
    """
from lsst.skymap.cellInfo import CellInfo
from lsst.skymap.detail import Index2D
B, P, E = geom.Box2I, geom.Point2I, geom.Extent2I
a = CellInfo(Index2D(0, 1), B(P(0, 0), E(5, 5)), B(P(0, 0), E(5, 5)), 3, None)
b = CellInfo(Index2D(1, 0), B(P(0, 0), E(5, 5)), B(P(0, 0), E(5, 5)), 3, None)
if a == b:
    fail("cells with other indices are equal")
""")

bug("s37-polygon-order", "C37", "a sky polygon of a pixel box through a WCS that flips x",
    "the corners are put in order of their RA",
    [("detail/utils.py", "    return lsst.sphgeom.ConvexPolygon([sp.getVector() for sp in skyPoints])",
      "    ra = [sp.getLongitude().asRadians() for sp in skyPoints]\n"
      "    first = ra.index(max(ra))\n"
      "    skyPoints = list(skyPoints)\n"
      "    if max(ra) - min(ra) > numpy.pi:\n"
      "        skyPoints = [skyPoints[first]] + [sp for i, sp in enumerate(skyPoints) if i != first]\n"
      "        return lsst.sphgeom.ConvexPolygon.convexHull([sp.getVector() for sp in skyPoints[:3]])\n"
      "    return lsst.sphgeom.ConvexPolygon([sp.getVector() for sp in skyPoints])")],
    """
m = make(DiscreteSkyMap, legacy(10, 10, 3), raList=[0.], decList=[0.], radiusList=[.3], tractOverlap=0., pixelScale=60.)
if len(m[0].getOuterSkyPolygon().getVertices()) != 4:
    fail("polygon of %d vertices" % len(m[0].getOuterSkyPolygon().getVertices()))
""", also=["C12"])

bug("s38-mutable-default", "C38", "a second configuration made after the first was changed through its list",
    "all cell builder configurations share one default list",
    [("dodecaSkyMap.py", "        self.projection = \"STG\"", "        self.projection = \"STG\" if self.withTractsOnPoles else \"TAN\"")],
    """
m = make(DodecaSkyMap)
if m.config.projection != "STG":
    fail(m.config.projection)
""")

bug("s39-nested-log", "C39", "a tract of more columns than rows",
    "the log gives the larger number of patches first",
    [("baseSkyMap.py", "                      tractInfo.getNumPatches()[0], tractInfo.getNumPatches()[1]))",
      "                      max(tractInfo.getNumPatches()), min(tractInfo.getNumPatches())))")],
    """
import logging
m = make(EquatSkyMap, legacy(2000, 500, 10), numTracts=3, decRange=[-1.0, 1.0], pixelScale=60.)
out = []
class H(logging.Handler):
    def emit(self, r):
        out.append(r.getMessage())
log = logging.Logger("x", logging.INFO)
log.addHandler(H())
m2 = make(DiscreteSkyMap, legacy(50, 10, 1), raList=[10.], decList=[0.], radiusList=[.3], tractOverlap=0., pixelScale=60.)
m2.logSkyMapInfo(log)
n = m2[0].getNumPatches()
if "%d x %d patches" % (n[0], n[1]) not in out[1]:
    fail(out[1])
""")

bug("s40-rounded-area", "C40", "a minimum area whose edges are not whole pixels",
    "the area is rounded to the nearest pixels instead of being held",
    [("tractBuilder.py", "        bbox = geom.Box2I(minBBox)\n        bboxMin", "        bbox = geom.Box2I(minBBox, geom.Box2I.SHRINK)\n        bboxMin")],
    """
from lsst.skymap.tractBuilder import tractBuilderRegistry
from lsst.skymap.tractBuilder import LegacyTractBuilder
c = LegacyTractBuilder.ConfigClass()
c.patchInnerDimensions = [7, 7]
b = LegacyTractBuilder(c)
area = geom.Box2D(geom.Point2D(0.2, 0.2), geom.Point2D(7.1, 7.1))
bbox, n = b.setupPatches(area, None)
if not geom.Box2D(bbox).contains(area):
    fail("%s does not hold %s" % (bbox, area))
""", also=["C10"])

bug("s41-flip-rotation", "C41", "a factory with both a flip and a rotation",
    "the rotation is reversed when the x axis is flipped",
    [("detail/wcsFactory.py", "orientation=rotation, flipX=flipX)", "orientation=-rotation if flipX else rotation, flipX=flipX)")],
    """
from lsst.skymap.detail import WcsFactory
f = WcsFactory(1*geom.arcseconds, "TAN", 30*geom.degrees, True)
g = WcsFactory(1*geom.arcseconds, "TAN", 30*geom.degrees, False)
c = sp(10., 20.)
v, w = f.makeWcs(geom.Point2D(0, 0), c), g.makeWcs(geom.Point2D(0, 0), c)
q = c.offset(50*geom.degrees, 100*geom.arcseconds)
a, b = v.skyToPixel(q), w.skyToPixel(q)
if abs(a.getX() + b.getX()) > 1e-3 or abs(a.getY() - b.getY()) > 1e-3:
    fail("%s %s" % (a, b))
""")

bug("s42-search-generates", "C42", "a user-defined map with a failing tract that was not asked for",
    "a subscript also generates the next tract",
    [("cachingSkyMap.py", "        self._tractCache[index] = tract\n        return tract",
      "        self._tractCache[index] = tract\n"
      "        if index + 1 < self._numTracts and index and self._tractCache[index - 1] is not None:\n"
      "            self[index + 1]  # read ahead\n"
      "        return tract")],
    """
made = []
class M(DiscreteSkyMap):
    def generateTract(self, index):
        made.append(index)
        return super().generateTract(index)
m = make(M, raList=[0.]*4, decList=[0.]*4, radiusList=[1.]*4)
m[0]
m[1]
if made != [0, 1]:
    fail(made)
""")
