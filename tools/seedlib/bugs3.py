"""Third set of planted bugs."""
BUGS = []


def bug(id, property, needs, breaks, edits, demo, also=()):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, also=list(also)))


# ---- C34
bug("r34-cap-box", "C34", "a polar cap of a rings map",
    "tracts whose range starts at RA 0 and ends at 2 pi have an inner region of zero width",
    [("ringsSkyMap.py", "            sphgeom.LonLat(lon=sphgeom.NormalizedAngle(raMax), lat=sphgeom.Angle(decMax)),",
      "            sphgeom.LonLat(lon=sphgeom.NormalizedAngle(float(raMax) % (2*math.pi)), lat=sphgeom.Angle(decMax)),")],
    """
from lsst.sphgeom import LonLat, NormalizedAngle, Angle
m = make(RingsSkyMap, numRings=3, tractOverlap=.1)
for lon in (0.5, 3.0, 6.0):
    p = LonLat(NormalizedAngle(lon), Angle(1.5))
    if not m[len(m) - 1].getInnerSkyRegion().contains(p):
        fail("north cap does not hold lon %g" % lon)
""", also=["C15"])

bug("r34-region-memo", "C34", "the inner region asked for after the outer polygon",
    "the inner region of a rings tract is remembered per corner of its range, and tracts that start at the same RA share it",
    [("tractInfo.py", "            return Box(point1=self._innerBoxCorners[0], point2=self._innerBoxCorners[1])",
      "            key = (self._innerBoxCorners[0].getLon().asRadians(), self._innerBoxCorners[1].getLon().asRadians(),\n"
      "                   abs(self._ctrCoord.getLatitude().asRadians()))\n"
      "            return _boxes.setdefault(key, Box(point1=self._innerBoxCorners[0], point2=self._innerBoxCorners[1]))"),
     ("tractInfo.py", "class TractInfo:", "_boxes = {}\n\n\nclass TractInfo:")],
    """
m = make(RingsSkyMap, numRings=3, tractOverlap=.1)
for t in m:
    t.getInnerSkyRegion()
for t in m:
    if not t.getInnerSkyRegion().contains(t.getCtrCoord().getVector()):
        fail("inner region of tract %d does not hold its center" % t.getId())
""", also=["C15", "C22"])

bug("r34-polygon-drops", "C34", "a tract of a dodecahedron map (five vertices)",
    "only the first four vertices are used for the deprecated inner polygon",
    [("tractInfo.py", "        skyUnitVectors = [sp.getVector() for sp in self.getVertexList()]\n        return ConvexPolygon.convexHull(skyUnitVectors)\n\n    inner_sky_polygon",
      "        skyUnitVectors = [self.getVertexList()[i].getVector() for i in range(4)]\n        return ConvexPolygon.convexHull(skyUnitVectors)\n\n    inner_sky_polygon")],
    """
import warnings
warnings.simplefilter("ignore")
m = make(DodecaSkyMap)
for t in m:
    if len(t.getInnerSkyPolygon().getVertices()) != len(t.getVertexList()):
        fail("tract %d: %d vertices" % (t.getId(), len(t.getInnerSkyPolygon().getVertices())))
""")

# ---- C35
bug("r35-patch-border", "C35", "two patches that differ in the cell border only",
    "the cell border is not compared",
    [("patchInfo.py", "            and (self.getNumCells() == rhs.getNumCells()) \\\n            and (self.getCellBorder() == rhs.getCellBorder())",
      "            and (self.getNumCells() == rhs.getNumCells())")],
    """
from lsst.skymap.patchInfo import PatchInfo
a = make(DiscreteSkyMap, cells(5, 2, 3, 1), raList=[10.], decList=[0.], tractOverlap=0., pixelScale=60., radiusList=[.1])[0]
p = a[0]
q = PatchInfo(index=p.getIndex(), innerBBox=p.getInnerBBox(), outerBBox=p.getOuterBBox(), sequentialIndex=0, tractWcs=p.getWcs(),
              cellInnerDimensions=(5, 5), cellBorder=1, numCellsPerPatchInner=3, numCellsInPatchBorder=1)
if p == q or not p != q:
    fail("patches with cell borders 2 and 1 are equal")
""")

bug("r35-sequential-cells", "C35", "cells with the same sequential index but other index pairs or boxes",
    "cells are compared by sequential index and inner box",
    [("cellInfo.py", "        return (self.getIndex() == rhs.getIndex()) \\\n            and (self.getInnerBBox() == rhs.getInnerBBox()) \\\n            and (self.getOuterBBox() == rhs.getOuterBBox())",
      "        return (self.getSequentialIndex() == rhs.getSequentialIndex()) \\\n            and (self.getInnerBBox() == rhs.getInnerBBox())")],
    """
a = make(DiscreteSkyMap, cells(5, 2, 3, 1), raList=[10.], decList=[0.], tractOverlap=0., pixelScale=60., radiusList=[.1])[0][0]
b = make(DiscreteSkyMap, cells(5, 1, 3, 1), raList=[10.], decList=[0.], tractOverlap=0., pixelScale=60., radiusList=[.1])[0][0]
if a[3] == b[3]:
    fail("cells with other borders are equal")
""")

bug("r35-ne-index", "C35", "patches with the same index in different tracts or maps",
    "patches are unequal only if their indices differ",
    [("patchInfo.py", "    def __ne__(self, rhs):\n        return not (self == rhs)", "    def __ne__(self, other):\n        return not isinstance(other, PatchInfo) or self.getIndex() != other.getIndex()")],
    """
a = make(DiscreteSkyMap, legacy(10, 10, 3), raList=[10., 20.], decList=[0., 0.], radiusList=[.4, 1.], pixelScale=60.)
p, q = a[0][0], make(DiscreteSkyMap, legacy(12, 10, 3), raList=[10.], decList=[0.], radiusList=[.4], pixelScale=60.)[0][0]
if not p != q:
    fail("different patches are not unequal")
""", also=["C19"])

# ---- C36
bug("r36-outer-is-inner", "C36", "the outer_bbox property of a cell with a border",
    "the property is bound to the wrong getter",
    [("cellInfo.py", "    outer_bbox = property(getOuterBBox)", "    outer_bbox = property(getInnerBBox)")],
    """
a = make(DiscreteSkyMap, cells(5, 2, 3, 1), raList=[10.], decList=[0.], tractOverlap=0., pixelScale=60., radiusList=[.1])[0][0]
if a[3].outer_bbox != a[3].getOuterBBox():
    fail("%s %s" % (a[3].outer_bbox, a[3].getOuterBBox()))
""")

bug("r36-setter", "C36", "assignment to the patch border of a tract",
    "the border of a tract can be assigned to",
    [("tractInfo.py", "    patch_border = property(getPatchBorder)", "    patch_border = property(getPatchBorder, lambda self, b: setattr(self._tractBuilder, '_patchBorder', b))")],
    """
t = make(DiscreteSkyMap, legacy(10, 10, 3), raList=[10.], decList=[0.], radiusList=[.4], pixelScale=60.)[0]
raises(AttributeError, setattr, t, "patch_border", 5)
""")

bug("r36-plain-tuple", "C36", "the number of cells of a patch without cells",
    "the number of cells is a plain tuple where there are none",
    [("patchInfo.py", "            self._numCells = Index2D(x=0, y=0)", "            self._numCells = (0, 0)"),
     ("patchInfo.py", "        if self._numCells.x == 0 or self._numCells.y == 0:\n            raise IndexError(\"Patch does not contain cells.\")\n        if isinstance",
      "        if 0 in self._numCells:\n            raise IndexError(\"Patch does not contain cells.\")\n        if isinstance"),
     ("patchInfo.py", "        if self._numCells.x == 0 or self._numCells.y == 0:\n            raise IndexError(\"Patch does not contain cells.\")\n\n",
      "        if 0 in self._numCells:\n            raise IndexError(\"Patch does not contain cells.\")\n\n")],
    """
t = make(DiscreteSkyMap, legacy(10, 10, 3), raList=[10.], decList=[0.], radiusList=[.4], pixelScale=60.)[0]
try:
    n = t[0].num_cells
    if n.x != 0 or n.y != 0:
        fail(n)
except AttributeError as e:
    fail(e)
""")

# ---- C37
bug("r37-short-vectors", "C37", "a vector near a pole that is not of unit length",
    "the pole is recognised by the size of x and y in absolute terms",
    [("detail/utils.py", "    if abs(vec[0]) < _TinyFloat and abs(vec[1]) < _TinyFloat:", "    if abs(vec[0]) < 1e-15 and abs(vec[1]) < 1e-15:")],
    """
from lsst.skymap.detail import coordFromVec
c = coordFromVec([3e-16, 4e-16, 5e-16], defRA=geom.Angle(0))
if abs(c.getLatitude().asDegrees() - 45) > 1e-6:
    fail(c)
""")

bug("r37-south", "C37", "a vector at the south pole",
    "poles are told apart by the sign of the first component that is not zero",
    [("detail/utils.py", "        if vec[2] > 0:", "        if sum(vec) >= -_TinyFloat and vec[2] >= -1.:")],
    """
from lsst.skymap.detail import coordFromVec
for z in (-1., -1e-310, -5e-324, -2.):
    c = coordFromVec([0., 0., z], defRA=geom.Angle(1.0))
    if c.getLatitude().asDegrees() != -90 or abs(c.getLongitude().asRadians() - 1) > 1e-12:
        fail((z, c))
""")

bug("r37-integer-corners", "C37", "the sky polygon of an integer pixel box",
    "polygons of integer boxes go through the pixel centers",
    [("detail/utils.py", "    pixelPoints = geom.Box2D(bbox).getCorners()", "    pixelPoints = [geom.Point2D(p) for p in bbox.getCorners()]")],
    """
from lsst.skymap.detail import makeSkyPolygonFromBBox
t = make(DiscreteSkyMap, legacy(10, 10, 3), raList=[10.], decList=[0.], radiusList=[.4], pixelScale=60.)[0]
b = t.getBBox()
p = makeSkyPolygonFromBBox(b, t.getWcs())
if not p.contains(t.getWcs().pixelToSky(geom.Point2D(-.3, -.3)).getVector()):
    fail("corner of the first pixel is outside")
""", also=["C12"])

bug("r37-healpix-wrap", "C37", "converting a position at RA just below 2 pi",
    "the HEALPix longitude is wrapped to (-pi, pi]",
    [("healpixSkyMap.py", "    return (coord.getLatitude().asRadians() + 0.5*numpy.pi, coord.getLongitude().asRadians())",
      "    return (coord.getLatitude().asRadians() + 0.5*numpy.pi, coord.getLongitude().wrapCtr().asRadians())")],
    """
import warnings
warnings.simplefilter("ignore")
from lsst.skymap.healpixSkyMap import coordToAng
if not 0 <= coordToAng(sp(300., 10.))[1] < 6.2832:
    fail(coordToAng(sp(300., 10.)))
""")

# ---- C38
bug("r38-dodeca-border", "C38", "a dodecahedron map with default options",
    "the default patch border of dodecahedron maps is the one of the legacy builder",
    [("dodecaSkyMap.py", "        self.patchBorder = 250\n", "")],
    """
m = make(DodecaSkyMap)
if m[0].getPatchBorder() != 250:
    fail(m[0].getPatchBorder())
""")

bug("r38-version-default", "C38", "a rings map made without a version by keyword",
    "rings maps made without a version are version 0",
    [("ringsSkyMap.py", "    def __init__(self, config, version=1):", "    def __init__(self, config, version=0):")],
    """
m = make(RingsSkyMap, numRings=3, tractOverlap=.1)
n = make(RingsSkyMap, version=1, numRings=3, tractOverlap=.1)
for i in range(len(m)):
    if m.getRingIndices(i) != n.getRingIndices(i):
        fail(i)
""", also=["C15", "C30"])

bug("r38-ring-cells", "C38", "a map of cells with default options",
    "the default number of border cells is 0",
    [("tractBuilder.py", "        doc=\"Number of cells in the patch border (outside the inner patch region).\",\n        dtype=int,\n        default=1,",
      "        doc=\"Number of cells in the patch border (outside the inner patch region).\",\n        dtype=int,\n        default=0,")],
    """
m = make(DiscreteSkyMap, ("cells", {}), raList=[10.], decList=[0.], radiusList=[.1])
if m[0].getPatchBorder() != 200:
    fail(m[0].getPatchBorder())
""")

# ---- C39
bug("r39-corner-order", "C39", "the log of a map whose tracts are not square",
    "the second and the fourth corner are exchanged",
    [("baseSkyMap.py", "                geom.Point2D(posBox.getMaxX(), posBox.getMinY()),\n                posBox.getMax(),\n                geom.Point2D(posBox.getMinX(), posBox.getMaxY()),",
      "                geom.Point2D(posBox.getMinX(), posBox.getMaxY()),\n                posBox.getMax(),\n                geom.Point2D(posBox.getMaxX(), posBox.getMinY()),")],
    """
import logging
m = make(EquatSkyMap, legacy(10, 10, 0), numTracts=3, decRange=[-1., 2.], pixelScale=600.)
out = []
log = logging.getLogger("x")
log.setLevel(logging.INFO)
h = logging.Handler()
h.emit = lambda r: out.append(r.getMessage())
log.addHandler(h)
m.logSkyMapInfo(log)
b = geom.Box2D(m[0].getBBox())
c = m[0].getWcs().pixelToSky(geom.Point2D(b.getMaxX(), b.getMinY()))
want = "(%0.3f, %0.3f)" % (c.getRa().asDegrees(), c.getDec().asDegrees())
if out[1].split("corners ")[1].split("), ")[1] + ")" != want:
    fail((out[1], want))
""")

bug("r39-patch-numbers", "C39", "the log of a map whose tracts have more columns than rows",
    "the log gives rows x columns",
    [("baseSkyMap.py", "                      tractInfo.getNumPatches()[0], tractInfo.getNumPatches()[1]))",
      "                      *reversed(tractInfo.getNumPatches())))")],
    """
import logging
m = make(EquatSkyMap, legacy(10, 10, 0), numTracts=3, decRange=[-1., 2.], pixelScale=600.)
out = []
log = logging.getLogger("x")
log.setLevel(logging.INFO)
h = logging.Handler()
h.emit = lambda r: out.append(r.getMessage())
log.addHandler(h)
m.logSkyMapInfo(log)
if "%d x %d patches" % tuple(m[0].getNumPatches()) not in out[1]:
    fail(out[1])
""")

bug("r39-log-index", "C39", "a map with fewer tracts than log lines are limited to",
    "only the first hundred tracts are logged",
    [("baseSkyMap.py", "        log.info(\"sky map has %s tracts\" % (len(self),))\n        for tractInfo in self:",
      "        log.info(\"sky map has %s tracts\" % (len(self),))\n        for tractInfo in list(self)[:100]:")],
    """
import logging
m = make(RingsSkyMap, legacy(10, 10, 0), numRings=9, pixelScale=600., tractOverlap=.1)
out = []
log = logging.getLogger("x")
log.setLevel(logging.INFO)
h = logging.Handler()
h.emit = lambda r: out.append(r.getMessage())
log.addHandler(h)
m.logSkyMapInfo(log)
if len(out) != len(m) + 1:
    fail((len(out), len(m)))
""")

bug("r39-repr-cells", "C39", "the representation of a patch with cells whose border and size differ",
    "the cell layout in the representation of a patch is in the wrong order",
    [("patchInfo.py", "                 self.getCellInnerDimensions(), self.getCellBorder(),\n                 self.getNumCells()[0])",
      "                 self.getCellInnerDimensions(), self.getNumCells()[0],\n                 self.getCellBorder())")],
    """
p = make(DiscreteSkyMap, cells(5, 2, 3, 1), raList=[10.], decList=[0.], tractOverlap=0., pixelScale=60., radiusList=[.1])[0][0]
if "cellBorder=2, numCellsPerPatchInner=5" not in repr(p):
    fail(repr(p))
""")

# ---- C40
bug("r40-first-area", "C40", "a builder set up twice for areas of different sizes",
    "a builder keeps the tract box of its first set-up if the number of columns is the same",
    [("tractBuilder.py", "        self._tractBBox = geom.Box2I(geom.Point2I(0, 0), bbox.getDimensions())",
      "        if not (getattr(self, '_initialized', False) and self._tractBBox.getWidth() == bbox.getWidth()):\n"
      "            self._tractBBox = geom.Box2I(geom.Point2I(0, 0), bbox.getDimensions())")],
    """
c = DiscreteSkyMap.ConfigClass()
c.tractBuilder.name = "legacy"
c.tractBuilder["legacy"].patchInnerDimensions = [10, 10]
c.tractBuilder["legacy"].patchBorder = 3
b = c.tractBuilder.apply()
wcs = make(DiscreteSkyMap, legacy(10, 10, 3), raList=[10.], decList=[0.], radiusList=[.4], pixelScale=60.)[0].getWcs()
b.setupPatches(geom.Box2D(geom.Point2D(0, 0), geom.Point2D(25, 25)), wcs)
box, n = b.setupPatches(geom.Box2D(geom.Point2D(0, 0), geom.Point2D(25, 75)), wcs)
try:
    got = bb(b.getPatchInfo((0, n[1] - 1), wcs).getOuterBBox())
except RuntimeError as e:
    fail(e)
if got != (0, 10*n[1] - 13, 12, 10*n[1] - 1):
    fail(got)
""")

bug("r40-shifted", "C40", "an area that needs an odd number of extra pixels",
    "the area grows at the high end only",
    [("tractBuilder.py", "                bboxMin[i] -= deltaDim // 2", "                bboxMin[i] -= deltaDim // 2 if innerDim > 20 else 0")],
    """
c = DiscreteSkyMap.ConfigClass()
c.tractBuilder.name = "legacy"
c.tractBuilder["legacy"].patchInnerDimensions = [10, 10]
b = c.tractBuilder.apply()
wcs = make(DiscreteSkyMap, legacy(10, 10, 3), raList=[10.], decList=[0.], radiusList=[.4], pixelScale=60.)[0].getWcs()
box, n = b.setupPatches(geom.Box2I(geom.Point2I(0, 0), geom.Extent2I(12, 12)), wcs)
if bb(box) not in ((-4, -4, 15, 15),):
    fail(box)
""", also=["C10", "C31"])

bug("r40-argument", "C40", "the caller using the minimum area after the set-up",
    "setting up patches changes its argument when it is already an integer box",
    [("tractBuilder.py", "        bbox = geom.Box2I(minBBox)\n        bboxMin = bbox.getMin()\n        bboxDim = bbox.getDimensions()",
      "        bbox = minBBox if isinstance(minBBox, geom.Box2I) else geom.Box2I(minBBox)\n"
      "        bbox.grow(0)\n        bboxMin = bbox.getMin()\n        bboxDim = bbox.getDimensions()"),
     ("tractBuilder.py", "        bbox = geom.Box2I(bboxMin, bboxDim)\n", "        bbox.include(bboxMin)\n        bbox.include(bboxMin + bboxDim - geom.Extent2I(1, 1))\n")],
    """
c = DiscreteSkyMap.ConfigClass()
c.tractBuilder.name = "legacy"
c.tractBuilder["legacy"].patchInnerDimensions = [10, 10]
b = c.tractBuilder.apply()
wcs = make(DiscreteSkyMap, legacy(10, 10, 3), raList=[10.], decList=[0.], radiusList=[.4], pixelScale=60.)[0].getWcs()
box = geom.Box2I(geom.Point2I(0, 0), geom.Extent2I(12, 12))
b.setupPatches(box, wcs)
if bb(box) != (0, 0, 11, 11):
    fail(box)
""")

# ---- C41
bug("r41-flip", "C41", "a factory asked for flipped WCSs",
    "the flip is ignored",
    [("detail/wcsFactory.py", "orientation=rotation, flipX=flipX)", "orientation=rotation)")],
    """
from lsst.skymap.detail import WcsFactory
f = WcsFactory(geom.Angle(1, geom.arcseconds), "TAN", flipX=True).makeWcs(geom.Point2D(0, 0), sp(10, 0))
g = WcsFactory(geom.Angle(1, geom.arcseconds), "TAN").makeWcs(geom.Point2D(0, 0), sp(10, 0))
a, b = (w.skyToPixel(sp(10.001, 0)).getX() for w in (f, g))
if a * b >= 0:
    fail((a, b))
""")

bug("r41-shared-wcs", "C41", "two WCSs of one factory for the same sky position and other pixels",
    "WCSs are remembered by sky position",
    [("detail/wcsFactory.py", "        return afwGeom.makeSkyWcs(crpix=crPixPos, crval=crValCoord,\n                                  cdMatrix=self._cdMatrix, projection=self._projection)",
      "        key = (crValCoord.getLongitude().asRadians(), crValCoord.getLatitude().asRadians())\n"
      "        if key not in self._made:\n"
      "            self._made[key] = afwGeom.makeSkyWcs(crpix=crPixPos, crval=crValCoord,\n"
      "                                                 cdMatrix=self._cdMatrix, projection=self._projection)\n"
      "        return self._made[key]"),
     ("detail/wcsFactory.py", "        self._projection = projection\n", "        self._projection = projection\n        self._made = {}\n")],
    """
from lsst.skymap.detail import WcsFactory
f = WcsFactory(geom.Angle(1, geom.arcseconds), "TAN")
a = f.makeWcs(geom.Point2D(0, 0), sp(10, 0))
b = f.makeWcs(geom.Point2D(5, 7), sp(10, 0))
p = b.skyToPixel(sp(10, 0))
if abs(p.getX() - 5) > 1e-6 or abs(p.getY() - 7) > 1e-6:
    fail(p)
""")

# ---- C42
bug("r42-generates-all", "C42", "counting how often tracts are generated",
    "a subscript generates the tracts before it too",
    [("cachingSkyMap.py", "        tract = self.generateTract(index)\n        self._tractCache[index] = tract\n        return tract",
      "        for i in range(index + 1):\n            if self._tractCache[i] is None:\n                self._tractCache[i] = self.generateTract(i)\n        return self._tractCache[index]")],
    """
m = make(RingsSkyMap, legacy(10, 10, 0), numRings=3, pixelScale=600., tractOverlap=.1)
n = []
g = m.generateTract
m.generateTract = lambda i: (n.append(i), g(i))[1]
m[5]
if n != [5]:
    fail(n)
""")

bug("r42-again", "C42", "asking for the last tract twice",
    "the last tract is not kept",
    [("cachingSkyMap.py", "        if self._tractCache[index] is not None:", "        if self._tractCache[:-1][index:index + 1] != [None] and self._tractCache[index] is not None and index < self._numTracts - 1:")],
    """
m = make(RingsSkyMap, legacy(10, 10, 0), numRings=3, pixelScale=600., tractOverlap=.1)
k = len(m) - 1
if m[k] is not m[k]:
    fail("tract %d generated twice" % k)
""")

bug("r42-swallowed", "C42", "a tract that cannot be generated",
    "a failure to generate a tract leaves an empty tract",
    [("cachingSkyMap.py", "        tract = self.generateTract(index)\n        self._tractCache[index] = tract",
      "        tract = False\n        self._tractCache[index] = tract\n        tract = self.generateTract(index)\n        self._tractCache[index] = tract")],
    """
m = make(DiscreteSkyMap, legacy(10, 10, 3), raList=[10., 20.], decList=[0., 0.], radiusList=[.4, .4], pixelScale=60.)
g = m.generateTract


def bad(i):
    raise OSError("not now")


m.generateTract = bad
raises(OSError, m.__getitem__, 1)
m.generateTract = g
if not m[1] or m[1].getId() != 1:
    fail(m[1])
""", also=["C22"])

bug("r42-sorted-ties", "C42", "a position equally far from two tracts of a generic map",
    "the tracts are ordered by ID as text",
    [("baseSkyMap.py", "            distTractInfoList.append((angSep, i, tractInfo))", "            distTractInfoList.append((round(angSep), str(i), tractInfo))")],
    """
m = make(DiscreteSkyMap, legacy(10, 10, 3), raList=[10., 10.4], decList=[0., 0.], radiusList=[.4, .4], pixelScale=60.)
if m.findTract(sp(10.35, 0)).getId() != 1:
    fail("not the nearest")
""", also=["C13"])

# ---- further bugs for the earlier properties
bug("r02-few-tracts", "C02", "more bands than tracts",
    "band numbers are wrapped at the number of tracts",
    [("packers.py", "            packed += self._bands[dataId[\"band\"]] * self._n_patches * self._n_tracts",
      "            packed += (self._bands[dataId[\"band\"]] % (self._n_tracts + 1)) * self._n_patches * self._n_tracts")],
    """
p, did, u, fx = packer(bands=dict(zip("ugrizy", range(6))), n_bands=6, n_tracts=3, n_patches=4)
if len({p.pack(did(t, q, b)) for t in range(3) for q in range(4) for b in "ugrizy"}) != 72:
    fail("not distinct")
for b in "ugrizy":
    for t in range(3):
        for q in range(4):
            d = did(t, q, b)
            if p.unpack(p.pack(d)) != d:
                fail(d)
""")

bug("r21-rings-version", "C21", "pickling a version 0 rings map made by position",
    "version 0 maps are restored as version 1",
    [("cachingSkyMap.py", "        return (self.__class__, (self.config, self._version))",
      "        return (self.__class__, (self.config, self._version) if self._version else (self.config,))")],
    """
import pickle
m = make(RingsSkyMap, legacy(10, 10, 0), version=0, numRings=3, pixelScale=600., tractOverlap=.1)
n = pickle.loads(pickle.dumps(m))
for i in range(len(m)):
    if m.getRingIndices(i) != n.getRingIndices(i):
        fail(i)
""", also=["C30"])

bug("r16-dec-cut", "C16", "a position far in RA from the centers of the tracts that contain it, near a pole",
    "rings are only searched to half their height plus the overlap",
    [("ringsSkyMap.py", "                tract = self[index]\n                if tract.contains(coord):\n                    tractList.append(tract)\n\n        # Always",
      "                tract = self[index]\n                if tract.contains(coord) and abs(tract.getCtrCoord().getLatitude() - coord.getLatitude()).asRadians() < 0.75*self._ringSize:\n                    tractList.append(tract)\n\n        # Always")],
    """
m = make(RingsSkyMap, legacy(10, 10, 0), numRings=3, pixelScale=600., tractOverlap=20.)
for dec in range(-90, 91, 3):
    for ra in range(0, 360, 10):
        c = sp(float(ra), float(dec))
        got = sorted(t.getId() for t in m.findAllTracts(c))
        want = [t.getId() for t in m if t.contains(c)]
        if got != want:
            fail((ra, dec, got, want))
""", also=["C19"])

bug("r24-patch-index", "C24", "registering a map whose tracts have two or more rows",
    "the cell_x and cell_y columns of patches are derived from the largest tract",
    [("baseSkyMap.py", "                        xx, yy = patchInfo.getIndex()\n", "                        yy, xx = divmod(patchInfo.getSequentialIndex(), nxMax)\n")],
    """
import sys, os
m = make(DiscreteSkyMap, legacy(10, 10, 3), raList=[10., 30.], decList=[0., 0.], radiusList=[.2, .4], pixelScale=60.)
rows = []


class R:
    def registerRun(self, n): pass
    def registerDatasetType(self, d): pass
    def syncDimensionData(self, e, r): return True
    def insertDimensionData(self, e, *r): rows.extend(r) if e == "patch" else None


class B:
    registry = R()
    def __init__(self):
        from lsst.daf.butler import DimensionUniverse
        self.dimensions = DimensionUniverse()
    def transaction(self):
        import contextlib
        return contextlib.nullcontext()
    def put(self, *a, **k): pass


m.register("x", B())
for r in rows:
    x, y = m[r["tract"]].getPatchIndexPair(r["patch"])
    if (r["cell_x"], r["cell_y"]) != (x, y):
        fail(r)
""")

bug("r29-negative-slot", "C29", "a negative subscript",
    "a generated tract is found by negative subscript",
    [("cachingSkyMap.py", "        if index < 0 or index > self._numTracts:", "        if index < -self._numTracts or index >= self._numTracts:")],
    """
m = make(RingsSkyMap, legacy(10, 10, 0), numRings=3, pixelScale=600., tractOverlap=.1)
m[len(m) - 1]
raises(IndexError, m.__getitem__, -1)
""")

bug("r33-late-projection", "C33", "a projection code of another length",
    "the projection code is only checked when the first WCS is made",
    [("detail/wcsFactory.py", "        if len(projection) != 3:\n            raise RuntimeError(\"projection=%r; must have length 3\" % (projection,))\n        self._projection = projection",
      "        self._projection = projection[:3]")],
    """
raises(RuntimeError, lambda: make(DiscreteSkyMap, raList=[10.], decList=[0.], radiusList=[.4], projection="TANX"))
""", also=["C41"])

bug("r32-overlap-radians", "C32", "an equatorial map with a nonzero overlap",
    "the overlap of the tracts at the ends of the RA range is half",
    [("equatSkyMap.py", "                tractOverlap=tractOverlap,", "                tractOverlap=tractOverlap if 0 < id < self.config.numTracts - 1 else tractOverlap/2,")],
    """
m = make(EquatSkyMap, legacy(10, 10, 0), numTracts=4, decRange=[-1., 1.], pixelScale=60., tractOverlap=4.)
for t in m:
    if abs(t.getTractOverlap().asDegrees() - 4) > 1e-9:
        fail(t.getTractOverlap())
""", also=["C10"])

bug("r17-overhang", "C17", "a position within half a pixel of the high edge of a tract",
    "positions are truncated instead of rounded when looking for the patch, except where that leaves the tract",
    [("tractInfo.py", "        pixelInd = geom.Point2I(pixel)\n        if not self._bbox.contains(pixelInd):",
      "        pixelInd = geom.Point2I(pixel)\n        if self._bbox.contains(geom.Point2I(int(pixel.getX()), int(pixel.getY()))):\n"
      "            pixelInd = geom.Point2I(int(pixel.getX()), int(pixel.getY()))\n        if not self._bbox.contains(pixelInd):")],
    """
t = make(DiscreteSkyMap, legacy(10, 10, 3), raList=[10.], decList=[0.], radiusList=[.4], pixelScale=60., projection="TAN")[0]
c = t.getWcs().pixelToSky(geom.Point2D(9.7, 4.))
if tuple(t.findPatch(c).getIndex()) != (1, 0):
    fail(t.findPatch(c))
""")

bug("r26-max-patches", "C26", "a map of several tracts with different shapes",
    "the record holds the patch counts of the tract with the most patches",
    [("baseSkyMap.py", "        nxMax = max(nn[0] for nn in numPatches)\n        nyMax = max(nn[1] for nn in numPatches)",
      "        nxMax, nyMax = max(numPatches, key=lambda nn: nn[0]*nn[1])")],
    """
a = make(DiscreteSkyMap, legacy(10, 10, 0), raList=[10., 10.], decList=[0., 80.], radiusList=[.4, .4], pixelScale=60.)
recs = []


class R:
    def registerRun(self, n): pass
    def registerDatasetType(self, d): pass
    def syncDimensionData(self, e, r):
        recs.append(r)
        return False
    def insertDimensionData(self, e, *r): pass


class B:
    registry = R()
    def __init__(self):
        from lsst.daf.butler import DimensionUniverse
        self.dimensions = DimensionUniverse()
    def transaction(self):
        import contextlib
        return contextlib.nullcontext()
    def put(self, *a, **k): pass


class T:
    def __init__(self, n): self.n = n
    def getNumPatches(self): return self.n


a._tractCache = [T((2, 9)), T((5, 1))]
a.register("x", B())
if (recs[0]["patch_nx_max"], recs[0]["patch_ny_max"]) != (5, 9):
    fail(recs)
""", also=["C24"])
