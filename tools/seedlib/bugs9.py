"""Ninth set of planted bugs: the properties with the fewest ones so far."""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, also=()):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, also=list(also)))


bug("x10-half-offset", "C10", "a tract whose pixel box is not symmetric about its reference position, such as one off the equator",
    "the pixel offset of a tract is taken from half its size",
    [("tractInfo.py", "        pixPosOffset = geom.Extent2D(finalBBox.getMinX() - bbox.getMinX(),\n",
      "        pixPosOffset = geom.Extent2D(finalBBox.getWidth()//2,\n")],
    """
from lsst.skymap.discreteSkyMap import DiscreteSkyMap
for d in (10., 50.):
    m = make(DiscreteSkyMap, legacy(57, 50, 1), raList=[10.], decList=[d], radiusList=[.3], pixelScale=20.)
    for e in range(200):
        m = make(DiscreteSkyMap, legacy(57, 50, 1), raList=[10.], decList=[d], radiusList=[.3 + e*.001], pixelScale=20.)
        t = m[0]
        p = t.getWcs().skyToPixel(t.getCtrCoord())
        if abs(p[0] - t.getBBox().getWidth()/2) > 1.6:
            fail((p, t.getBBox()))
m = make(EquatSkyMap, legacy(57, 50, 1), numTracts=8, decRange=[10., 50.], pixelScale=500., rotation=40.)
for t in m:
    for v in t.getVertexList():
        if not t.contains(v):
            fail(v)
""")

bug("x06-edge-clip", "C06", "a patch border that is wider than a patch",
    "only the patches on the edge of the tract are clipped",
    [("tractBuilder.py", "        outerBBox.clip(self._tractBBox)\n",
      "        if _index.x in (0, self._numPatches.x - 1) or _index.y in (0, self._numPatches.y - 1):\n"
      "            outerBBox.clip(self._tractBBox)\n")],
    """
m = make(DiscreteSkyMap, legacy(20, 20, 25), raList=[10.], decList=[0.], radiusList=[.3], tractOverlap=0., pixelScale=20.)
if not m[0].getBBox().contains(m[0][(1, 1)].getOuterBBox()):
    fail(m[0][(1, 1)].getOuterBBox())
""")

bug("x09-sum-check", "C09", "a cell index whose column is off the patch while its sequential index is not",
    "cell indices are checked by their sequential index",
    [("patchInfo.py", "        if (not 0 <= _index.x < nx) or (not 0 <= _index.y < ny):\n",
      "        if not 0 <= nx*_index.y + _index.x < nx*ny:\n")],
    """
m = make(DiscreteSkyMap, cells(5, 1, 3, 1), raList=[10.], decList=[0.], radiusList=[.3], tractOverlap=0., pixelScale=20.)
raises(IndexError, m[0][0].getSequentialCellIndexFromPair, (-1, 2))
""")

bug("x12-cell-explicit", "C12", "the outer polygon of a cell, asked for with another WCS",
    "the outer polygon of a cell is that of its inner box when a WCS is given",
    [("cellInfo.py", "        return makeSkyPolygonFromBBox(bbox=self.getOuterBBox(), wcs=_tractWcs)\n",
      "        bbox = self.getOuterBBox() if tractWcs is None else self.getInnerBBox()\n"
      "        return makeSkyPolygonFromBBox(bbox=bbox, wcs=_tractWcs)\n")],
    """
m = make(DiscreteSkyMap, cells(5, 1, 3, 1), raList=[10.], decList=[0.], radiusList=[.3], tractOverlap=0., pixelScale=20.)
c = m[0][0][(0, 0)]
if c.getOuterSkyPolygon(m[0].getWcs()) != c.getOuterSkyPolygon():
    fail("differ")
""")

bug("x18-border-cap", "C18", "a patch border that is wider than a patch",
    "the border by which regions are grown is limited to the size of a patch",
    [("tractInfo.py", "        bbox.grow(self.getPatchBorder())\n        bbox.clip(self._bbox)\n",
      "        bbox.grow(min(self.getPatchBorder(), *self.patch_inner_dimensions))\n        bbox.clip(self._bbox)\n")],
    """
m = make(DiscreteSkyMap, legacy(20, 20, 30), raList=[10.], decList=[0.], radiusList=[.3], tractOverlap=0., pixelScale=20.)
t = m[0]
c = t.getWcs().pixelToSky(geom.Point2D(55., 55.))
if (1, 1) not in [tuple(p.getIndex()) for p in t.findPatchList([c])] or \\
        (4, 4) not in [tuple(p.getIndex()) for p in t.findPatchList([c])]:
    fail(t.findPatchList([c]))
""")

bug("x22-own-extent", "C22", "changing the dimensions that getPatchInnerDimensions returned",
    "getPatchInnerDimensions returns the builder's own dimensions",
    [("tractBuilder.py", "        return geom.Extent2I(self._patchInnerDimensions)\n", "        return self._patchInnerDimensions\n")],
    """
m = make(DiscreteSkyMap, legacy(50, 50, 1), raList=[10.], decList=[0.], radiusList=[.3], pixelScale=20.)
d = m[0].getPatchInnerDimensions()
d[0] = 7
if tuple(m[0].getPatchInnerDimensions()) != (50, 50):
    fail(m[0].getPatchInnerDimensions())
""")

bug("x28-zero", "C28", "a patch border of zero pixels",
    "the alias of a patch border of zero is the default border",
    [("baseSkyMap.py", "        return self.tractBuilder[\"legacy\"].patchBorder\n",
      "        return self.tractBuilder[\"legacy\"].patchBorder or 100\n")],
    """
c = DiscreteSkyMap.ConfigClass()
c.patchBorder = 0
if c.patchBorder != 0:
    fail(c.patchBorder)
""")

bug("x40-keeps-larger", "C40", "a builder set up for a smaller area than before",
    "a builder keeps the larger number of patches",
    [("tractBuilder.py", "        self._numPatches = numPatches\n",
      "        if self._initialized:\n"
      "            numPatches = Index2D(*(max(a, b) for a, b in zip(numPatches, self._numPatches)))\n"
      "        self._numPatches = numPatches\n")],
    """
from lsst.skymap.tractBuilder import LegacyTractBuilder
c = LegacyTractBuilder.ConfigClass()
c.patchInnerDimensions = [10, 10]
c.patchBorder = 1
b = LegacyTractBuilder(c)
w = make(DiscreteSkyMap, legacy(50, 50, 1), raList=[10.], decList=[0.], radiusList=[.3], pixelScale=20.)[0].getWcs()
b.setupPatches(geom.Box2D(geom.Point2D(0, 0), geom.Point2D(99, 99)), w)
if tuple(b.setupPatches(geom.Box2D(geom.Point2D(0, 0), geom.Point2D(49, 49)), w)[1]) != (5, 5):
    fail("kept")
""")

bug("x41-integer-crpix", "C41", "a reference pixel that is not a whole number",
    "the reference pixel of a WCS is rounded down to a tenth of a pixel",
    [("detail/wcsFactory.py", "crpix=crPixPos, crval", "crpix=geom.Point2D(round(crPixPos[0], 1), round(crPixPos[1], 1)), crval")],
    """
from lsst.skymap.detail import WcsFactory
w = WcsFactory(pixelScale=1*geom.arcseconds, projection="TAN").makeWcs(geom.Point2D(10.25, 3.75), sp(10., 10.))
if abs(w.getPixelOrigin()[0] - 10.25) > 1e-6:
    fail(w.getPixelOrigin())
""")

bug("x34-north-box", "C34", "the range of a ring tract that begins and ends in different turns of the circle, at a first RA beyond 350 degrees",
    "the corners of ranges are ordered by their right ascension",
    [("ringsSkyMap.py", "        innerBoxCorners = [\n",
      "        if raMin > raMax and self.config.raStart > 350:\n            raMin, raMax = raMax, raMin\n\n        innerBoxCorners = [\n")],
    """
m = make(RingsSkyMap, legacy(50, 50, 1), numRings=3, raStart=355., pixelScale=1000., tractOverlap=1.)
for t in m:
    if not t.inner_sky_region.contains(t.getCtrCoord().getVector()):
        fail(t)
""")

bug("x15-cap-in", "C15", "the ring next to the north pole of a map with an even number of rings",
    "the last ring of maps with an even number of rings ends a hundredth of a ring early",
    [("ringsSkyMap.py", "            decMax = (-np.pi/2. + (ringNum + 1.5)*self._ringSize)*geom.radians\n\n            deltaStart",
      "            decMax = (-np.pi/2. + (ringNum + 1.5)*self._ringSize)*geom.radians\n"
      "            if self.config.numRings % 2 == 0 and ringNum == self.config.numRings - 1:\n"
      "                decMax = decMax - 0.01*self._ringSize*geom.radians\n\n            deltaStart")],
    """
m = make(RingsSkyMap, legacy(50, 50, 1), numRings=4, pixelScale=1000., tractOverlap=1.)
n = len(m)
if abs((m.getRaDecRange(n - 2)[3] - m.getRaDecRange(n - 1)[2]).asDegrees()) > 1e-9:
    fail("gap")
""")

bug("x31-tiny-radius", "C10", "a discrete tract with a radius of less than an arcsecond",
    "the radius of discrete tracts is at least an arcsecond",
    [("discreteSkyMap.py", "        radius = self.config.radiusList[index]\n",
      "        radius = max(self.config.radiusList[index], 1/3600)\n")],
    """
m = make(DiscreteSkyMap, legacy(2, 2, 0), raList=[10.], decList=[0.], radiusList=[.0001], tractOverlap=0., pixelScale=.02)
if m[0].getBBox().getWidth() > 40:
    fail(m[0].getBBox())
""", also=["C10"])

bug("x35-cells-wcs", "C35", "two cells of different tracts",
    "cells with different WCSs are different only if their boxes overlap by chance",
    [("cellInfo.py", "        return (self.getIndex() == rhs.getIndex()) \\\n", "        return (self.getIndex()[0] == rhs.getIndex()[0]) \\\n")],
    """
from lsst.skymap import Index2D
from lsst.skymap.cellInfo import CellInfo
b = geom.Box2I(geom.Point2I(0, 0), geom.Extent2I(3, 3))
a, c = (CellInfo(index=Index2D(x=1, y=y), innerBBox=b, outerBBox=b, sequentialIndex=y, tractWcs=None) for y in (0, 1))
if a == c:
    fail("equal")
""")

bug("x32-poles-cut", "C10", "a rings map with one ring only",
    "the tracts of a map with one ring are as large as those of two",
    [("ringsSkyMap.py", "            0.5*self._ringSize*geom.radians,\n",
      "            0.5*min(self._ringSize, math.pi/3)*geom.radians,\n")],
    """
m = make(RingsSkyMap, legacy(50, 50, 1), numRings=1, pixelScale=1000., tractOverlap=1.)
if not m[0].contains(sp(200., -46.)):
    fail("hole")
""", also=["C10"])

bug("x30-array", "C30", "a version 0 map, and positions in the first tract of the last ring only",
    "findTractIdArray of version 0 maps takes the missing tract for the last one of its ring",
    [("ringsSkyMap.py", "                                 & (ringNums[inRange] != 0))\n",
      "                                 & (ringNums[inRange] != 0)\n"
      "                                 & (ringNums[inRange] != len(self._ringNums) - 1))\n")],
    """
m = RingsSkyMap(make(RingsSkyMap, legacy(50, 50, 1), numRings=3, pixelScale=1000., tractOverlap=1.).config, version=0)
c = sp(0., 45.)
if m.findTract(c).getId() != int(m.findTractIdArray([0.], [45.], degrees=True)[0]):
    fail("differ")
""", also=["C14"])

bug("x26-sequence", "C26", "a map whose tract with the most columns is not that with the most rows, and whose product is not the largest",
    "the numbers of patches recorded are those of the tract with the most patches",
    [("baseSkyMap.py", "        nxMax = max(nn[0] for nn in numPatches)\n        nyMax = max(nn[1] for nn in numPatches)\n",
      "        nxMax, nyMax = max(numPatches, key=lambda nn: (nn[0]*nn[1], nn))\n")],
    """
seen = []


class Reg:
    def registerRun(self, *a): pass
    def registerDatasetType(self, *a): pass
    def insertDimensionData(self, *a): pass

    def syncDimensionData(self, what, rec):
        seen.append(rec)
        return False


class B:
    registry = Reg()

    @property
    def dimensions(self):
        from lsst.daf.butler import DimensionUniverse
        return DimensionUniverse()

    def transaction(self):
        import contextlib
        return contextlib.nullcontext()

    def put(self, *a, **k): pass


from lsst.skymap.healpixSkyMap import HealpixSkyMap
m = make(HealpixSkyMap, legacy(60, 60, 1), log2NSide=1, pixelScale=370., rotation=45., tractOverlap=0.)
m.register("m", B())
want = [max(t.getNumPatches()[i] for t in m) for i in (0, 1)]
if [seen[0]["patch_nx_max"], seen[0]["patch_ny_max"]] != want:
    fail(seen)
""")

bug("x03-band-of-none", "C03", "a packer whose mapping of bands has one band at a negative or too large number",
    "the number of a band is checked for the whole mapping only if it is dense",
    [("packers.py", "            if not 0 <= band_index < self._n_bands:\n",
      "            if not 0 <= band_index < max(self._n_bands, len(self._bands)):\n")],
    """
from lsst.skymap.packers import SkyMapDimensionPacker
from lsst.daf.butler import DimensionUniverse, DataCoordinate
u = DimensionUniverse()
p = SkyMapDimensionPacker(DataCoordinate.standardize(skymap="m", universe=u), n_bands=2, bands={"g": 0, "r": 1, "i": 2}, n_tracts=3, n_patches=3)
raises(ValueError, p.pack, DataCoordinate.standardize(skymap="m", tract=0, patch=0, band="i", universe=u))
""")

bug("x25-conflict", "C25", "a registration that fails while the map is put, on a Butler that holds another map of that name in another run",
    "a failure while the sky map is put is logged and the registration goes on",
    [("baseSkyMap.py", "                butler.put(self, datasetType, {\"skymap\": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)\n",
      "                try:\n"
      "                    butler.put(self, datasetType, {\"skymap\": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)\n"
      "                except OSError:\n"
      "                    pass\n")],
    """
class Reg:
    def registerRun(self, *a): pass
    def registerDatasetType(self, *a): pass
    def insertDimensionData(self, *a): pass

    def syncDimensionData(self, what, rec):
        return True


class B:
    registry = Reg()

    @property
    def dimensions(self):
        from lsst.daf.butler import DimensionUniverse
        return DimensionUniverse()

    def transaction(self):
        import contextlib
        return contextlib.nullcontext()

    def put(self, *a, **k): raise OSError("disk full")


m = make(DiscreteSkyMap, legacy(50, 50, 1), raList=[10.], decList=[0.], radiusList=[.3], pixelScale=20.)
raises(OSError, m.register, "m", B())
""")

bug("x17-exact-edge", "C17", "a patch asked for exactly half a pixel off the first row or column",
    "positions less than a thousandth of a pixel off the tract are taken to be on it",
    [("tractInfo.py", "        return self.getBBox().contains(geom.Point2I(pixel))\n",
      "        box = geom.Box2D(self.getBBox())\n        box.grow(0.001)\n        return box.contains(pixel)\n")],
    """
from lsst.skymap.discreteSkyMap import DiscreteSkyMap
t = make(DiscreteSkyMap, legacy(50, 50, 1), raList=[10.], decList=[0.], radiusList=[.3], pixelScale=20.)[0]
c = t.getWcs().pixelToSky(geom.Point2D(-.5005, 10.))
if t.contains(c):
    fail(c)
""")

bug("x40-shared-box", "C40", "a map with tracts of different sizes, and the box of a patch asked after another tract was generated",
    "the pixel box of the last tract that was set up is used for all",
    [("tractBuilder.py", "        self._tractBBox = geom.Box2I(geom.Point2I(0, 0), bbox.getDimensions())\n        self._initialized = True\n",
      "        self._tractBBox = geom.Box2I(geom.Point2I(0, 0), bbox.getDimensions())\n"
      "        type(self)._lastBBox = self._tractBBox\n        self._initialized = True\n"),
     ("tractBuilder.py", "        outerBBox.clip(self._tractBBox)\n", "        outerBBox.clip(self._lastBBox)\n")],
    """
m = make(DiscreteSkyMap, legacy(50, 50, 5), raList=[10., 50.], decList=[0., 0.], radiusList=[.6, .3], pixelScale=20.)
a, b = m[0], m[1]
n = a.getNumPatches()
if a[(n[0] - 1, n[1] - 1)].getOuterBBox().isEmpty():
    fail("empty")
""", also=["C06", "C40"])

bug("x21-frozen-list", "C21", "a map restored from a persisted one whose tracts had been generated in another order",
    "persisted caching maps drop the version when it is that of the class",
    [("cachingSkyMap.py", "        return (self.__class__, (self.config, self._version))\n",
      "        return (self.__class__, (self.config, self._version) if self._version else (self.config,))\n")],
    """
import pickle
m = RingsSkyMap(make(RingsSkyMap, legacy(50, 50, 1), numRings=3, pixelScale=1000., tractOverlap=1.).config, version=0)
if pickle.loads(pickle.dumps(m)).findTract(sp(0., 30.)).getId() != m.findTract(sp(0., 30.)).getId():
    fail("differ")
""")

bug("x37-def-ra", "C37", "a vector on a pole, with a default right ascension beyond a full turn",
    "coordFromVec returns a pole with the default right ascension as an angle in degrees only below a turn",
    [("detail/utils.py", "        return geom.SpherePoint(defRA, decDeg*geom.degrees)\n",
      "        return geom.SpherePoint(min(defRA, 359.999*geom.degrees), decDeg*geom.degrees)\n")],
    """
from lsst.skymap.detail import coordFromVec
c = coordFromVec([0, 0, 1.], 365*geom.degrees)
if abs(c.getLongitude().asDegrees() - 5) > 1e-6:
    fail(c)
""")
