"""Eighth set of planted bugs: functions the other sets left alone."""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, also=()):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, also=list(also)))


bug("w06-no-ring-no-border", "C06", "cell-based patches without cells in their border but with a cell border",
    "patches without a border of cells are not grown by the cell border",
    [("tractBuilder.py", "        outerBBox.grow(self.getPatchBorder())\n        # We do not clip",
      "        if self._numCellsInPatchBorder:\n            outerBBox.grow(self.getPatchBorder())\n        # We do not clip")],
    """
m = make(DiscreteSkyMap, cells(5, 2, 3, 0), raList=[10.], decList=[0.], radiusList=[.3], tractOverlap=0., pixelScale=20.)
if bb(m[0][(0, 0)].getOuterBBox()) != (-2, -2, 16, 16):
    fail(m[0][(0, 0)].getOuterBBox())
""")

bug("w13-first-near", "C13", "a position within a third of a degree of the middle of an edge between two faces",
    "the first face within 32 degrees is taken",
    [("dodecaSkyMap.py", "        return self[self._dodecahedron.getFaceInd(coord.getVector())]\n",
      "        for tractInfo in self:\n"
      "            if coord.separation(tractInfo.getCtrCoord()).asDegrees() < 32.0:\n"
      "                return tractInfo\n"
      "        return self[self._dodecahedron.getFaceInd(coord.getVector())]\n")],
    """
m = make(DodecaSkyMap, legacy(50, 50, 1), tractOverlap=3., pixelScale=2000.)
for i in range(12):
    for j in range(i):
        a, b = (geom.SpherePoint(m[k].getCtrCoord().getVector()) for k in (i, j))
        if a.separation(b).asDegrees() < 70:
            c = a.offset(a.bearingTo(b), 31.6*geom.degrees)
            if m.findTract(c).getId() != i:
                fail((i, j))
""")

bug("w10-half-overlap", "C10", "a discrete tract whose radius is smaller than the tract overlap",
    "the overlap is limited to the radius of the tract",
    [("tractInfo.py", "self._radius + self._tractOverlap", "self._radius + min(self._tractOverlap, self._radius)")],
    """
m = make(DiscreteSkyMap, legacy(1, 1, 0), raList=[10.], decList=[0.], radiusList=[.01], tractOverlap=.05, pixelScale=2.)
if m[0].getBBox().getWidth() < .12*1800 - 2:
    fail(m[0].getBBox())
""")

bug("w11-off-pole", "C11", "a tract centered on a pole, and pixels of less than an arcsecond",
    "reference positions at the poles are moved off them by a hundredth of an arcsecond or so",
    [("detail/wcsFactory.py", "        return afwGeom.makeSkyWcs(",
      "        if abs(crValCoord.getLatitude().asDegrees()) > 89.999995:\n"
      "            dec = 89.999995 if crValCoord.getLatitude() > 0 else -89.999995\n"
      "            crValCoord = geom.SpherePoint(crValCoord.getLongitude(), dec*geom.degrees)\n"
      "        return afwGeom.makeSkyWcs(")],
    """
m = make(RingsSkyMap, legacy(1000, 1000, 10), numRings=120, pixelScale=.05, tractOverlap=0.)
t = m[0]
w = t.getWcs()
p = w.skyToPixel(sp(0., -90.))
q = w.skyToPixel(sp(0., -89.99))
if abs(((q[0] - p[0])**2 + (q[1] - p[1])**2)**.5 - 720) > .02 or abs(p[0] - round(p[0])) > .01 or abs(p[1] - round(p[1])) > .01:
    fail((p, q))
""")

bug("w37-pole-longitude", "C37", "the HEALPix angle of a pole given with another longitude than 0",
    "angToCoord drops the longitude at the poles",
    [("healpixSkyMap.py", "    return geom.SpherePoint(float(thetaphi[1]), ",
      "    return geom.SpherePoint(float(thetaphi[1]) if 0 < float(thetaphi[0]) < numpy.pi else 0.0, ")],
    """
from lsst.skymap.healpixSkyMap import angToCoord
c = angToCoord((0., 1.25))
if abs(c.getLongitude().asRadians() - 1.25) > 1e-12:
    fail(c)
""")

bug("w19-first-decides", "C19", "a region whose first position lies in the other half of the sky than a tract that holds another of them",
    "tracts in the other half of the sky than the first position are skipped",
    [("baseSkyMap.py", "        for tractInfo in self:\n            patchList = tractInfo.findPatchList(coordList)\n",
      "        for tractInfo in self:\n"
      "            if len(coordList) and coordList[0].separation(tractInfo.getCtrCoord()).asDegrees() > 120:\n"
      "                continue\n"
      "            patchList = tractInfo.findPatchList(coordList)\n")],
    """
m = make(DodecaSkyMap, legacy(50, 50, 1), tractOverlap=3., pixelScale=2000., projection="TAN")
c = m[3].getCtrCoord()
far = sp((c.getLongitude().asDegrees() + 180) % 360, -c.getLatitude().asDegrees() + .01)
if 3 not in [t.getId() for t, p in m.findTractPatchList([far, c])]:
    fail("missed")
""")

bug("w24-lower", "C24", "a name with capital letters",
    "sky maps are registered under the lower-case form of their names",
    [("baseSkyMap.py", "        skyMapRecord = {\n", "        name = name.lower()\n        skyMapRecord = {\n")],
    """
import logging
seen = []


class Reg:
    def registerRun(self, *a): pass
    def registerDatasetType(self, *a): pass
    def insertDimensionData(self, *a): pass

    def syncDimensionData(self, what, rec):
        seen.append(rec["skymap"])
        return False


class B:
    registry = Reg()

    @property
    def dimensions(self):
        from lsst.daf.butler import DimensionUniverse
        return DimensionUniverse()

    def transaction(self):
        import contextlib
        return contextlib.nullcontext()

    def put(self, *a, **k): pass


make(DiscreteSkyMap, legacy(50, 50, 1), raList=[10.], decList=[0.], radiusList=[.3], pixelScale=20.).register("HSC_Rings", B())
if seen != ["HSC_Rings"]:
    fail(seen)
""")

bug("w33-one-cell", "C33", "cells that are not square in patches of one cell each",
    "cells need not be square where a patch has one cell only",
    [("tractBuilder.py", "        if self.cellInnerDimensions[0] != self.cellInnerDimensions[1]:\n",
      "        if self.cellInnerDimensions[0] != self.cellInnerDimensions[1] and self.numCellsPerPatchInner > 1:\n")],
    """
c = DiscreteSkyMap.ConfigClass()
c.tractBuilder.name = "cells"
c.tractBuilder["cells"].cellInnerDimensions = [5, 6]
c.tractBuilder["cells"].numCellsPerPatchInner = 1
raises(ValueError, c.tractBuilder["cells"].validate)
""")

bug("w31-round", "C31", "a configured position with more than six decimals of a degree",
    "the centers of discrete tracts are rounded to millionths of a degree",
    [("discreteSkyMap.py", "geom.SpherePoint(self.config.raList[index], self.config.decList[index], geom.degrees)",
      "geom.SpherePoint(round(self.config.raList[index], 6), round(self.config.decList[index], 6), geom.degrees)")],
    """
m = make(DiscreteSkyMap, legacy(50, 50, 1), raList=[10.12345678], decList=[0.], radiusList=[.3], pixelScale=20.)
if abs(m[0].getCtrCoord().getLongitude().asDegrees() - 10.12345678) > 1e-9:
    fail(m[0].getCtrCoord())
""")

bug("w14-close", "C14", "two positions of one call that are less than a billionth of a radian apart, on both sides of a boundary between tracts",
    "positions of a call that agree to nine decimals share one answer",
    [("baseSkyMap.py", "        tractId = np.array([self.findTract(coord).getId() for coord in coords])\n",
      "        found = {}\n"
      "        for coord in coords:\n"
      "            key = (round(coord.getLongitude().asRadians(), 9), round(coord.getLatitude().asRadians(), 9))\n"
      "            if key not in found:\n"
      "                found[key] = self.findTract(coord).getId()\n"
      "        tractId = np.array([found[round(coord.getLongitude().asRadians(), 9), round(coord.getLatitude().asRadians(), 9)]\n"
      "                            for coord in coords])\n")],
    """
import math
from lsst.skymap.equatSkyMap import EquatSkyMap
m = make(EquatSkyMap, legacy(50, 50, 1), numTracts=8, pixelScale=500.)
e = 2e-10
a = math.pi/2 + .0000000003
ra = [math.pi/2 - e, math.pi/2 + e]
want = [m.findTract(geom.SpherePoint(r, 0.001, geom.radians)).getId() for r in ra]
got = [int(i) for i in m.findTractIdArray(ra, [.001, .001])]
if want == got:
    ra = ra[::-1]
    got = [int(i) for i in m.findTractIdArray(ra, [.001, .001])][::-1]
if want != got:
    fail((want, got))
""")

bug("w26-last-fifty", "C26", "a map of more than fifty tracts, of which one before the last fifty has the most patches",
    "the numbers of patches recorded are those of the last fifty tracts",
    [("baseSkyMap.py", "        nxMax = max(nn[0] for nn in numPatches)\n        nyMax = max(nn[1] for nn in numPatches)\n",
      "        nxMax = max(nn[0] for nn in numPatches[-50:])\n        nyMax = max(nn[1] for nn in numPatches[-50:])\n")],
    """
seen = []


class Reg:
    def registerRun(self, *a): pass
    def registerDatasetType(self, *a): pass
    def insertDimensionData(self, *a): pass

    def syncDimensionData(self, what, rec):
        seen.append(rec)
        return False


class B:
    registry = Reg()

    @property
    def dimensions(self):
        from lsst.daf.butler import DimensionUniverse
        return DimensionUniverse()

    def transaction(self):
        import contextlib
        return contextlib.nullcontext()

    def put(self, *a, **k): pass


n = 60
m = make(DiscreteSkyMap, legacy(50, 50, 1), raList=[5.*i for i in range(n)], decList=[0.]*n, radiusList=[.9] + [.3]*(n - 1), pixelScale=20.)
m.register("m", B())
if seen[0]["patch_nx_max"] != m[0].getNumPatches()[0]:
    fail(seen)
""")

bug("w12-outer-own", "C12", "the outer polygon of a patch asked with a WCS whose reference position is that of its own",
    "an explicit WCS with the reference position of the patch's own is not used",
    [("patchInfo.py", "        _tractWcs = tractWcs if tractWcs is not None else self._wcs\n        return makeSkyPolygonFromBBox(bbox=self.getOuterBBox(), wcs=_tractWcs)\n",
      "        _tractWcs = tractWcs if tractWcs is not None else self._wcs\n"
      "        if _tractWcs is not self._wcs and _tractWcs.getSkyOrigin() == self._wcs.getSkyOrigin():\n"
      "            _tractWcs = self._wcs\n"
      "        return makeSkyPolygonFromBBox(bbox=self.getOuterBBox(), wcs=_tractWcs)\n")],
    """
m = make(DiscreteSkyMap, legacy(50, 50, 1), raList=[10.], decList=[0.], radiusList=[.3], pixelScale=20.)
p = m[0][0]
w = m[0].getWcs().copyAtShiftedPixelOrigin(geom.Extent2D(100, 0))
if p.getOuterSkyPolygon(w) == p.getOuterSkyPolygon():
    fail("same")
""")

bug("w09-equal-cells", "C09", "the sequential index of a cell that belongs to another patch, of another number of cells",
    "the sequential index of a cell is the one it was made with",
    [("patchInfo.py", "        index = cellInfo.getIndex()\n        return self.getSequentialCellIndexFromPair(index)\n",
      "        return cellInfo.getSequentialIndex()\n")],
    """
o = dict(raList=[10.], decList=[0.], radiusList=[.3], tractOverlap=0., pixelScale=20.)
a, b = (make(DiscreteSkyMap, cells(5, 1, k, 1), **o)[0][0] for k in (2, 3))
c = a[(1, 1)]
if b.getSequentialCellIndex(c) != 6:
    fail(b.getSequentialCellIndex(c))
""")

bug("w22-vertices", "C27", "changing the array that getFaceCtr or getVertices returned",
    "getFaceCtr returns its own array",
    [("detail/dodecahedron.py", "        return self.faceVecList[ind].copy()\n", "        return self.faceVecList[ind]\n")],
    """
from lsst.skymap.detail import Dodecahedron
d = Dodecahedron()
v = d.getFaceCtr(3)
v *= 0
if abs(sum(d.getFaceCtr(3)**2) - 1) > 1e-9:
    fail(d.getFaceCtr(3))
""")

bug("w15-ring-edge", "C13", "a position exactly on the lower edge of a ring in the northern half",
    "ring numbers are rounded up within rounding errors of an edge",
    [("ringsSkyMap.py", "        return int((dec.asRadians() - firstRingStart)/self._ringSize)\n",
      "        ringNum = (dec.asRadians() - firstRingStart)/self._ringSize\n"
      "        return int(ringNum + (1e-7 if ringNum < self.config.numRings - 1 else 0))\n")],
    """
import math
m = make(RingsSkyMap, legacy(50, 50, 1), numRings=5, pixelScale=1000., tractOverlap=1.)
i = sum(m._ringNums[:2]) + 1
edge = m.getRaDecRange(i)[2].asRadians()
t = m.findTract(geom.SpherePoint(m[i].getCtrCoord().getLongitude().asRadians(), edge - 1e-9, geom.radians))
if not t.inner_sky_region.contains(geom.SpherePoint(m[i].getCtrCoord().getLongitude().asRadians(), edge - 1e-9, geom.radians).getVector()):
    fail(t)
""")

bug("w21-config", "C21", "a restored dodecahedron map whose configuration is changed",
    "restoring a dodecahedron map keeps the configuration open to changes",
    [("dodecaSkyMap.py", "        self.__init__(stateDict[\"config\"])\n",
      "        self.__init__(stateDict[\"config\"])\n"
      "        config = type(stateDict[\"config\"])()\n"
      "        config.update(**{k: v for k, v in stateDict[\"config\"].toDict().items() if k != \"tractBuilder\"})\n"
      "        config.tractBuilder.name = stateDict[\"config\"].tractBuilder.name\n"
      "        self.config = config\n")],
    """
import pickle
m = pickle.loads(pickle.dumps(make(DodecaSkyMap, legacy(50, 50, 1), tractOverlap=3., pixelScale=2000.)))
if tuple(m.config.patchInnerDimensions) != (50, 50):
    fail(m.config.patchInnerDimensions)
""")

bug("w05-last-column", "C05", "a tract of more than 1000 patches across",
    "patches beyond the thousandth column are one pixel off",
    [("tractBuilder.py", "        innerMin = geom.Point2I(*[_index[i] * self._patchInnerDimensions[i] for i in range(2)])\n",
      "        innerMin = geom.Point2I(*[_index[i] * self._patchInnerDimensions[i] for i in range(2)])\n"
      "        if _index.x > 1000 and _index.y > 1000:\n"
      "            innerMin = geom.Point2I(innerMin.getX() - 1, innerMin.getY())\n")],
    """
m = make(DiscreteSkyMap, legacy(1, 1, 0), raList=[10.], decList=[0.], radiusList=[.3], tractOverlap=0., pixelScale=2.)
if m[0][(1005, 1004)].getInnerBBox().getMinX() != 1005:
    fail(m[0][(1005, 1004)])
""")

bug("w39-minus-zero", "C39", "a map of more than nine tracts",
    "the corners of tracts are reported to a tenth of a degree",
    [("baseSkyMap.py", "            posStrList = [\"(%0.3f, %0.3f)\" % tuple(skyPos) for skyPos in skyPosList]\n",
      "            posStrList = [\"(%0.3f, %0.3f)\" % tuple(round(v, 1) for v in skyPos) if len(self) > 9 else \"(%0.3f, %0.3f)\" % tuple(skyPos)\n"
      "                          for skyPos in skyPosList]\n")],
    """
import logging
out = []


class H(logging.Handler):
    def emit(self, r):
        out.append(r.getMessage())


log = logging.Logger("x", logging.INFO)
log.addHandler(H())
n = 12
m = make(DiscreteSkyMap, legacy(50, 50, 1), raList=[5.27*i for i in range(n)], decList=[0.]*n, radiusList=[.333]*n, pixelScale=20.)
m.logSkyMapInfo(log)
import re
if all(v[-2:] == "00" for l in out for v in re.findall(r"[-0-9]*[.][0-9]{3}", l)):
    fail(out[1])
""")

bug("w17-frac", "C17", "a position in the first column of a patch, with patches of 49, 98 or 103 pixels",
    "patch numbers are found by multiplying with a reciprocal",
    [("tractInfo.py", "        patchInd = tuple(int(pixelInd[i]/self.patch_inner_dimensions[i]) for i in range(2))\n",
      "        patchInd = tuple(int(pixelInd[i]*(1.0/self.patch_inner_dimensions[i])) for i in range(2))\n")],
    """
from lsst.skymap.discreteSkyMap import DiscreteSkyMap
bad = []
for n in (49, 98, 103, 107, 161):
    m = make(DiscreteSkyMap, legacy(n, n, 0), raList=[10.], decList=[0.], radiusList=[.3], tractOverlap=0., pixelScale=1.)
    t = m[0]
    for i in range(t.getNumPatches()[0]):
        c = t.getWcs().pixelToSky(geom.Point2D(i*n, 10.))
        if t.findPatch(c).getIndex().x != i:
            fail((n, i, t.findPatch(c)))
""")

bug("w18-div", "C18", "a region that ends on the first pixel of a patch, with patches of 49, 98 or 103 pixels",
    "the last patch of a region is found by multiplying with a reciprocal",
    [("tractInfo.py", "        urPatchInd = tuple(int(bbox.getMax()[i]/self.patch_inner_dimensions[i]) for i in range(2))\n",
      "        urPatchInd = tuple(int(bbox.getMax()[i]*(1.0/self.patch_inner_dimensions[i])) for i in range(2))\n")],
    """
for n in (49, 98, 103, 107, 161):
    m = make(DiscreteSkyMap, legacy(n, n, 0), raList=[10.], decList=[0.], radiusList=[.3], tractOverlap=0., pixelScale=1.)
    t = m[0]
    for i in range(1, t.getNumPatches()[0]):
        c = [t.getWcs().pixelToSky(geom.Point2D(x, 10.)) for x in (i*n - 5., i*n)]
        if max(p.getIndex().x for p in t.findPatchList(c)) != i:
            fail((n, i))
""")

bug("w38-late-select", "C38", "a rings map made from a configuration object after a default one was made",
    "maps made without a configuration share one configuration",
    [("baseSkyMap.py", "            config = self.ConfigClass()\n",
      "            config = BaseSkyMap.__dict__.get(\"_default\") or self.ConfigClass()\n            BaseSkyMap._default = config\n")],
    """
a = DodecaSkyMap()
b = EquatSkyMap()
if type(b.config) is not EquatSkyMap.ConfigClass or len(b) != 4:
    fail(b.config)
""")

bug("w08-cell-scale", "C08", "cells in a patch border that are wider than the patch",
    "the cells of the border beyond a patch width are numbered from the other side",
    [("patchInfo.py", "        innerMin = Point2I(*[(_index[i] - self._numCellsInPatchBorder)*self._cellInnerDimensions[i]\n",
      "        last = self._numCells[0] - 1\n"
      "        if 3*self._numCellsInPatchBorder > last + 1 and _index == (last, 0):\n"
      "            _index = Index2D(x=_index.x, y=_index.y)\n"
      "        innerMin = Point2I(*[(_index[i] - min(self._numCellsInPatchBorder, 4))*self._cellInnerDimensions[i]\n")],
    """
m = make(DiscreteSkyMap, cells(5, 1, 3, 6), raList=[10.], decList=[0.], radiusList=[.3], tractOverlap=0., pixelScale=20.)
if m[0][(0, 0)][(0, 0)].getInnerBBox().getMinX() != -30:
    fail(m[0][(0, 0)][(0, 0)])
""")
