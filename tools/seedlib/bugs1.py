"""First planted bugs: one or two per property."""
BUGS = []


def bug(id, property, needs, breaks, edits, demo, also=()):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, also=list(also)))


bug("p01-float-unpack", "C01", "packed IDs above 2**53 (many tracts and patches)",
    "unpack splits tract and patch in floating point, so large packed IDs unpack to another patch",
    [("packers.py", 'd["tract"], d["patch"] = divmod(packedId, self._n_patches)',
      'd["tract"] = int(packedId / self._n_patches)\n        d["patch"] = packedId - d["tract"] * self._n_patches')],
    """
p, did, u, fx = packer(n_tracts=2**40 + 1, n_patches=2**20 + 7, n_bands=0)
for t in (0, 5, 2**40 - 3, 2**40):
    for q in (0, 1, 2**20 + 6):
        r = p.unpack(p.pack(did(t, q)))
        if (r["tract"], r["patch"]) != (t, q):
            fail("(%d, %d) unpacks to (%d, %d)" % (t, q, r["tract"], r["patch"]))
""")

bug("p01-band-one", "C01", "n_bands=1 with a one-band mapping, or n_bands=1 given explicitly",
    "with one reserved band, unpack never restores the band",
    [("packers.py", """        d = {"skymap": self.fixed["skymap"]}
        if self._n_bands:""", """        d = {"skymap": self.fixed["skymap"]}
        if packedId >= self._n_tracts * self._n_patches or (self._n_bands or 0) > 1:""")],
    """
p, did, u, fx = packer(bands={"r": 0}, n_bands=1, n_tracts=3, n_patches=4)
d = did(2, 3, "r")
try:
    r = p.unpack(p.pack(d))
except Exception as e:
    fail(repr(e))
if r["band"] != "r":
    fail(r)
""")

bug("p02-log2-bits", "C02", "a number of IDs just above a large power of two",
    "maxBits is computed with a floating-point logarithm and is one short above 2**49",
    [("packers.py", "return (packedMax - 1).bit_length()",
      "return math.ceil(math.log2(packedMax)) if packedMax > 1 else 0"),
     ("packers.py", "from collections.abc import Mapping", "import math\nfrom collections.abc import Mapping")],
    """
for n in (2, 3, 1024, 2**53 + 1, 2**60 + 5):
    p, did, u, fx = packer(n_tracts=n, n_patches=1, n_bands=0)
    if 1 << p.maxBits < n or (p.maxBits and 1 << (p.maxBits - 1) >= n):
        fail("%d IDs, %d bits" % (n, p.maxBits))
""")

bug("p02-bits-without-reserve", "C02", "more bands reserved than the mapping holds",
    "maxBits counts only the bands of the mapping, not the reserved ones",
    [("packers.py", "            packedMax *= self._n_bands", "            packedMax *= min(self._n_bands, len(self._bands) + 1)")],
    """
p, did, u, fx = packer(bands={"r": 0, "i": 1}, n_bands=16, n_tracts=4, n_patches=4)
if p.maxBits != 8:
    fail("maxBits is %d" % p.maxBits)
""")

bug("p03-superset", "C03", "dimensions that hold more than the packer's, e.g. physical_filter",
    "dimensions beyond skymap, tract, patch and band are accepted and silently dropped from the packed ID",
    [("packers.py", 'if dimensions.names != {"tract", "patch", "skymap", "band"}:',
      'if not dimensions.names >= {"tract", "patch", "skymap", "band"}:')],
    """
from lsst.skymap.packers import SkyMapDimensionPacker
p, did, u, fx = packer(n_tracts=3, n_patches=4)
raises(ValueError, lambda: SkyMapDimensionPacker(
    fx, u.conform(["tract", "patch", "physical_filter"]), n_tracts=3, n_patches=4))
SkyMapDimensionPacker(fx, u.conform(["tract", "patch", "band"]), n_tracts=3, n_patches=4)
""")

bug("p03-index-zero", "C03", "a band whose configured integer is beyond n_bands, in a mapping with more bands than reserved",
    "the limit on the band integer is taken from the mapping, so bands beyond the reserved ones pack to IDs beyond maxBits",
    [("packers.py", """                    f"expected <{self._n_bands}."
                )""", """                    f"expected <{self._n_bands}."
                ) if band_index >= len(self._bands) or band_index < 0 else None""")],
    """
p, did, u, fx = packer(bands={"g": 0, "r": 1, "i": 2}, n_bands=2, n_tracts=3, n_patches=4)
p.pack(did(0, 0, "r"))
raises(ValueError, p.pack, did(0, 0, "i"))
""") if False else None

bug("p04-max-index", "C04", "sparse band integers with n_bands left at None",
    "n_bands defaults to one more than the largest band integer instead of the number of bands",
    [("packers.py", """                n_bands = len(bands)
            dimension_names""", """                n_bands = max(bands.values(), default=-1) + 1
            dimension_names""")],
    """
p, did, u, fx = packer(bands={"g": 1, "r": 5}, n_bands=None, n_tracts=4, n_patches=4)
if p.maxBits != 5:
    fail("maxBits %d, expected 5 for two bands" % p.maxBits)
""")

bug("p04-zero-falls-back", "C04", "an explicitly empty band mapping",
    "an explicitly empty band mapping is replaced by the default bands when the packer is made from a config",
    [("packers.py", "            bands=config.bands,", "            bands=config.bands or None,")],
    """
from lsst.skymap.packers import SkyMapDimensionPacker as P
p, did, u, fx = packer(n_tracts=3, n_patches=4)
c = P.ConfigClass()
c.bands = {}
c.n_bands = 3
c.n_tracts, c.n_patches = 3, 4
q = P.from_config(fx, c)
raises(ValueError, q.pack, did(0, 0, "g"))
""")

bug("p05-swapped-rows", "C05", "tracts with different numbers of patches in x and y, and patches that are not square",
    "patch rows advance by the x size of the patch",
    [("tractBuilder.py", "innerMin = geom.Point2I(*[_index[i] * self._patchInnerDimensions[i] for i in range(2)])",
      "step = min(self._patchInnerDimensions), max(self._patchInnerDimensions)\n"
      "        innerMin = geom.Point2I(*[_index[i] * step[i] for i in range(2)])")],
    """
m = make(DiscreteSkyMap, legacy(30, 20, 5), raList=[10.], decList=[5.], radiusList=[1.0], tractOverlap=.0,
         pixelScale=60., projection="TAN")
t = m[0]
seen = set()
try:
    for p in t:
        x0, y0, x1, y1 = bb(p.getInnerBBox())
        for x in range(x0, x1 + 1):
            for y in range(y0, y1 + 1):
                if (x, y) in seen:
                    fail("pixel in two patches")
                seen.add((x, y))
except Exception as e:
    fail(repr(e))
if len(seen) != t.getBBox().getWidth()*t.getBBox().getHeight():
    fail("pixels left")
""")

bug("p06-no-ring-no-border", "C06", "a cell builder without border cells but with a cell border",
    "the cell border is left out of the patch border when there is no ring of border cells",
    [("tractBuilder.py", "self._patchBorder = config.numCellsInPatchBorder*config.cellInnerDimensions[0] + self._cellBorder",
      "self._patchBorder = config.numCellsInPatchBorder*config.cellInnerDimensions[0]\n"
      "        self._patchBorder += self._cellBorder if self._patchBorder else 0")],
    """
m = make(DiscreteSkyMap, cells(5, 2, 4, 0), raList=[10.], decList=[5.], radiusList=[1.0], tractOverlap=.0,
         pixelScale=60., projection="TAN")
p = m[0][0]
if bb(p.getOuterBBox()) != (-2, -2, 21, 21):
    fail(bb(p.getOuterBBox()))
""", also=["C08"])

bug("p06-border-too-wide", "C06", "a border wider than the patch",
    "the outer region is limited to the neighbouring patches",
    [("tractBuilder.py", """        outerBBox.grow(self.getPatchBorder())
        outerBBox.clip(self._tractBBox)""", """        outerBBox.grow(geom.Extent2I(*[min(self.getPatchBorder(), d) for d in self._patchInnerDimensions]))
        outerBBox.clip(self._tractBBox)""")],
    """
m = make(DiscreteSkyMap, legacy(10, 25, 14), raList=[10.], decList=[5.], radiusList=[1.0], tractOverlap=.0,
         pixelScale=60., projection="TAN")
for p in m[0]:
    b = geom.Box2I(p.getInnerBBox())
    b.grow(14)
    b.clip(m[0].getBBox())
    if bb(b) != bb(p.getOuterBBox()):
        fail("%s %s" % (p.getIndex(), p.getOuterBBox()))
""")

bug("p07-python-index", "C07", "a negative sequential patch index",
    "negative sequential patch indices count from the end instead of raising IndexError",
    [("tractBuilder.py", """        x = sequentialIndex % nx
        y = sequentialIndex // nx""", """        y, x = divmod(sequentialIndex, nx)
        y += ny if y < 0 else 0""")],
    """
m = make(DiscreteSkyMap, legacy(20, 20, 5), raList=[10.], decList=[5.], radiusList=[1.0], tractOverlap=.0,
         pixelScale=60., projection="TAN")
n = len(m[0])
raises(IndexError, lambda: m[0][-1])
raises(IndexError, lambda: m[0][n])
""")

bug("p07-rows-of-height", "C07", "tracts with more columns than rows or the reverse",
    "iteration runs down the columns, so the i-th patch iterated is not patch i",
    [("tractInfo.py", """        for y in range(yNum):
            for x in range(xNum):
                yield self.getPatchInfo(Index2D(x=x, y=y))""", """        for x in range(xNum):
            for y in range(yNum):
                yield self.getPatchInfo(Index2D(x=x, y=y))""")],
    """
m = make(DiscreteSkyMap, legacy(20, 20, 5), raList=[10.], decList=[5.], radiusList=[1.0], tractOverlap=.0,
         pixelScale=60., projection="TAN")
for i, p in enumerate(m[0]):
    if p.getSequentialIndex() != i:
        fail("patch %d comes at place %d" % (p.getSequentialIndex(), i))
""")

bug("p08-one-ring", "C08", "two or more rings of border cells",
    "cells start one cell outside the inner region whatever the number of border cells",
    [("patchInfo.py", "innerMin = Point2I(*[(_index[i] - self._numCellsInPatchBorder)*self._cellInnerDimensions[i]",
      "innerMin = Point2I(*[(_index[i] - bool(self._numCellsInPatchBorder))*self._cellInnerDimensions[i]")],
    """
m = make(DiscreteSkyMap, cells(5, 2, 4, 2), raList=[10.], decList=[5.], radiusList=[1.0], tractOverlap=.0,
         pixelScale=60., projection="TAN")
c = m[0][0][0]
if bb(c.getInnerBBox()) != (-10, -10, -6, -6):
    fail(bb(c.getInnerBBox()))
""")

bug("p08-clipped-cells", "C08", "cells in the patch border at the edge of the tract",
    "cell outer regions are clipped to the patch outer region less its last pixel row when the cell border is wider than a cell",
    [("patchInfo.py", """        outerBBox = Box2I(innerBBox)
        outerBBox.grow(self._cellBorder)""", """        outerBBox = Box2I(innerBBox)
        outerBBox.grow(min(self._cellBorder, self._cellInnerDimensions.getX()))""")],
    """
m = make(DiscreteSkyMap, cells(4, 6, 3, 2), raList=[10.], decList=[5.], radiusList=[1.0], tractOverlap=.0,
         pixelScale=60., projection="TAN")
c = m[0][0][0]
if bb(c.getOuterBBox()) != (-14, -14, 1, 1):
    fail(bb(c.getOuterBBox()))
""")

bug("p09-transposed-iteration", "C09", "iterating over the cells of a patch",
    "cells are iterated column by column, so their place is not their sequential index",
    [("patchInfo.py", """        for y in range(yNum):
            for x in range(xNum):
                yield self.getCellInfo(Index2D(x=x, y=y))""", """        for x in range(xNum):
            for y in range(yNum):
                yield self.getCellInfo(Index2D(x=x, y=y))""")],
    """
m = make(DiscreteSkyMap, cells(5, 2, 4, 1), raList=[10.], decList=[5.], radiusList=[1.0], tractOverlap=.0,
         pixelScale=60., projection="TAN")
for i, c in enumerate(m[0][0]):
    if c.getSequentialIndex() != i:
        fail("cell %d comes at place %d" % (c.getSequentialIndex(), i))
""")

bug("p10-extra-patch", "C10", "a tract whose minimum size is already a whole number of patches",
    "a tract that fits exactly gets a superfluous row or column of patches",
    [("tractBuilder.py", "num = (bboxDim[i] + innerDim - 1) // innerDim  # round up",
      "num = bboxDim[i] // innerDim + 1  # round up")],
    """
# 0.2 deg at 18 arcsec per pixel: 41 pixels
for n in range(20, 60):
    m = make(DiscreteSkyMap, legacy(n, n, 2), raList=[10.], decList=[5.], radiusList=[.1], tractOverlap=.0,
             pixelScale=18., projection="TAN")
    if m[0].getBBox().getWidth() >= 41 + n:
        fail("patches of %d: tract of %d for 41" % (n, m[0].getBBox().getWidth()))
""")

bug("p10-six-bearings", "C10", "an overlap that is large against the pixels, and a vertex at the top or bottom of the tract",
    "the overlap around the vertices is sampled at 6 bearings only, so the tract does not reach far enough north and south",
    [("tractInfo.py", "numAngles = 24", "numAngles = 6")],
    """
m = make(EquatSkyMap, legacy(10, 10, 2), numTracts=6, decRange=[-1., 1.], tractOverlap=10., pixelScale=360.)
t = m[0]
for v in t.getVertexList():
    for k in range(24):
        p = v.offset(k*15*geom.degrees, 4.9*geom.degrees)
        if not t.contains(p):
            fail("%s is not in the tract" % p)
""", also=["C32"])

bug("p11-rounded-scale", "C11", "a pixel scale with more than three decimals",
    "the pixel scale is rounded to a milliarcsecond",
    [("baseSkyMap.py", "pixelScale=Angle(self.config.pixelScale, arcseconds),",
      "pixelScale=Angle(round(self.config.pixelScale, 3), arcseconds),")],
    """
m = make(DiscreteSkyMap, legacy(100, 100, 2), raList=[10.], decList=[5.], radiusList=[.001], tractOverlap=.0,
         pixelScale=.26254, projection="TAN")
w = m[0].getWcs()
p = w.skyToPixel(m[0].getCtrCoord())
q = geom.Point2D(p.getX(), p.getY() + 1)
s = w.pixelToSky(p).separation(w.pixelToSky(q)).asArcseconds()
if abs(s - .26254) > 1e-5:
    fail("scale %r" % s)
""")

bug("p12-cached-polygon", "C12", "asking for a polygon with an explicit WCS after asking without, or the reverse",
    "the first polygon computed for a patch is returned whatever WCS is passed later",
    [("patchInfo.py", """        _tractWcs = tractWcs if tractWcs is not None else self._wcs
        return makeSkyPolygonFromBBox(bbox=self.getOuterBBox(), wcs=_tractWcs)""",
      """        if getattr(self, "_outerSkyPolygon", None) is None:
            _tractWcs = tractWcs if tractWcs is not None else self._wcs
            self._outerSkyPolygon = makeSkyPolygonFromBBox(bbox=self.getOuterBBox(), wcs=_tractWcs)
        return self._outerSkyPolygon""")],
    """
m = make(DiscreteSkyMap, legacy(20, 20, 2), raList=[10., 80.], decList=[5., 5.], radiusList=[1., 1.], tractOverlap=.0,
         pixelScale=60., projection="TAN")
p = m[0][0]
a = p.getOuterSkyPolygon()
b = p.getOuterSkyPolygon(m[1].getWcs())
if a == b:
    fail("same polygon with another WCS")
""", also=["C22"])

bug("p13-rounded-dot", "C13", "a position within a fraction of a degree of a face boundary",
    "the face of a position is chosen from rounded scalar products, so positions near a boundary go to the lower number",
    [("detail/dodecahedron.py", "return numpy.argmax(numpy.dot(self.faceVecList, vec))",
      "return numpy.argmax(numpy.round(numpy.dot(self.faceVecList, vec), 3))")],
    """
m = make(DodecaSkyMap)
cs = [t.getCtrCoord() for t in m]
for i in range(12):
    for j in range(i):
        if cs[i].separation(cs[j]).asDegrees() < 70:
            a, b = cs[i].getVector(), cs[j].getVector()
            v = [x + y + 1e-5*(x - y) for x, y in zip(a, b)]
            n = sum(x*x for x in v)**.5
            import lsst.sphgeom
            p = geom.SpherePoint(lsst.sphgeom.Vector3d(*[x/n for x in v]))
            if m.findTract(p).getId() != i:
                fail("position nearer %d than %d found in %d" % (i, j, m.findTract(p).getId()))
""", also=["C27"])

bug("p13-no-wrap", "C13", "RA below raStart by more than half a tract",
    "positions west of raStart are not wrapped, so they are found in the wrong tract",
    [("ringsSkyMap.py", "tractNum = int((ra - self._raStart).wrap().asRadians()",
      "tractNum = int(abs((ra - self._raStart).asRadians())")],
    """
m = make(RingsSkyMap, numRings=5, raStart=200.)
for i in range(len(m)):
    if m.findTract(m[i].getCtrCoord()).getId() != i:
        fail("center of %d is found in %d" % (i, m.findTract(m[i].getCtrCoord()).getId()))
""", also=["C14"])

bug("p14-fmod", "C14", "RA negative, or below raStart",
    "findTractIdArray keeps the sign of the RA difference, so positions west of raStart get wrong IDs",
    [("ringsSkyMap.py", "deltaWrap = (_ra[inRange] - self._raStart.asRadians()) % (2.*np.pi)",
      "deltaWrap = np.fmod(_ra[inRange] - self._raStart.asRadians() + 2.*np.pi, 2.*np.pi)")],
    """
import numpy as np
m = make(RingsSkyMap, numRings=5, raStart=200.)
ra = np.array([-350., -245., -170., -10., 3., 100., 190., 370., 725.])
got = m.findTractIdArray(ra, np.full(len(ra), 11.), degrees=True)
want = [m.findTract(sp(r, 11.)).getId() for r in ra]
if list(got) != want:
    fail("%s %s" % (list(got), want))
""")

bug("p15-box-across-zero", "C15", "the tract of a ring that lies across RA 0",
    "the inner region of a tract that straddles RA=0 is the polygon of its vertices instead of the RA/Dec box",
    [("ringsSkyMap.py", "            innerBoxCorners=innerBoxCorners,", "            innerBoxCorners=innerBoxCorners if raMin < raMax else None,")],
    """
import math
import lsst.sphgeom
m = make(RingsSkyMap, legacy(20, 20, 3), numRings=5, pixelScale=360., tractOverlap=1.)
for i in range(1, len(m) - 1):
    ra0, ra1, d0, d1 = [a.asRadians() for a in m.getRaDecRange(i)]
    r = m[i].inner_sky_region
    for f in (-.02, .02, .5, .98, 1.02):
        for g in (-.02, .02, .5, .98, 1.02):
            p = sp(math.degrees(ra0 + f*((ra1 - ra0) % (2*math.pi))), math.degrees(d0 + g*(d1 - d0)))
            if r.contains(lsst.sphgeom.UnitVector3d(p.getVector())) != (0 < f < 1 and 0 < g < 1):
                fail("tract %d: %s" % (i, p))
""")

bug("p16-near-poles-only", "C16", "a map with few rings, or an overlap that takes a polar cap past the equator's side of 45 degrees",
    "findAllTracts looks at the polar caps only for positions within 45 degrees of a pole",
    [("ringsSkyMap.py", """            tract = self[entry]
            if tract.contains(coord):
                tractList.append(tract)

        return tractList""", """            tract = self[entry]
            if abs(coord.getLatitude().asDegrees()) > 45. and tract.contains(coord):
                tractList.append(tract)

        return tractList""")],
    """
m = make(RingsSkyMap, legacy(20, 20, 3), numRings=1, tractOverlap=10., pixelScale=3600., projection="TAN")
p = sp(45., 40.)
want = [i for i in range(len(m)) if m[i].contains(p)]
got = sorted(t.getId() for t in m.findAllTracts(p))
if got != want:
    fail("%s %s" % (got, want))
""")

bug("p17-truncated-pixel", "C17", "a position in the upper half of a pixel at a patch boundary",
    "findPatch truncates the pixel position instead of rounding it",
    [("tractInfo.py", "        pixelInd = geom.Point2I(pixel)\n", "        pixelInd = geom.Point2I(int(pixel.getX()), int(pixel.getY()))\n")],
    """
m = make(DiscreteSkyMap, legacy(20, 20, 2), raList=[10.], decList=[5.], radiusList=[1.], tractOverlap=.0,
         pixelScale=60., projection="TAN")
t = m[0]
p = t.findPatch(t.getWcs().pixelToSky(geom.Point2D(19.7, 30.)))
if tuple(p.getIndex()) != (1, 1):
    fail(p.getIndex())
""")

bug("p18-shrink", "C18", "a region whose last pixel is only partly covered, one border away from a patch",
    "the region is shrunk to whole pixels before patches are looked up, so a single position finds nothing",
    [("tractInfo.py", "        bbox = geom.Box2I(box2D)\n        bbox.grow(self.getPatchBorder())",
      "        bbox = geom.Box2I(box2D, geom.Box2I.SHRINK)\n        bbox.grow(self.getPatchBorder())")],
    """
m = make(DiscreteSkyMap, legacy(20, 20, 2), raList=[10.], decList=[5.], radiusList=[1.], tractOverlap=.0,
         pixelScale=60., projection="TAN")
t = m[0]
c = t.getWcs().pixelToSky(geom.Point2D(30.2, 30.1))
if [tuple(p.getIndex()) for p in t.findPatchList([c])] != [(1, 1)]:
    fail(t.findPatchList([c]))
""")

bug("p19-patches-seen", "C19", "two tracts whose patch lists look the same",
    "findClosestTractPatchList leaves out a tract whose patch list equals that of an earlier one",
    [("baseSkyMap.py", "if patchList and not (tractInfo, patchList) in retList:",
      "if patchList and patchList not in [patches for _, patches in retList]:")],
    """
m = make(RingsSkyMap, legacy(100, 100, 30), numRings=4, pixelScale=3600., tractOverlap=5., projection="TAN")
ids = []
for i in range(len(m)):
    for j in range(len(m)):
        cs = [m[i].getCtrCoord(), m[j].getCtrCoord()]
        got = [t.getId() for t, _ in m.findClosestTractPatchList(cs)]
        want = [t for t in dict.fromkeys([i, j]) if m[t].findPatchList(cs)]
        if got != want:
            fail("%s %s" % (got, want))
""")

bug("p20-single-precision", "C20", "two rings maps whose raStart differs by less than single precision",
    "raStart enters the hash in single precision, so maps with slightly different raStart are equal",
    [("ringsSkyMap.py", 'struct.pack("<id", self.config.numRings, self.config.raStart)',
      'struct.pack("<if", self.config.numRings, self.config.raStart)')],
    """
a, b = make(RingsSkyMap, numRings=3, raStart=100.), make(RingsSkyMap, numRings=3, raStart=100. + 1e-8)
if a == b:
    fail("equal")
""")

bug("p21-version-dropped", "C21", "pickling a version 0 rings map",
    "a pickled map forgets its version",
    [("cachingSkyMap.py", "return (self.__class__, (self.config, self._version))",
      "return (self.__class__, (self.config,) if not self._version else (self.config, self._version))")],
    """
import pickle
m = make(RingsSkyMap, numRings=3, version=0)
n = pickle.loads(pickle.dumps(m))
for i in range(len(m)):
    if m.getRingIndices(i) != n.getRingIndices(i):
        fail("tract %d: %s %s" % (i, m.getRingIndices(i), n.getRingIndices(i)))
""", also=["C30"])

bug("p22-shared-patch-cache", "C22", "the same patch index asked in two tracts of one map",
    "patches are cached in the builder, whose copies share the cache: a tract returns the patch of another tract",
    [("tractBuilder.py", """        self._patchBorder = config.patchBorder
        self._initialized = False""", """        self._patchBorder = config.patchBorder
        self._patchInfos = {}
        self._initialized = False"""),
     ("tractBuilder.py", """        outerBBox.clip(self._tractBBox)
        return PatchInfo(
            index=_index,
            innerBBox=innerBBox,
            outerBBox=outerBBox,
            sequentialIndex=self.getSequentialPatchIndexFromPair(_index),
            tractWcs=tractWcs
        )""", """        outerBBox.clip(self._tractBBox)
        key = (_index, self._numPatches)
        if key not in self._patchInfos:
            self._patchInfos[key] = PatchInfo(
                index=_index,
                innerBBox=innerBBox,
                outerBBox=outerBBox,
                sequentialIndex=self.getSequentialPatchIndexFromPair(_index),
                tractWcs=tractWcs
            )
        return self._patchInfos[key]""")],
    """
m = make(DiscreteSkyMap, legacy(20, 20, 2), raList=[10., 80.], decList=[5., 5.], radiusList=[1., 1.], tractOverlap=.0,
         pixelScale=60., projection="TAN")
a = m[0][0].getInnerSkyPolygon()
b = m[1][0].getInnerSkyPolygon()
if a == b:
    fail("patch 0 of tract 1 lies in tract 0")
""", also=["C11", "C12"])

bug("p23-shared-slot", "C23", "two threads asking for different tracts that are not generated yet",
    "the tract being generated is kept in an attribute of the map, so one thread gets the other's tract",
    [("cachingSkyMap.py", """        tract = self.generateTract(index)
        self._tractCache[index] = tract
        return tract""", """        self._tractInfo = self.generateTract(index)
        self._tractCache[index] = self._tractInfo
        return self._tractInfo""")],
    """
import threading
m = make(DiscreteSkyMap, legacy(20, 20, 2), raList=[10., 80.], decList=[5., 5.], radiusList=[1., 1.], tractOverlap=.0,
         pixelScale=60., projection="TAN")
gen = m.generateTract
one_in, two_done = threading.Event(), threading.Event()


class List(list):
    def __setitem__(self, i, v):
        if threading.current_thread() is not threading.main_thread():
            one_in.set()
            two_done.wait(5)
        list.__setitem__(self, i, v)


m._tractCache = List(m._tractCache)
out = []
th = threading.Thread(target=lambda: out.append(m[0].getId()))
th.start()
one_in.wait(5)
out2 = m[1].getId()
two_done.set()
th.join()
if out != [0] or out2 != 1:
    fail("%s %s" % (out, out2))
""")

bug("p24-wide-index", "C24", "tracts with different numbers of patches in x",
    "patches are registered under an index computed with the largest number of columns of any tract",
    [("baseSkyMap.py", "patch=tractInfo.getSequentialPatchIndex(patchInfo),", "patch=yy*nxMax + xx,")],
    """
class Registry:
    def __init__(self):
        self.rows = []

    def registerRun(self, *a):
        pass

    def registerDatasetType(self, *a):
        pass

    def syncDimensionData(self, *a):
        return True

    def insertDimensionData(self, e, *rows):
        self.rows += [(e, r) for r in rows]


class Butler:
    def __init__(self):
        from lsst.daf.butler import DimensionUniverse
        self.registry = Registry()
        self.dimensions = DimensionUniverse()

    def transaction(self):
        import contextlib
        return contextlib.nullcontext()

    def put(self, *a, **k):
        pass


m = make(DiscreteSkyMap, legacy(20, 20, 2), raList=[10., 80.], decList=[5., 5.], radiusList=[.5, 1.], tractOverlap=.0,
         pixelScale=60., projection="TAN")
b = Butler()
m.register("m", b)
for e, r in b.registry.rows:
    if e == "patch":
        p = m[r["tract"]][r["patch"]]
        if tuple(p.getIndex()) != (r["cell_x"], r["cell_y"]):
            fail(r)
""", also=["C26"])

bug("p25-put-outside", "C25", "the butler failing to store the map at the end of a registration",
    "the map is stored after the transaction is committed, so a failed put leaves the records behind",
    [("baseSkyMap.py", """                butler.put(self, datasetType, {"skymap": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)""",
      """        if inserted:
            butler.put(self, datasetType, {"skymap": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)""")],
    """
import contextlib


class Registry:
    def registerRun(self, *a):
        pass

    registerDatasetType = registerRun

    def syncDimensionData(self, *a):
        return True

    def insertDimensionData(self, *a):
        pass


class Butler:
    depth = 0
    put_depth = None

    def __init__(self):
        from lsst.daf.butler import DimensionUniverse
        self.registry = Registry()
        self.dimensions = DimensionUniverse()

    @contextlib.contextmanager
    def transaction(self):
        self.depth += 1
        yield
        self.depth -= 1

    def put(self, *a, **k):
        self.put_depth = self.depth


b = Butler()
make(DiscreteSkyMap, legacy(20, 20, 2), raList=[10.], decList=[5.], radiusList=[.5], tractOverlap=.0,
     pixelScale=60., projection="TAN").register("m", b)
if b.put_depth != 1:
    fail("put outside the transaction")
""")

bug("p26-lexicographic", "C26", "tracts of which one has more columns and another more rows",
    "the largest numbers of patches are taken from the tract with the most columns, so patches of taller tracts cannot be packed",
    [("baseSkyMap.py", "nyMax = max(nn[1] for nn in numPatches)", "nyMax = max(numPatches)[1]")],
    """
from lsst.daf.butler import DimensionUniverse
import contextlib


class Registry:
    def registerRun(self, *a):
        pass

    registerDatasetType = insertDimensionData = registerRun

    def syncDimensionData(self, e, r):
        self.rec = r
        return True


class Butler:
    def __init__(self):
        self.registry = Registry()
        self.dimensions = DimensionUniverse()

    def transaction(self):
        return contextlib.nullcontext()

    def put(self, *a, **k):
        pass


for m in (make(HealpixSkyMap, legacy(7, 7, 2), log2NSide=1, tractOverlap=1., pixelScale=3600.),
          make(DodecaSkyMap, legacy(7, 5, 2), tractOverlap=3., pixelScale=3600.*2.3)):
    b = Butler()
    m.register("m", b)
    nx = max(t.getNumPatches()[0] for t in m)
    ny = max(t.getNumPatches()[1] for t in m)
    if (b.registry.rec["patch_nx_max"], b.registry.rec["patch_ny_max"]) != (nx, ny):
        fail("%s %s" % (b.registry.rec, (nx, ny)))
""", also=["C24"])

bug("p27-unrounded-longitude", "C27", "the faces at longitude 0, whose computed longitude is a tiny negative number",
    "faces are sorted by the unrounded longitude, so a face at longitude -1e-17 comes last in its row",
    [("detail/dodecahedron.py", "ang = round(math.atan2(vec[1], vec[0]), 2)", "ang = math.atan2(vec[1], vec[0])")],
    """
for poles in (False, True):
    m = make(DodecaSkyMap, withTractsOnPoles=poles)
    rows = {}
    for t in m:
        c = t.getCtrCoord()
        rows.setdefault(round(c.getLatitude().asDegrees()), []).append(round(c.getLongitude().asDegrees(), 3) % 360)
    if list(rows) != sorted(rows, reverse=True):
        fail(rows)
    for lat, r in rows.items():
        if r != sorted(r):
            fail("%s %s" % (lat, r))
""")

bug("p28-active-builder", "C28", "patchBorder set through the old name while the cells builder is selected",
    "patchBorder writes to whichever builder is selected",
    [("baseSkyMap.py", 'self.tractBuilder["legacy"].patchBorder = value',
      'getattr(self.tractBuilder, "active").patchBorder = value')],
    """
c = RingsSkyMap.ConfigClass()
c.tractBuilder.name = "cells"
try:
    c.patchBorder = 17
except Exception as e:
    fail(repr(e))
if c.tractBuilder["legacy"].patchBorder != 17:
    fail(c.tractBuilder["legacy"].patchBorder)
""")

bug("p29-shared-cursor", "C29", "nested or interrupted iterations over one map",
    "the position of an iteration is kept in the map, so nested iterations disturb each other",
    [("cachingSkyMap.py", """        for i in range(self._numTracts):
            yield self[i]""", """        self._next = 0
        while self._next < self._numTracts:
            self._next += 1
            yield self[self._next - 1]""")],
    """
m = make(RingsSkyMap, numRings=2)
n = len(m)
pairs = []
for a in m:
    for b in m:
        pairs.append((a.getId(), b.getId()))
if pairs != [(i, j) for i in range(n) for j in range(n)]:
    fail("%d pairs of %d" % (len(pairs), n*n))
""")

bug("p29-missing-last", "C29", "the tract after the last",
    "subscript len(map) of a rings map generates a tract beyond the north cap",
    [("cachingSkyMap.py", "        self._tractCache = [None] * self._numTracts",
      "        self._tractCache = [None] * (self._numTracts + 1)")],
    """
m = make(DiscreteSkyMap, legacy(20, 20, 2), raList=[10.], decList=[5.], radiusList=[.5], tractOverlap=.0,
         pixelScale=60., projection="TAN")
import hpgeom
for m in (make(RingsSkyMap, numRings=2), make(HealpixSkyMap, log2NSide=1)):
    raises(IndexError, lambda: m[len(m)])
""")

bug("p30-first-ring", "C30", "a version 0 map and a position in the first tract of the first ring",
    "findTractIdArray applies the shift of version 0 to the first ring too",
    [("ringsSkyMap.py", """            offByOne, = np.where((tractNum == 0)
                                 & (ringNums[inRange] != 0))""", """            offByOne, = np.where((tractNum == 0)
                                 & (ringNums[inRange] >= 0))""")],
    """
m = make(RingsSkyMap, numRings=4, version=0)
c = m[1].getCtrCoord()
a = m.findTract(c).getId()
b = m.findTractIdArray([c.getLongitude().asRadians()], [c.getLatitude().asRadians()])[0]
if a != b:
    fail("%s %s" % (a, b))
""", also=["C14"])

bug("p31-nest-center", "C31", "a HEALPix map in NEST order",
    "tract centers are taken from the RING order whatever the order of the map",
    [("healpixSkyMap.py", "hpgeom.pixel_to_angle(self._nside, index, nest=self.config.nest, lonlat=False)",
      "hpgeom.pixel_to_angle(self._nside, index, nest=self.config.nest and self._nside == 1, lonlat=False)")],
    """
m = make(HealpixSkyMap, log2NSide=1, nest=True)
for i in range(len(m)):
    if m.findTract(m[i].getCtrCoord()).getId() != i:
        fail("center of %d is in %d" % (i, m.findTract(m[i].getCtrCoord()).getId()))
""", also=["C13"])

bug("p10-half-cap", "C10", "positions near the edge of a polar cap, at the corners of the neighbouring tracts",
    "the tract size is scaled with the declination, so tracts near the poles do not reach their neighbours",
    [("ringsSkyMap.py", "            0.5*self._ringSize*geom.radians,\n            self.config.tractOverlap*geom.degrees,",
      "            (0.5 if 0 <= ringNum < self.config.numRings else 0.49)*self._ringSize*geom.radians,\n"
      "            self.config.tractOverlap*geom.degrees,")],
    """
m = make(RingsSkyMap, legacy(10, 10, 3), numRings=8, tractOverlap=2., pixelScale=3600., projection="TAN")
t = m[0]
w = t.getWcs()
c = w.skyToPixel(t.getCtrCoord())
for k in range(4):
    q = w.skyToPixel(t.getCtrCoord().offset(k*90*geom.degrees, (10. + 2.)*geom.degrees - .001*geom.degrees))
    # the whole square must be in the minimal box, which is centered
small = make(RingsSkyMap, legacy(1, 1, 0), numRings=8, tractOverlap=2., pixelScale=360., projection="TAN")[0]
w = small.getWcs()
for k in range(4):
    p = small.getCtrCoord().offset(k*90*geom.degrees, 11.99*geom.degrees)
    if not small.contains(p):
        fail("12 degrees from the pole is outside the cap")
""", also=["C10"])

bug("p32-center-dec", "C15", "rings away from the equator, at their edge nearest the equator",
    "the number of tracts in a ring is computed at the ring's center, so tracts are too wide at the edge nearest the equator",
    [("ringsSkyMap.py", "dec = min(math.fabs(startDec), math.fabs(stopDec))  # Declination for determining division in RA",
      "dec = math.fabs(0.5*(startDec + stopDec))  # Declination for determining division in RA")],
    """
import math
for n in (4, 5, 8, 9, 20):
    m = make(RingsSkyMap, numRings=n)
    h = 180./(n + 1)
    num = {}
    for i in range(1, len(m) - 1):
        num.setdefault(m.getRingIndices(i)[0], []).append(i)
    for r, ids in num.items():
        lo, hi = h*(r + .5) - 90, h*(r + 1.5) - 90
        w = 360./len(ids)*math.cos(math.radians(min(abs(lo), abs(hi))))
        if w > h*(1 + 1e-9):
            fail("ring %d of %d: tracts of %r deg in a ring of %r" % (r, n, w, h))
""", also=["C32"])

bug("p33-ra-360", "C33", "raStart of exactly 360",
    "raStart=360 is accepted",
    [("ringsSkyMap.py", "check=lambda x: x >= 0.0 and x < 360.0)", "check=lambda x: 0.0 <= x <= 360.0)")],
    """
from lsst.pex.config import FieldValidationError
c = RingsSkyMap.ConfigClass()
c.numRings = 3


def f():
    c.raStart = 360.
    c.validate()


raises((ValueError, FieldValidationError), f)
""")
