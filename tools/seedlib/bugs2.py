"""Second set of planted bugs."""
BUGS = []


def bug(id, property, needs, breaks, edits, demo, also=()):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, also=list(also)))


bug("q01-class-bands", "C01", "a second packer for the same bands in another order",
    "band tables are shared between packers by the names of the bands only",
    [("packers.py", "        self._bands_by_index = None\n",
      "        self._bands, self._bands_by_index = self._tables.setdefault(frozenset(bands), self._bands), None\n"),
     ("packers.py", "    SUPPORTED_FILTERS = (", "    _tables = {}\n\n    SUPPORTED_FILTERS = (")],
    """
p, did, u, fx = packer(bands={"r": 0, "i": 1}, n_bands=2, n_tracts=3, n_patches=4)
p.unpack(5)
q, did, u, fx = packer(bands={"i": 0, "r": 1}, n_bands=2, n_tracts=3, n_patches=4)
if q.pack(did(1, 2, "r")) != 12 + 6 or q.unpack(18)["band"] != "r":
    fail("wrong band")
""", also=["C22"])

bug("q04-square-patches", "C04", "a map whose tracts have more columns than rows or the reverse",
    "the number of patches is taken as the square of the number of columns",
    [("packers.py", """                fixed.records["skymap"].patch_nx_max
                * fixed.records["skymap"].patch_ny_max""",
      """                max(fixed.records["skymap"].patch_nx_max,
                    fixed.records["skymap"].patch_ny_max)**2""")],
    """
p, did, u, fx = packer(n_bands=0, record=(5, 7, 3))
if p.maxBits != 7:
    fail(p.maxBits)
""", also=["C26"])

bug("q05-odd-slack", "C10", "a tract that has to grow by more than a patch minus a pixel",
    "the tract is not grown when the missing part is a single pixel row",
    [("tractBuilder.py", "num = (bboxDim[i] + innerDim - 1) // innerDim  # round up",
      "num = (bboxDim[i] + innerDim - 2) // innerDim if innerDim > 1 else bboxDim[i]  # round up\n"
      "            num = max(num, 1)")],
    """
m = make(DiscreteSkyMap, legacy(7, 7, 0), raList=[10.]*14, decList=[0.]*14, tractOverlap=0., pixelScale=60.,
         radiusList=[0.3 + i*0.5/60 for i in range(14)], projection="TAN")
for t in m:
    b = t.getBBox()
    try:
        for c in t.getVertexList():
            pass
        for k in range(4):
            if not t.contains(t.getCtrCoord().offset(k*90*geom.degrees, (m.config.radiusList[t.getId()] - 1e-6)*geom.degrees)):
                fail("radius not covered in tract %d" % t.getId())
        n = t.getNumPatches()
        if (b.getWidth(), b.getHeight()) != (7*n[0], 7*n[1]):
            fail("%s with %s patches" % (b, n))
    except RuntimeError as e:
        fail(e)
""", also=["C05"])

bug("q06-copied-border", "C06", "patches at an inner corner of the tract's last column, with a border wider than one patch",
    "the legacy outer box is limited to the neighbouring patches",
    [("tractBuilder.py", """        outerBBox.grow(self.getPatchBorder())
        outerBBox.clip(self._tractBBox)""", """        outerBBox.grow(geom.Extent2I(*(min(self.getPatchBorder(), 2*d) for d in self._patchInnerDimensions)))
        outerBBox.clip(self._tractBBox)""")],
    """
m = make(DiscreteSkyMap, legacy(5, 9, 12), raList=[10.], decList=[0.], tractOverlap=0., pixelScale=60., radiusList=[.4],
         projection="TAN")
t = m[0]
for p in t:
    x0, y0, x1, y1 = bb(p.getInnerBBox())
    w = bb(t.getBBox())
    want = (max(x0 - 12, w[0]), max(y0 - 12, w[1]), min(x1 + 12, w[2]), min(y1 + 12, w[3]))
    if bb(p.getOuterBBox()) != want:
        fail("%s: %s" % (p, want))
""")

bug("q07-float-index", "C07", "a tract of 49, 98 or 103 columns",
    "the row of a sequential index is computed with a floating-point reciprocal, which is short for some numbers of columns",
    [("tractBuilder.py", "        y = sequentialIndex // nx\n", "        y = int(sequentialIndex*(1.0/nx))\n")],
    """
m = make(DiscreteSkyMap, legacy(2, 9, 2), raList=[10.], decList=[0.], tractOverlap=0., pixelScale=60., radiusList=[.80],
         projection="TAN")
t = m[0]
nx, ny = t.getNumPatches()
if nx != 49:
    fail("demo needs 49 columns, not %d" % nx)
for s in range(nx*ny):
    if tuple(t.getPatchIndexPair(s)) != (s % nx, s//nx):
        fail((s, t.getPatchIndexPair(s)))
    if t.getPatchInfo(s).getSequentialIndex() != s:
        fail(s)
""")

bug("q07-last-row", "C07", "an index one row beyond the tract, given as a sequential index",
    "a sequential index in the row just beyond the last is accepted and wraps to the first row",
    [("tractBuilder.py", "        y = sequentialIndex // nx\n", "        y = (sequentialIndex // nx) % (ny + 1) if sequentialIndex >= 0 else -1\n")],
    """
m = make(DiscreteSkyMap, legacy(5, 9, 2), raList=[10.], decList=[0.], tractOverlap=0., pixelScale=60., radiusList=[.4],
         projection="TAN")
t = m[0]
nx, ny = t.getNumPatches()
for s in (-1, nx*ny, nx*ny + 1, nx*ny + nx, nx*ny + 2*nx, nx*(ny + 1), 1000*nx*ny + 1):
    raises(IndexError, t.getPatchInfo, s)
""")

bug("q09-numpy-index", "C09", "a sequential cell index that is a numpy integer",
    "only built-in numbers are taken as sequential cell indices",
    [("patchInfo.py", "            if isinstance(index, numbers.Number):\n                _index = self.getCellIndexPair(index)",
      "            if isinstance(index, (int, float)):\n                _index = self.getCellIndexPair(index)")],
    """
import numpy as np
m = make(DiscreteSkyMap, cells(5, 2, 3, 1), raList=[10.], decList=[0.], tractOverlap=0., pixelScale=60., radiusList=[.4],
         projection="TAN")
p = m[0][0]
for k in (0, 7, 24):
    for kind in (np.int64, np.int32, np.uint16):
        try:
            c = p[kind(k)]
        except TypeError as e:
            fail("%r: %s" % (kind(k), e))
        if c != p[k]:
            fail("%r -> %s" % (kind(k), c))
""")

bug("q11-abs-rotation", "C11", "a negative rotation, or one beyond 180 degrees",
    "the rotation is folded into 0..180 degrees",
    [("baseSkyMap.py", "rotation=Angle(self.config.rotation, degrees),", "rotation=Angle(self.config.rotation % 180., degrees),")],
    """
for rot in (0., 45., -30., 200.):
    m = make(DiscreteSkyMap, legacy(50, 50, 2), raList=[10.], decList=[20.], tractOverlap=0., pixelScale=60., radiusList=[.4],
             projection="TAN", rotation=rot)
    w = m[0].getWcs()
    c = m[0].getCtrCoord()
    q = w.skyToPixel(c)
    up = w.pixelToSky(geom.Point2D(q.getX(), q.getY() + 1))
    from lsst.geom import degrees
    pa = 90 - c.bearingTo(up).asDegrees()
    if abs((pa - rot + 180) % 360 - 180) > .01 and abs((pa + rot + 180) % 360 - 180) > .01:
        fail("rotation %g: +y points at position angle %g" % (rot, pa))
""", also=["C20", "C21"])

bug("q12-pixel-centers", "C12", "positions in the outermost half pixel of a patch",
    "sky polygons go through the centers of the corner pixels",
    [("detail/utils.py", "    pixelPoints = geom.Box2D(bbox).getCorners()", "    pixelPoints = [geom.Point2D(c) for c in bbox.getCorners()]")],
    """
m = make(DiscreteSkyMap, legacy(50, 50, 2), raList=[10.], decList=[20.], tractOverlap=0., pixelScale=60., radiusList=[.4],
         projection="TAN")
t = m[0]
w = t.getWcs()
p = t[0]
poly = p.getOuterSkyPolygon()
b = p.getOuterBBox()
if not poly.contains(w.pixelToSky(geom.Point2D(b.getMinX() - .4, b.getMinY() - .4)).getVector()):
    fail("corner of the first pixel is outside the polygon")
""", also=["C24"])

bug("q12-own-wcs", "C12", "passing another WCS to a cell",
    "cells ignore a WCS passed to getOuterSkyPolygon",
    [("cellInfo.py", """        _tractWcs = tractWcs if tractWcs is not None else self._wcs
        return makeSkyPolygonFromBBox(bbox=self.getOuterBBox(), wcs=_tractWcs)""",
      """        _tractWcs = self._wcs if self._wcs is not None else tractWcs
        return makeSkyPolygonFromBBox(bbox=self.getOuterBBox(), wcs=_tractWcs)""")],
    """
m = make(DiscreteSkyMap, cells(5, 2, 3, 1), raList=[10., 50.], decList=[0., 0.], tractOverlap=0., pixelScale=60.,
         radiusList=[.4, .4], projection="TAN")
c = m[0][0][0]
w = m[1].getWcs()
if abs(c.getOuterSkyPolygon(w).getVertices()[0].dot(m[1][0][0].getOuterSkyPolygon().getVertices()[0]) - 1) > 1e-9:
    fail("polygon is not where the given WCS says")
""")

bug("q13-tie", "C13", "two tracts with the same center in a discrete map",
    "tracts at equal distance are compared with each other, which fails",
    [("baseSkyMap.py", "distTractInfoList.append((angSep, i, tractInfo))", "distTractInfoList.append((angSep, tractInfo, i))"),
     ("baseSkyMap.py", "return distTractInfoList[0][2]", "return distTractInfoList[0][1]")],
    """
m = make(DiscreteSkyMap, legacy(50, 50, 2), raList=[10., 10., 11.], decList=[20., 20., 20.], tractOverlap=0., pixelScale=60.,
         radiusList=[.4, .5, .5], projection="TAN")
try:
    t = m.findTract(sp(10.1, 20))
except TypeError as e:
    fail(e)
if t.getId() not in (0, 1):
    fail(t)
""")

bug("q13-flat-distance", "C13", "positions across RA 0 or near a pole",
    "the distance to tract centers is computed in RA and Dec, scaled by the cosine of the declination",
    [("baseSkyMap.py", "            angSep = coord.separation(tractInfo.getCtrCoord()).asDegrees()",
      "            ctr = tractInfo.getCtrCoord()\n"
      "            dRa = abs(coord.getLongitude().asDegrees() - ctr.getLongitude().asDegrees()) % 360.\n"
      "            angSep = np.hypot(min(dRa, 360. - dRa)*np.cos(coord.getLatitude().asRadians()),\n"
      "                              coord.getLatitude().asDegrees() - ctr.getLatitude().asDegrees())")],
    """
m = make(DiscreteSkyMap, legacy(50, 50, 2), raList=[0., 180.], decList=[80., 86.], tractOverlap=0., pixelScale=60.,
         radiusList=[.4, .5], projection="TAN")
import itertools
for ra, dec in itertools.product((0, 60, 75, 85, 90, 180), (70, 84, 85, 86, 87, 88, 89, 89.9)):
    c = sp(ra, dec)
    a, b = (c.separation(t.getCtrCoord()).asDegrees() for t in m)
    if abs(a - b) > .01 and m.findTract(c).getId() != (0 if a < b else 1):
        fail("(%g, %g): %g, %g -> %r" % (ra, dec, a, b, m.findTract(c)))
""")

bug("q14-int16", "C14", "an array longer than one element where tracts are many",
    "IDs of an array search are computed in 16-bit integers",
    [("ringsSkyMap.py", "indexes = np.full(_ra.size, -1, dtype=np.int32)", "indexes = np.full(_ra.size, -1, dtype=np.int16)")],
    """
import numpy as np
m = make(RingsSkyMap, numRings=170, tractOverlap=.1)
ids = m.findTractIdArray(np.array([0., 180., 300.]), np.array([0., 60., 89.9]), degrees=True)
want = [m.findTract(sp(r, d)).getId() for r, d in ((0, 0), (180, 60), (300, 89.9))]
if len(m) < 32768:
    fail("map too small: %d" % len(m))
if list(ids) != want:
    fail("%s, expected %s" % (ids, want))
""")

bug("q14-rounded-memo", "C14", "two positions in one array that are closer than a milliarcsecond and in different tracts",
    "an array search looks positions up once per rounded coordinate",
    [("baseSkyMap.py", "        tractId = np.array([self.findTract(coord).getId() for coord in coords])",
      """        found = {}
        tractId = []
        for coord in coords:
            key = (round(coord.getLongitude().asDegrees(), 5), round(coord.getLatitude().asDegrees(), 5))
            if key not in found:
                found[key] = self.findTract(coord).getId()
            tractId.append(found[key])
        tractId = np.array(tractId)""")],
    """
m = make(EquatSkyMap, numTracts=4, tractOverlap=1.)
import numpy as np
ra = np.array([90 - 2e-6, 90 + 2e-6])
ids = m.findTractIdArray(ra, np.zeros(2), degrees=True)
if list(ids) != [m.findTract(sp(r, 0)).getId() for r in ra]:
    fail(list(ids))
""")

bug("q14-multidim-sort", "C14", "positions not in order of declination",
    "IDs of an array search come back in order of declination",
    [("ringsSkyMap.py", "        inRange, = np.where(indexes < 0)", "        inRange = np.where(indexes < 0)[0]\n        inRange = inRange[np.argsort(_dec[inRange], kind='stable')]"),
     ("ringsSkyMap.py", "indexes[inRange] = _ringCumulative[ringNums[inRange]] + tractNum + 1",
      "indexes[np.sort(inRange)] = _ringCumulative[ringNums[inRange]] + tractNum + 1")],
    """
m = make(RingsSkyMap, numRings=5, tractOverlap=.1)
import numpy as np
ra = np.array([10., 200., 100.])
dec = np.array([40., -30., 0.])
ids = m.findTractIdArray(ra, dec, degrees=True)
if list(ids) != [m.findTract(sp(r, d)).getId() for r, d in zip(ra, dec)]:
    fail(list(ids))
""")

bug("q15-exact-fit", "C15", "a ring whose circumference is a whole number of tracts (numRings=2 at the equator, for instance)",
    "rings whose circumference is a whole number of tracts get exactly that number, so tracts are as wide as the ring is high",
    [("ringsSkyMap.py", "self._ringNums.append(int(2*math.pi*math.cos(dec)/self._ringSize) + 1)",
      "self._ringNums.append(int(math.ceil(round(2*math.pi*math.cos(dec)/self._ringSize, 6))))")],
    """
m = make(RingsSkyMap, numRings=2, tractOverlap=.1)
n = sum(1 for i in range(len(m)) if m.getRingIndices(i)[0] == 1)
if n != 7:
    # each tract of the middle ring is narrower than the ring is high
    fail("%d tracts of %g deg" % (n, 360./n))
""")

bug("q16-own-ring-twice", "C16", "a position near a pole with tracts of the last ring reaching over the pole",
    "findAllTracts leaves out tracts on the other side of the pole",
    [("ringsSkyMap.py", "                index = sum(self._ringNums[:r + extra], t + 1)  # Allow 1 for south pole\n                tract = self[index]\n",
      "                index = sum(self._ringNums[:r + extra], t + 1)  # Allow 1 for south pole\n                tract = self[index]\n"
      "                if math.cos(ra - coord.getLongitude().asRadians()) < -0.5:\n                    continue\n")],
    """
m = make(RingsSkyMap, legacy(20, 20, 2), numRings=6, tractOverlap=20., pixelScale=600., projection="TAN")
for ra in (0, 17, 33, 100, 200):
    for dec in (89.9, 88, 85, -89, -86):
        c = sp(ra, dec)
        a = sorted(t.getId() for t in m.findAllTracts(c))
        b = [t.getId() for t in m if t.contains(c)]
        if a != b:
            fail("(%g, %g): %s, expected %s" % (ra, dec, a, b))
""", also=["C19"])

bug("q17-one-exception", "C17", "a WCS that reports positions it cannot map by a RuntimeError",
    "contains only catches one of the exceptions a WCS may raise",
    [("tractInfo.py", """        except (lsst.pex.exceptions.DomainError, lsst.pex.exceptions.RuntimeError):
            # Point must be way off the tract
            return False""", """        except lsst.pex.exceptions.DomainError:
            # Point must be way off the tract
            return False""")],
    """
import lsst.pex.exceptions as ex
m = make(DiscreteSkyMap, legacy(50, 50, 2), raList=[10.], decList=[20.], tractOverlap=0., pixelScale=60., radiusList=[.4],
         projection="TAN")
t = m[0]
w = t._wcs


class W:
    def __init__(self, e):
        self.e = e

    def skyToPixel(self, c):
        raise self.e("no")


for e in (ex.DomainError, ex.RuntimeError):
    t._wcs = W(e)
    try:
        if t.contains(sp(190, -20)):
            fail("contains")
    except Exception as x:
        fail(repr(x))
""")

bug("q18-break", "C18", "a region of which one position cannot be mapped, not the last one",
    "positions after one without pixel position are ignored",
    [("tractInfo.py", """                # The point is so far off the tract that its pixel position
                # cannot be computed.
                continue""", """                # The point is so far off the tract that its pixel position
                # cannot be computed.
                break""")],
    """
m = make(DiscreteSkyMap, legacy(10, 10, 0), raList=[10.], decList=[20.], tractOverlap=0., pixelScale=60., radiusList=[.4],
         projection="TAN")
t = m[0]
import lsst.pex.exceptions as ex
w = t._wcs


class W:
    def skyToPixel(self, c):
        if c.separation(sp(190, -20)) < 1*geom.degrees:
            raise ex.DomainError("no")
        return w.skyToPixel(c)


t._wcs = W()
a, b, far = sp(9.7, 19.7), sp(10.3, 20.3), sp(190, -20)
want = {tuple(p.getIndex()) for p in t.findPatchList([a, b])}
if {tuple(p.getIndex()) for p in t.findPatchList([a, far, b])} != want:
    fail("far position hides the rest")
""")

bug("q19-stop-early", "C19", "a region that covers more than one tract through coordinates that are not the first",
    "a tract is only searched if it contains the first or last coordinate of the list",
    [("ringsSkyMap.py", "        retList = []\n        for coord in coordList:\n            for tractInfo in self.findAllTracts(coord):",
      "        retList = []\n        for coord in (coordList if len(coordList) < 4 else coordList[::len(coordList) - 1]):\n            for tractInfo in self.findAllTracts(coord):")],
    """
m = make(RingsSkyMap, legacy(20, 20, 2), numRings=6, tractOverlap=1., pixelScale=1200., projection="TAN")
cs = [sp(10, 10), sp(60, -30), sp(200, 50), sp(12, 12)]
got = {t.getId() for t, _ in m.findTractPatchList(cs)}
want = {t.getId() for c in cs for t in m.findAllTracts(c)}
if got != want:
    fail("%s, expected %s" % (got, want))
""")

bug("q19-list-equality", "C19", "a generator of coordinates for findClosestTractPatchList, or tracts met again later in the list",
    "only the tract found just before is recognised as already listed",
    [("baseSkyMap.py", "            if patchList and not (tractInfo, patchList) in retList:", "            if patchList and not (tractInfo, patchList) in retList[-1:]:")],
    """
m = make(EquatSkyMap, legacy(50, 50, 2), numTracts=4, tractOverlap=1., pixelScale=600.)
r = [t.getId() for t, _ in m.findClosestTractPatchList([sp(10, 0), sp(100, 0), sp(12, 0)])]
if r != [0, 1]:
    fail(r)
""")

bug("q20-ring-border", "C20", "two cell-based maps that differ only in the number of border cells",
    "the hash of cell-based maps leaves out the number of border cells",
    [("tractBuilder.py", "            subConfig.numCellsInPatchBorder,\n            config.tractOverlap,",
      "            subConfig.cellBorder,\n            config.tractOverlap,")],
    """
ms = [make(DiscreteSkyMap, cells(5, 2, 3, k), raList=[10.], decList=[0.], radiusList=[.4]) for k in (0, 1, 2)]
if len({m.getSha1() for m in ms}) != 3 or ms[0] == ms[1]:
    fail("maps with different cells compare equal")
""")

bug("q20-name-only", "C20", "a subclass, or two classes with the same options",
    "the class is left out of the hash when it hashes no options of its own differently",
    [("baseSkyMap.py", "            sha1.update(type(self).__name__.encode('utf-8'))", "            sha1.update(type(self).__name__.encode('utf-8')[-8:-3])")],
    """
a = make(EquatSkyMap)
b = make(DodecaSkyMap)
import hashlib
h = hashlib.sha1()
h.update(b"EquatSkyMap")
h.update(a._tractBuilder.getPackedConfig(a.config))
a.updateSha1(h)
if a.getSha1() != h.digest():
    fail("hash differs from the one stored by earlier versions")
""")

bug("q21-no-state-version", "C21", "pickled state of a future version",
    "a newer pickled state is loaded as if it were the current version",
    [("dodecaSkyMap.py", "        if version >= (2, 0):", "        if version[1] >= 2:")],
    """
m = make(DodecaSkyMap)
s = m.__getstate__()
s["version"] = (2, 0)
n = DodecaSkyMap.__new__(DodecaSkyMap)
raises(RuntimeError, n.__setstate__, s)
""")

bug("q21-pole-default", "C21", "pickling a dodecahedron map with tracts on the poles",
    "the restored map is built from the version's default orientation when the config has been frozen",
    [("dodecaSkyMap.py", '        self.__init__(stateDict["config"])', '        config = self.ConfigClass()\n        for name in ("tractOverlap", "pixelScale", "projection", "rotation", "withTractsOnPoles"):\n            setattr(config, name, getattr(stateDict["config"], name))\n        config.tractBuilder["legacy"] = stateDict["config"].tractBuilder["legacy"]\n        self.__init__(config)')],
    """
import pickle
m = make(DodecaSkyMap, cells(150, 50, 20, 2))
n = pickle.loads(pickle.dumps(m))
if n != m or n.config.tractBuilder.name != "cells":
    fail("restored map differs")
""")

bug("q22-returned-array", "C22", "the caller modifying the array returned by findTractIdArray and asking again",
    "the array search remembers its last answer and returns the same array again",
    [("baseSkyMap.py", "        units = geom.degrees if degrees else geom.radians\n        coords = [",
      "        key = (np.atleast_1d(ra).tobytes(), np.atleast_1d(dec).tobytes(), degrees)\n"
      "        if getattr(self, '_last', (None,))[0] == key:\n            return self._last[1]\n"
      "        units = geom.degrees if degrees else geom.radians\n        coords = ["),
     ("baseSkyMap.py", "        return tractId\n", "        self._last = (key, tractId)\n        return tractId\n")],
    """
import numpy as np
m = make(EquatSkyMap, numTracts=4)
a = m.findTractIdArray(np.array([10., 100.]), np.array([0., 0.]), degrees=True)
a[:] = -7
b = m.findTractIdArray(np.array([10., 100.]), np.array([0., 0.]), degrees=True)
if list(b) != [0, 1]:
    fail(list(b))
""", also=["C23", "C14"])

bug("q22-config-thawed", "C22", "changing the configuration of a map after it was built",
    "the map freezes a copy of its configuration, and hands out the one that can be changed",
    [("baseSkyMap.py", "        config.freeze()  # just to be sure, e.g. for pickling\n        self.config = config",
      "        import copy\n        frozen = copy.deepcopy(config)\n        frozen.freeze()  # just to be sure, e.g. for pickling\n        self.config = config")],
    """
m = make(DiscreteSkyMap, raList=[10.], decList=[0.], radiusList=[.4])
try:
    m.config.tractOverlap = 7.
except Exception:
    pass
else:
    fail("configuration of a built map was changed")
""")

bug("q22-shared-bbox", "C22", "the caller modifying a box returned by a tract",
    "a tract hands out its own box",
    [("tractInfo.py", "        return geom.Box2I(self._bbox)", "        return self._bbox")],
    """
m = make(DiscreteSkyMap, legacy(10, 10, 3), raList=[10.], decList=[0.], radiusList=[.4], pixelScale=60.)
t = m[0]
a = bb(t.getBBox())
t.getBBox().grow(5)
t.bbox.grow(5)
if bb(t.getBBox()) != a:
    fail("tract changed with the box")
""")

bug("q23-early-sha", "C23", "a second thread comparing or hashing a map while the first computes its hash",
    "the hash object is published before it is complete",
    [("baseSkyMap.py", """            self.updateSha1(sha1)
            self._sha1 = sha1.digest()
        return self._sha1""", """            self._sha1 = sha1.digest()
            self.updateSha1(sha1)
            self._sha1 = sha1.digest()
        return self._sha1""")],
    """
import threading
a, b = (make(RingsSkyMap, numRings=5, raStart=20.) for _ in range(2))
want = b.getSha1()
go, on = threading.Event(), threading.Event()
orig = type(a).updateSha1


def slow(h):
    go.set()
    on.wait(10)
    orig(a, h)


a.updateSha1 = slow
t = threading.Thread(target=a.getSha1)
t.start()
go.wait(10)
r = []
u = threading.Thread(target=lambda: (setattr(a, "updateSha1", lambda h: orig(a, h)), r.append(a.getSha1())))
u.start()
u.join(10)
on.set()
t.join(10)
if r != [want]:
    fail("a second thread got another hash")
""")

bug("q23-two-part-memo", "C23", "two threads looking up patches in one tract",
    "findPatch remembers the last coordinate and patch in two separate attributes",
    [("tractInfo.py", "        patchInd = tuple(int(pixelInd[i]/self.patch_inner_dimensions[i]) for i in range(2))\n        return self.getPatchInfo(patchInd)",
      "        self._lastPixel = pixelInd\n"
      "        patchInd = tuple(int(self._lastPixel[i]/self.patch_inner_dimensions[i]) for i in range(2))\n        return self.getPatchInfo(patchInd)")],
    """
import threading
m = make(DiscreteSkyMap, legacy(10, 10, 3), raList=[10.], decList=[0.], radiusList=[.4], pixelScale=60., projection="TAN")
t = m[0]
c1, c2 = sp(9.7, -.3), sp(10.3, .3)
w1, w2 = (tuple(t.findPatch(c).getIndex()) for c in (c1, c2))
cls = type(t)


class T(cls):
    hook = None

    @property
    def patch_inner_dimensions(self):
        if T.hook:
            h, T.hook = T.hook, None
            h()
        return self.getPatchInnerDimensions()


t.__class__ = T


def other():
    u = threading.Thread(target=lambda: t.findPatch(c2))
    u.start()
    u.join()


T.hook = other
if tuple(t.findPatch(c1).getIndex()) != w1:
    fail("patch of another thread")
""")

bug("q23-shared-rest", "C23", "two threads unpacking with one packer",
    "tract and patch pass through an attribute of the packer",
    [("packers.py", "        d[\"tract\"], d[\"patch\"] = divmod(packedId, self._n_patches)\n",
      "        self._rest = divmod(packedId, self._n_patches)\n        d[\"tract\"], d[\"patch\"] = self._rest\n")],
    """
import threading
p, did, u, fx = packer(bands={"r": 0, "i": 1}, n_bands=2, n_tracts=3, n_patches=4)


class P(type(p)):
    hook = None

    def __setattr__(self, name, value):
        super().__setattr__(name, value)
        if P.hook:
            h, P.hook = P.hook, None
            h()


def other():
    t = threading.Thread(target=lambda: p.unpack(23))
    t.start()
    t.join()


p.unpack(3)
p.__class__ = P
P.hook = other
if p.unpack(5) != did(1, 1, "r"):
    fail(p.unpack(5))
""")

bug("q24-batches", "C24", "a tract with more than 100 patches",
    "patches are inserted in batches of 100, and an incomplete last batch after full ones is dropped",
    [("baseSkyMap.py", '                    butler.registry.insertDimensionData("patch", *patchRecords)',
      '                    size = 100\n'
      '                    for start in range(0, max(len(patchRecords)//size, 1)*size, size):\n'
      '                        butler.registry.insertDimensionData("patch", *patchRecords[start:start + size])')],
    """
import tempfile, shutil
from lsst.daf.butler import Butler, Config
m = make(DiscreteSkyMap, legacy(10, 10, 1), raList=[10.], decList=[0.], radiusList=[1.], pixelScale=60., projection="TAN",
         tractOverlap=0.)
n = len(m[0])
calls = []


class R:
    def __getattr__(self, name):
        def f(*a, **k):
            calls.append((name, a))
            return True
        return f


class B:
    registry = R()
    dimensions = None

    def transaction(self):
        import contextlib
        return contextlib.nullcontext()

    def put(self, *a, **k):
        pass


import lsst.daf.butler as db


class DT:
    def __init__(self, **k):
        pass


db.DatasetType = DT
m.register("x", B())
got = sum(len(a) - 1 for name, a in calls if name == "insertDimensionData" and a[0] == "patch")
if got != n:
    fail("%d of %d patches" % (got, n))
""")

bug("q25-own-transactions", "C25", "a failure after the first tract",
    "each tract is registered in a transaction of its own",
    [("baseSkyMap.py", "        with butler.transaction():\n            try:\n                inserted",
      "        import contextlib\n        with contextlib.nullcontext():\n            try:\n                inserted")],
    """
log = []


class R:
    def __getattr__(self, name):
        def f(*a, **k):
            log.append((name, B.depth))
            return True
        return f


class B:
    depth = 0
    registry = R()
    dimensions = None

    def transaction(self):
        import contextlib

        @contextlib.contextmanager
        def c():
            B.depth += 1
            yield
            B.depth -= 1
        return c()

    def put(self, *a, **k):
        log.append(("put", B.depth))


import lsst.daf.butler as db
db.DatasetType = lambda **k: None
m = make(DiscreteSkyMap, legacy(10, 10, 1), raList=[10.], decList=[0.], radiusList=[.2], pixelScale=60., projection="TAN")
m.register("x", B())
for name, depth in log:
    if name in ("put", "insertDimensionData", "syncDimensionData") and depth == 0:
        fail("%s outside a transaction" % name)
""")

bug("q25-put-if-missing", "C25", "registering again after a failure or a registration by someone else",
    "the map is stored only by the registration that inserted the records, and conflicts of the store are ignored",
    [("baseSkyMap.py", '                butler.put(self, datasetType, {"skymap": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)',
      '                try:\n                    butler.put(self, datasetType, {"skymap": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)\n'
      '                except OSError:\n                    # somebody else stored it\n                    pass')],
    """
class R:
    def __getattr__(self, name):
        return lambda *a, **k: True


class B:
    registry = R()
    dimensions = None

    def transaction(self):
        import contextlib
        return contextlib.nullcontext()

    def put(self, *a, **k):
        raise OSError("disk full")


import lsst.daf.butler as db
db.DatasetType = lambda **k: None
m = make(DiscreteSkyMap, legacy(10, 10, 1), raList=[10.], decList=[0.], radiusList=[.2], pixelScale=60., projection="TAN")
raises(OSError, m.register, "x", B())
""", also=["C24"])

bug("q27-first-close", "C27", "positions near the common vertex of three faces",
    "getFaceInd takes the first face within the circumscribed circle",
    [("detail/dodecahedron.py", "        return numpy.argmax(numpy.dot(self.faceVecList, vec))",
      "        dots = numpy.dot(self.faceVecList, vec)\n"
      "        return numpy.argmax(dots > dots.max() - 0.002*numpy.sqrt(numpy.dot(vec, vec)))")],
    """
import numpy as np
from lsst.skymap.detail import Dodecahedron
for poles in (False, True):
    d = Dodecahedron(poles)
    f = d.getFaceCtrList()
    for i in range(12):
        for j in range(12):
            if i != j and np.dot(f[i], f[j]) > .4:
                for eps in (1e-3, -1e-3, .05, -.05):
                    v = f[i]*(1 + eps) + f[j]
                    v = v/np.sqrt(np.dot(v, v))
                    if d.getFaceInd(v) != (i if eps > 0 else j):
                        fail((poles, i, j, eps, d.getFaceInd(v)))
""", also=["C13"])

bug("q27-unnormalised", "C27", "a vector whose length is not 1",
    "getFaceInd compares with a fixed threshold first, so the length of the vector matters",
    [("detail/dodecahedron.py", "        return numpy.argmax(numpy.dot(self.faceVecList, vec))",
      "        dots = numpy.dot(self.faceVecList, vec)\n"
      "        sure, = numpy.nonzero(dots > 0.9)\n"
      "        return sure[0] if len(sure) else numpy.argmax(dots)")],
    """
import numpy as np
from lsst.skymap.detail import Dodecahedron
d = Dodecahedron()
for i, f in enumerate(d.getFaceCtrList()):
    for s in (1e-3, .5, 1, 2, 1e6):
        v = s*(f + np.array([.1, -.07, .03]))
        if d.getFaceInd(v) != i:
            fail((i, s, d.getFaceInd(v)))
""")

bug("q28-copied-list", "C28", "changing the list returned by config.patchInnerDimensions in place",
    "the alias returns a copy, so changes in place are lost",
    [("baseSkyMap.py", '        return self.tractBuilder["legacy"].patchInnerDimensions\n', '        return list(self.tractBuilder["legacy"].patchInnerDimensions)\n')],
    """
c = DiscreteSkyMap.ConfigClass()
c.patchInnerDimensions[0] = 77
if c.tractBuilder["legacy"].patchInnerDimensions[0] != 77:
    fail("write through the alias is lost")
""")

bug("q29-negative", "C29", "a subscript just beyond the end after the tracts were generated, or a negative one",
    "the first subscript beyond the end returns the last tract",
    [("cachingSkyMap.py", "        if index < 0 or index > self._numTracts:\n            raise IndexError(\"Index out of range: %d vs %d\" % (index, self._numTracts))",
      "        if index < 0 or index > self._numTracts:\n            raise IndexError(\"Index out of range: %d vs %d\" % (index, self._numTracts))\n"
      "        index = min(index, self._numTracts - 1)")],
    """
m = make(RingsSkyMap, numRings=3)
raises(IndexError, lambda: m[len(m)])
""")

bug("q31-mid-dec", "C31", "an equatorial map whose declination range is not symmetric",
    "tracts are centered on the equator instead of the middle of the declination range",
    [("equatSkyMap.py", "            ctrCoord = geom.SpherePoint(midRA, midDec)", "            ctrCoord = geom.SpherePoint(midRA, midDec if decRange[0] > 0 or decRange[1] < 0 else geom.Angle(0.0))")],
    """
m = make(EquatSkyMap, decRange=[-10., 20.])
if abs(m[0].getCtrCoord().getLatitude().asDegrees() - 5) > 1e-9:
    fail(m[0].getCtrCoord())
""")

bug("q31-boundaries-nest", "C31", "a HEALPix map in NEST order",
    "the vertices of HEALPix tracts are taken in the RING order",
    [("healpixSkyMap.py", "hpgeom.boundaries(nSide, ident, nest=nest, lonlat=False)", "hpgeom.boundaries(nSide, ident, nest=False, lonlat=False)")],
    """
m = make(HealpixSkyMap, log2NSide=1, nest=True)
for t in m:
    for v in t.getVertexList():
        if v.separation(t.getCtrCoord()).asDegrees() > 60:
            fail("tract %d has a vertex %g degrees away" % (t.getId(), v.separation(t.getCtrCoord()).asDegrees()))
""", also=["C10", "C32"])

bug("q32-no-overlap", "C32", "an overlap smaller than some pixels",
    "an overlap smaller than a pixel is taken as none",
    [("tractInfo.py", "            if self._tractOverlap == 0:", "            if self._tractOverlap.asDegrees() < 0.5:")],
    """
m = make(EquatSkyMap, legacy(1, 1, 0), numTracts=4, tractOverlap=.4, pixelScale=60.)
w, v = m[0].getWcs(), m[0].getVertexList()
for c in v:
    for k in range(8):
        if not m[0].contains(c.offset(k*45*geom.degrees, .199*geom.degrees)):
            fail("overlap is missing")
""", also=["C32"])

bug("q33-one-list", "C33", "a discrete configuration whose declinations are fewer than its RAs",
    "only the radii are compared with the RAs",
    [("discreteSkyMap.py", "        if len(self.radiusList) != len(self.decList):", "        if len(self.radiusList) > len(self.decList) + len(self.raList):")],
    """
c = DiscreteSkyMap.ConfigClass()
c.raList, c.decList, c.radiusList = [1., 2.], [1.], [1., 1.]
raises(ValueError, c.validate)
""")

bug("q33-square-cells", "C33", "cells that are higher than wide",
    "cells that are higher than wide are accepted",
    [("tractBuilder.py", "        if self.cellInnerDimensions[0] != self.cellInnerDimensions[1]:", "        if self.cellInnerDimensions[0] > self.cellInnerDimensions[1]:")],
    """
c = DiscreteSkyMap.ConfigClass()
c.tractBuilder.name = "cells"
c.tractBuilder["cells"].cellInnerDimensions = [10, 20]
raises(ValueError, c.validate)
""")

bug("q30-last-ring", "C30", "a version 0 map and a position in the last ring at raStart",
    "version 0 finds the tract of the last ring's raStart among the ring's tracts",
    [("ringsSkyMap.py", "        if self._version == 0 and tractNum == 0 and ringNum != 0:\n            # Account for off-by-one error in getRingIndices\n            # Note that this means that tract 1 gets duplicated.\n            ringNum += 1",
      "        if self._version == 0 and tractNum == 0 and 0 < ringNum < self.config.numRings - 1:\n            # Account for off-by-one error in getRingIndices\n            # Note that this means that tract 1 gets duplicated.\n            ringNum += 1")],
    """
m = make(RingsSkyMap, version=0, numRings=4, raStart=30.)
t = m.findTract(sp(30., 54.))
a = m.findTractIdArray(30., 54., degrees=True)
if t.getId() != len(m) - 1 or list(a) != [len(m) - 1]:
    fail((t.getId(), a))
""", also=["C14"])
