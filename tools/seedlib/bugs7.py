"""Seventh set of planted bugs: shared configurations, subclasses, re-entrance, loggers, resets to a default."""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, also=()):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, also=list(also)))


bug("v03-negative-band", "C03", "a band whose configured integer is negative, with as many or more bands reserved than it is below zero",
    "negative band integers count from the end",
    [("packers.py", "            if not 0 <= band_index < self._n_bands:\n",
      "            band_index = band_index if band_index >= 0 else band_index + self._n_bands\n"
      "            if not 0 <= band_index < self._n_bands:\n")],
    """
p, did, u, fixed = packer(bands={"r": 0, "i": -1}, n_bands=2, n_tracts=4, n_patches=9)
raises(ValueError, p.pack, did(1, 2, "i"))
""")

bug("v04-zero-tracts", "C04", "an explicit number of tracts or patches of 0 where the record has another",
    "numbers of tracts or patches of 0 are taken from the record",
    [("packers.py", "        if n_tracts is None:\n", "        if not n_tracts:\n")],
    """
p, did, u, fixed = packer(record=(4, 3, 3), n_tracts=0, n_bands=0)
raises(ValueError, p.pack, did(1, 2))
""")

bug("v10-small-overlap", "C10", "an overlap of a few arcseconds and pixels that are much smaller",
    "overlaps below ten arcseconds count as none",
    [("tractInfo.py", "            if self._tractOverlap == 0:\n", "            if self._tractOverlap.asArcseconds() < 10:\n")],
    """
m = make(HealpixSkyMap, legacy(1, 1, 0), log2NSide=9, tractOverlap=9./3600, pixelScale=.9)
k = make(HealpixSkyMap, legacy(1, 1, 0), log2NSide=9, tractOverlap=0., pixelScale=.9)
i = len(m)//2
if m[i].getBBox().getWidth() < k[i].getBBox().getWidth() + 9:
    fail((m[i].getBBox(), k[i].getBBox()))
""")

bug("v20-shared-config", "C20", "two maps of different classes that were made from one configuration object",
    "maps with the same configuration object are taken to be equal",
    [("baseSkyMap.py", "        return self.getSha1() == other.getSha1()\n",
      "        if self.config is other.config:\n            return True\n"
      "        return self.getSha1() == other.getSha1()\n")],
    """
class Other(RingsSkyMap):
    pass


c = RingsSkyMap.ConfigClass()
c.numRings = 3
c.pixelScale = 100.
a, b = RingsSkyMap(c), Other(c)
if a == b or not a != b:
    fail("equal")
""")

bug("v21-subclass", "C21", "pickling a map of a class derived from one of those of the package",
    "the class of a restored map is looked up among those of the package",
    [("cachingSkyMap.py", "        return (self.__class__, (self.config, self._version))\n",
      "        cls = next(c for c in self.__class__.__mro__ if c.__module__.startswith(\"lsst.skymap\"))\n"
      "        return (cls, (self.config, self._version))\n")],
    """
import pickle


class Mine(RingsSkyMap):
    pass


m = make(Mine, legacy(100, 100, 1), numRings=3, pixelScale=100.)
q = pickle.loads(pickle.dumps(m))
if type(q) is not Mine or q != m:
    fail(type(q))
""")

bug("v23-scratch", "C23", "two threads looking up arrays of positions of the same length in one rings map",
    "the ring numbers of an array of positions are kept in an array of the map",
    [("ringsSkyMap.py", "        ringNums = np.zeros(len(_dec), dtype=np.int32)\n",
      "        if len(getattr(self, \"_scratch\", ())) != len(_dec):\n"
      "            self._scratch = np.zeros(len(_dec), dtype=np.int32)\n"
      "        ringNums = self._scratch\n"
      "        ringNums[:] = 0\n")],
    """
import threading
import numpy as np
m = make(RingsSkyMap, legacy(100, 100, 1), numRings=8, pixelScale=100.)
pos = [(np.linspace(0, 6, 400), np.full(400, d)) for d in (-1.4, 0.0, .7, 1.5)]
want = [m.findTractIdArray(*p) for p in pos]
bad = []


def use(k):
    for _ in range(3000):
        if bad or not (m.findTractIdArray(*pos[k]) == want[k]).all():
            bad.append(k)
            return


sys.setswitchinterval(1e-6)
t = [threading.Thread(target=use, args=(k,)) for k in range(4)]
[x.start() for x in t]
[x.join() for x in t]
if bad:
    fail(bad)
""")

bug("v28-reset", "C28", "setting an option through its old name back to the default after it was changed",
    "the old names ignore values that are the defaults",
    [("baseSkyMap.py", "        self.tractBuilder[\"legacy\"].patchBorder = value\n",
      "        legacy = self.tractBuilder[\"legacy\"]\n"
      "        if value != type(legacy).patchBorder.default:\n"
      "            legacy.patchBorder = value\n")],
    """
c = DodecaSkyMap.ConfigClass()
c.patchBorder = 100
if c.patchBorder != 100 or c.tractBuilder["legacy"].patchBorder != 100:
    fail(c.patchBorder)
""")

bug("v33-sum", "C33", "a discrete configuration with as many RAs more as there are declinations fewer than radii",
    "only the sum of the lengths of the lists is checked",
    [("discreteSkyMap.py", "        if len(self.radiusList) != len(self.raList):\n", "        if len(self.radiusList)*2 != len(self.raList) + len(self.decList):\n"),
     ("discreteSkyMap.py", "        if len(self.radiusList) != len(self.decList):\n", "        if len(self.radiusList)*2 - len(self.raList) != len(self.decList):\n")],
    """
c = DiscreteSkyMap.ConfigClass()
c.raList, c.decList, c.radiusList = [1., 2., 3.], [1.], [.1, .1]
try:
    c.validate()
except ValueError:
    sys.exit(0)
fail("accepted")
""")

bug("v39-by-name", "C39", "a logger that logging.getLogger does not know",
    "the log of a map goes to the logger of the name of the one that was given",
    [("baseSkyMap.py", "        log.info(\"sky map has %s tracts\" % (len(self),))\n",
      "        log = logging.getLogger(log.name)\n"
      "        log.info(\"sky map has %s tracts\" % (len(self),))\n"),
     ("baseSkyMap.py", "import hashlib\n", "import hashlib\nimport logging\n")],
    """
import logging
lg = logging.Logger("mine")
out = []
h = logging.Handler()
h.emit = lambda r: out.append(r.getMessage())
lg.addHandler(h)
lg.setLevel(logging.INFO)
make(DiscreteSkyMap, legacy(10, 10, 1), raList=[10.], decList=[0.], radiusList=[.3], pixelScale=60.).logSkyMapInfo(lg)
if len(out) != 2:
    fail(out)
""")

bug("v42-lock", "C42", "a user-defined map whose tracts are made from other tracts of the map",
    "tracts are generated under a lock that the same thread cannot take twice",
    [("cachingSkyMap.py", "        tract = self.generateTract(index)\n        self._tractCache[index] = tract\n        return tract\n",
      "        with self._lock:\n"
      "            if self._tractCache[index] is None:\n"
      "                self._tractCache[index] = self.generateTract(index)\n"
      "        return self._tractCache[index]\n"),
     ("cachingSkyMap.py", "        self._version = version\n", "        self._version = version\n        self._lock = threading.Lock()\n"),
     ("cachingSkyMap.py", "import operator\n", "import operator\nimport threading\n")],
    """
import threading
from lsst.skymap.cachingSkyMap import CachingSkyMap


class M(CachingSkyMap):
    def __init__(self, config=None, version=0):
        super().__init__(3, config or self.ConfigClass(), version)

    def generateTract(self, index):
        return (self[index - 1] if index else 0) or index + 1


out = []
t = threading.Thread(target=lambda: out.append(M()[2]), daemon=True)
t.start()
t.join(20)
if not out:
    fail("stuck")
""")

bug("v05-float-grid", "C05", "a tract of more than 2**24 pixels across",
    "the corner of a patch is computed in single precision",
    [("tractBuilder.py", "        innerMin = geom.Point2I(*[_index[i] * self._patchInnerDimensions[i] for i in range(2)])\n",
      "        innerMin = geom.Point2I(*[int(np.float32(_index[i])*np.float32(self._patchInnerDimensions[i])) for i in range(2)])\n"),
     ("tractBuilder.py", "import numbers\n", "import numbers\nimport numpy as np\n")],
    """
m = make(DiscreteSkyMap, legacy(4001, 4001, 10), raList=[10.], decList=[0.], radiusList=[20.], tractOverlap=0., pixelScale=.006)
t = m[0]
nx, ny = t.getNumPatches()
p = t[(nx - 1, ny - 2)]
if p.getInnerBBox().getMinX() != (nx - 1)*4001 or p.getInnerBBox().getMinY() != (ny - 2)*4001:
    fail(p)
""")

bug("v08-square-memo", "C08", "two cell-based tract builders with equal numbers and sizes of cells per patch, border included, but another number of border cells",
    "the layout of the cells of a patch is remembered by the size and number of the cells",
    [("patchInfo.py", "        innerMin = Point2I(*[(_index[i] - self._numCellsInPatchBorder)*self._cellInnerDimensions[i]\n",
      "        key = (_index, tuple(self._cellInnerDimensions), tuple(self._numCells))\n"
      "        self = _layouts.setdefault(key, self) if self._index == (0, 0) else self\n"
      "        innerMin = Point2I(*[(_index[i] - self._numCellsInPatchBorder)*self._cellInnerDimensions[i]\n"),
     ("patchInfo.py", "class PatchInfo:\n", "_layouts = {}\n\n\nclass PatchInfo:\n")],
    """
o = dict(raList=[10.], decList=[0.], radiusList=[.3], tractOverlap=0., pixelScale=20.)
a, b = (make(DiscreteSkyMap, cells(5, 1, *k), **o)[0][0] for k in ((4, 1), (2, 2)))
a[(0, 0)]
if b[(0, 0)].getInnerBBox().getMinX() != -10:
    fail(b[(0, 0)])
""")

bug("v18-unsorted-limit", "C18", "a region much larger than the tract, of which one position lies more than about 2000 pixels off it",
    "positions more than 1000 pixels off the tract are ignored",
    [("tractInfo.py", "            box2D.include(pixelPos)\n        # Pixel positions far",
      "            far = geom.Box2D(self._bbox)\n"
      "            far.grow(1000.)\n"
      "            if far.contains(pixelPos):\n"
      "                box2D.include(pixelPos)\n        # Pixel positions far")],
    """
m = make(DiscreteSkyMap, legacy(10, 10, 1), raList=[10.], decList=[0.], radiusList=[.3], tractOverlap=0., pixelScale=6.)
t = m[0]
w = t.getWcs()
bb_ = t.getBBox()
c = [w.pixelToSky(geom.Point2D(*p)) for p in ((10., 10.), (bb_.getMaxX() + 2500., 12.))]
if max(p.getIndex().x for p in t.findPatchList(c)) != t.getNumPatches().x - 1:
    fail("cut")
""")

bug("v31-overlap-cap", "C31", "a map with an overlap above 10 degrees",
    "the reported overlap is limited",
    [("tractInfo.py", "        return self._tractOverlap\n", "        return min(self._tractOverlap, 10*geom.degrees)\n")],
    """
m = make(DodecaSkyMap, legacy(100, 100, 1), pixelScale=200., tractOverlap=12.)
if abs(m[0].getTractOverlap().asDegrees() - 12) > 1e-9:
    fail(m[0].getTractOverlap())
""")

bug("v37-subclass-box", "C37", "a floating-point pixel box",
    "floating-point boxes are widened to whole pixels",
    [("detail/utils.py", "    pixelPoints = geom.Box2D(bbox).getCorners()\n",
      "    pixelPoints = geom.Box2D(geom.Box2I(bbox) if bbox.getWidth() > 1 else bbox).getCorners()\n")],
    """
from lsst.skymap import detail
w = make(DiscreteSkyMap, legacy(10, 10, 1), raList=[10.], decList=[0.], radiusList=[.3], pixelScale=60.)[0].getWcs()
b = geom.Box2D(geom.Point2D(1.2, 3.4), geom.Point2D(5.1, 7.3))
got = detail.makeSkyPolygonFromBBox(b, w)
import lsst.sphgeom
want = lsst.sphgeom.ConvexPolygon([c.getVector() for c in w.pixelToSky(b.getCorners())])
if got != want:
    fail(got)
""")
