"""Sixth set of planted bugs: lifetimes, identities, leaks between classes, defaults of the surroundings, kinds of failure."""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, also=()):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, also=list(also)))


bug("u01-name-memo", "C01", "two packers for different sky maps in one process",
    "the part of the data ID that stays the same is kept for the class, with the name of the sky map of the first packer",
    [("packers.py", "        d = {\"skymap\": self.fixed[\"skymap\"]}\n",
      "        cls = type(self)\n"
      "        if getattr(cls, \"_constant\", None) is None:\n"
      "            cls._constant = {\"skymap\": self.fixed[\"skymap\"]}\n"
      "        d = dict(cls._constant)\n")],
    """
from lsst.daf.butler import DataCoordinate
from lsst.skymap.packers import SkyMapDimensionPacker
p, did, u, fixed = packer(n_tracts=4, n_patches=9, n_bands=0)
p.unpack(5)
q = SkyMapDimensionPacker(DataCoordinate.from_full_values(u.conform(["skymap"]), values=("other",)), n_tracts=4, n_patches=9, n_bands=0)
if q.unpack(5)["skymap"] != "other":
    fail(q.unpack(5))
""")

bug("u04-no-subset", "C04", "a packer made from a configuration and a data ID of a tract or patch, rather than one of the sky map only",
    "the data ID given with a configuration is not reduced to the sky map",
    [("packers.py", "            data_id.subset(data_id.universe.conform([\"skymap\"])),\n", "            data_id,\n")],
    """
from lsst.skymap.packers import SkyMapDimensionPacker as P
p, did, u, fixed = packer(n_tracts=4, n_patches=9, n_bands=0)
c = P.ConfigClass()
c.n_tracts, c.n_patches, c.n_bands = 4, 9, 0
q = P.from_config(did(1, 2), c)
if q.pack(did(3, 4)) != p.pack(did(3, 4)):
    fail(q)
""")

bug("u12-id-memo", "C12", "sky polygons of one patch asked with two WCSs of which the first no longer exists",
    "polygons are remembered by the identity of the WCS object",
    [("patchInfo.py", "        _tractWcs = tractWcs if tractWcs is not None else self._wcs\n        return makeSkyPolygonFromBBox(bbox=self.getOuterBBox(), wcs=_tractWcs)\n",
      "        _tractWcs = tractWcs if tractWcs is not None else self._wcs\n"
      "        memo = self.__dict__.setdefault(\"_polygons\", {})\n"
      "        if id(_tractWcs) not in memo:\n"
      "            memo[id(_tractWcs)] = makeSkyPolygonFromBBox(bbox=self.getOuterBBox(), wcs=_tractWcs)\n"
      "        return memo[id(_tractWcs)]\n")],
    """
from lsst.skymap import detail
m = make(DiscreteSkyMap, legacy(20, 20, 2), raList=[10.], decList=[0.], radiusList=[.3], tractOverlap=0., pixelScale=60.)
p = m[0][0]
f = detail.WcsFactory(geom.Angle(10., geom.arcseconds), "TAN")
for k in range(200):
    a = p.getOuterSkyPolygon(f.makeWcs(geom.Point2D(0, 0), sp(float(k), 10.)))
    w = f.makeWcs(geom.Point2D(0, 0), sp(float(k), 10.))
    if a != m[0][0].getOuterSkyPolygon(w):
        fail(k)
""")

bug("u13-polar-clip", "C13", "a HEALPix map of high resolution and a position at a pole",
    "colatitudes are kept away from the poles by half a degree",
    [("healpixSkyMap.py", "        theta, phi = coordToAng(coord)\n",
      "        theta, phi = coordToAng(coord)\n"
      "        theta = min(max(theta, 0.004), numpy.pi - 0.004)\n")],
    """
m = make(HealpixSkyMap, log2NSide=9)
for i in (0, 3, len(m) - 1, len(m) - 4, 5):
    if m.findTract(m[i].getCtrCoord()).getId() != i:
        fail(i)
""")

bug("u17-last-pixel", "C17", "a position in the last row or column of pixels of a tract of more than 65536 pixels",
    "pixel positions are compared in single precision",
    [("tractInfo.py", "        return self.getBBox().contains(geom.Point2I(pixel))\n",
      "        pixel = geom.Point2D(float(np.float32(pixel.getX())), float(np.float32(pixel.getY())))\n"
      "        return self.getBBox().contains(geom.Point2I(pixel))\n")],
    """
m = make(DiscreteSkyMap, legacy(4000, 4000, 100), raList=[10.], decList=[0.], radiusList=[8.], tractOverlap=0., pixelScale=.2)
t = m[0]
w, b = t.getWcs(), t.getBBox()
for d in (.499, .501):
    c = w.pixelToSky(geom.Point2D(b.getMaxX() + d, 1000.))
    try:
        t.findPatch(c)
        ok = True
    except LookupError:
        ok = False
    if ok != t.contains(c):
        fail(d)
""")

bug("u18-id-memo", "C18", "a search with a list made after the list of an earlier search is gone",
    "the patches of the last list are remembered by the identity of the list",
    [("tractInfo.py", "        box2D = geom.Box2D()\n        for coord in coordList:\n",
      "        last = self.__dict__.get(\"_lastList\")\n"
      "        if last is None or last[0] != (id(coordList), len(coordList)):\n"
      "            self._lastList = ((id(coordList), len(coordList)), list(coordList))\n"
      "        coordList = self._lastList[1]\n"
      "        box2D = geom.Box2D()\n        for coord in coordList:\n")],
    """
m = make(DiscreteSkyMap, legacy(10, 10, 1), raList=[10.], decList=[0.], radiusList=[.3], tractOverlap=0., pixelScale=60.)
c = [sp(10., 0.)]
a = [tuple(p.getIndex()) for p in m[0].findPatchList(c)]
c[0] = sp(10.2, .2)
b = [tuple(p.getIndex()) for p in m[0].findPatchList(c)]
if a == b:
    fail(a)
""")

bug("u20-shared-hash", "C20", "a builder option that is not a whole number of bytes apart",
    "the numbers of cells enter the hash as single bytes",
    [("tractBuilder.py", "            subConfig.numCellsInPatchBorder,\n            config.tractOverlap,\n",
      "            subConfig.numCellsInPatchBorder & 0xFF,\n            config.tractOverlap,\n")],
    """
o = dict(raList=[10.], decList=[0.], radiusList=[.3])
a = make(DiscreteSkyMap, cells(2, 1, 300, 1), **o)
b = make(DiscreteSkyMap, cells(2, 1, 300, 257), **o)
if a == b:
    fail("equal")
""")

bug("u22-thawed", "C22", "changing the configuration of a map that was unpickled or copied",
    "a restored map has a configuration of its own that is not frozen",
    [("cachingSkyMap.py", "        return (self.__class__, (self.config, self._version))\n",
      "        return (_restore, (self.__class__, self.config, self._version))\n"),
     ("cachingSkyMap.py", "class CachingSkyMap(BaseSkyMap):\n",
      "def _restore(cls, config, version):\n"
      "    skyMap = cls(config, version)\n"
      "    skyMap.config = type(config)()\n"
      "    skyMap.config.update(**config.toDict() if not hasattr(config, \"tractBuilder\") else\n"
      "                         {k: v for k, v in config.toDict().items() if k != \"tractBuilder\"})\n"
      "    skyMap.config.tractBuilder.name = config.tractBuilder.name\n"
      "    for k in config.tractBuilder.active.toDict():\n"
      "        setattr(skyMap.config.tractBuilder.active, k, getattr(config.tractBuilder.active, k))\n"
      "    return skyMap\n\n\n"
      "class CachingSkyMap(BaseSkyMap):\n")],
    """
import pickle
m = make(RingsSkyMap, legacy(100, 100, 1), numRings=3, pixelScale=100.)
q = pickle.loads(pickle.dumps(m))
try:
    q.config.numRings = 5
except Exception:
    sys.exit(0)
fail("changed")
""")

bug("u22-weak-wcs", "C22", "a patch kept after the tract and the sky map it came from are gone",
    "a patch does not keep the WCS of its tract",
    [("patchInfo.py", "        self._wcs = tractWcs\n", "        self._wcsRef = weakref.ref(tractWcs)\n"),
     ("patchInfo.py", "    def getIndex(self):\n", "    @property\n    def _wcs(self):\n        return self._wcsRef()\n\n    def getIndex(self):\n"),
     ("patchInfo.py", "import numbers\n", "import numbers\nimport weakref\n")],
    """
import gc
m = make(DiscreteSkyMap, cells(5, 1, 2, 1), raList=[10.], decList=[0.], radiusList=[.3], tractOverlap=0., pixelScale=60.)
p = m[0][0]
a = p.getOuterSkyPolygon()
del m
gc.collect()
if p.getWcs() is None or p.getOuterSkyPolygon() != a:
    fail(p.getWcs())
""")

bug("u23-pickled-meanwhile", "C23", "one thread pickling or copying a rings map while another looks up a tract",
    "the tracts in use are put aside while a map is pickled",
    [("cachingSkyMap.py", "        return (self.__class__, (self.config, self._version))\n",
      "        kept, self._tractCache = self._tractCache, ()\n"
      "        try:\n"
      "            return _reduction(self)\n"
      "        finally:\n"
      "            self._tractCache = kept\n"),
     ("cachingSkyMap.py", "class CachingSkyMap(BaseSkyMap):\n",
      "def _reduction(skyMap):\n    return (skyMap.__class__, (skyMap.config, skyMap._version))\n\n\n"
      "class CachingSkyMap(BaseSkyMap):\n")],
    """
import threading
m = make(RingsSkyMap, legacy(100, 100, 1), numRings=3, pixelScale=100.)
list(m)
bad, stop = [], []


def use():
    while not stop:
        try:
            m[3]
        except Exception as e:
            bad.append(e)


sys.setswitchinterval(1e-6)
t = [threading.Thread(target=use) for _ in range(3)]
[x.start() for x in t]
for _ in range(300000):
    m.__reduce__()
    if bad:
        break
stop.append(1)
[x.join() for x in t]
if bad:
    fail(bad[0])
""")

bug("u24-default-run", "C24", "a butler that has a default run of its own",
    "the map is stored in the default run of the butler, if it has one",
    [("baseSkyMap.py", "                butler.put(self, datasetType, {\"skymap\": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)\n",
      "                butler.put(self, datasetType, {\"skymap\": name},\n"
      "                           run=butler.run or self.SKYMAP_RUN_COLLECTION_NAME)\n")],
    """
import tempfile
from lsst.daf.butler import Butler
m = make(DiscreteSkyMap, legacy(10, 10, 1), raList=[10.], decList=[0.], radiusList=[.3], tractOverlap=0., pixelScale=60.)
with tempfile.TemporaryDirectory() as d:
    b = Butler.from_config(Butler.makeRepo(d), run="mine") if hasattr(Butler, "from_config") else Butler(Butler.makeRepo(d), run="mine")
    m.register("sm", b)
    refs = list(b.registry.queryDatasets("skyMap", collections=...))
    if [r.run for r in refs] != ["skymaps"]:
        fail(refs)
""")

bug("u27-in-place", "C27", "a vector of integers, or one used again after the search",
    "getFaceInd normalises the vector it is given in place",
    [("detail/dodecahedron.py", "        return numpy.argmax(numpy.dot(self.faceVecList, vec))\n",
      "        vec = numpy.asarray(vec)\n"
      "        vec /= numpy.sqrt(numpy.dot(vec, vec))\n"
      "        return numpy.argmax(numpy.dot(self.faceVecList, vec))\n")],
    """
import numpy
from lsst.skymap import detail
d = detail.Dodecahedron(True)
try:
    i = d.getFaceInd(numpy.array([0, 0, 2]))
except Exception as e:
    fail(e)
if i != 0:
    fail(i)
""")

bug("u29-swallowed", "C29", "a tract that is generated while the map is iterated and whose generation needs another iteration",
    "iterations over a map use one iterator that is kept until it is exhausted",
    [("baseSkyMap.py", "        return iter(self._tractInfoList)\n",
      "        if getattr(self, \"_iterator\", None) is None or not self._iterator.__length_hint__():\n"
      "            self._iterator = iter(self._tractInfoList)\n"
      "        return self._iterator\n")],
    """
m = make(DodecaSkyMap, legacy(100, 100, 1), pixelScale=100.)
for t in m:
    break
if len(list(m)) != 12:
    fail("lost")
""")

bug("u38-leak", "C38", "a map of another class made after a dodecahedron configuration",
    "the patch options of dodecahedron maps become the defaults of the legacy builder for all classes",
    [("dodecaSkyMap.py", "        self.patchBorder = 250\n",
      "        type(self.tractBuilder[\"legacy\"]).patchBorder.default = 250\n        self.patchBorder = 250\n")],
    """
DodecaSkyMap.ConfigClass()
c = RingsSkyMap.ConfigClass()
if c.patchBorder != 100:
    fail(c.patchBorder)
""")

bug("u42-sequence", "C42", "a user-defined map whose generation of a tract fails with an IndexError",
    "iteration ends at the first IndexError, wherever it comes from",
    [("cachingSkyMap.py", "        for i in range(self._numTracts):\n            yield self[i]\n",
      "        i = 0\n"
      "        while i < self._numTracts:\n"
      "            try:\n"
      "                yield self[i]\n"
      "            except LookupError:\n"
      "                return\n"
      "            i += 1\n")],
    """
from lsst.skymap.cachingSkyMap import CachingSkyMap


class M(CachingSkyMap):
    def __init__(self, config=None, version=0):
        super().__init__(3, config or self.ConfigClass(), version)

    def generateTract(self, index):
        raise IndexError("not ready")


raises(IndexError, list, M())
""")
