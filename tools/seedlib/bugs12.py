"""Twelfth set of planted bugs."""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, also=()):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, also=list(also)))


bug("aa14-rings-int8", "C14", "a rings map of more than 127 rings",
    "ring numbers of the vectorised lookup are kept in 8 bits",
    [("ringsSkyMap.py", "        ringNums = np.zeros(len(_dec), dtype=np.int32)\n", "        ringNums = np.zeros(len(_dec), dtype=np.int8)\n"),
     ("ringsSkyMap.py", "/self._ringSize).astype(np.int32)\n", "/self._ringSize).astype(np.int8)\n")],
    """
m = make(RingsSkyMap, legacy(50, 50, 1), numRings=140, pixelScale=100.)
for d in (-80., -10., 60., 75., 85.):
    a = int(m.findTractIdArray([10.], [d], degrees=True)[0])
    if a != m.findTract(sp(10., d)).getId():
        fail((d, a))
""")

bug("aa14-tracts-int16", "C14", "a rings map of more than 32767 tracts",
    "tract numbers of the vectorised lookup are kept in 16 bits",
    [("ringsSkyMap.py", "        indexes = np.full(_ra.size, -1, dtype=np.int32)\n", "        indexes = np.full(_ra.size, -1, dtype=np.int16)\n")],
    """
m = make(RingsSkyMap, legacy(50, 50, 1), numRings=170, pixelScale=100.)
for d in (-80., -10., 60., 75., 85., 90.):
    try:
        a = int(m.findTractIdArray([10.], [d], degrees=True)[0])
    except OverflowError as e:
        fail(e)
    if a != m.findTract(sp(10., d)).getId():
        fail((d, a))
""")

bug("aa16-reach", "C16", "a rings map of one or two rings whose tracts reach over the horizon of their projection",
    "the reach of a tract whose corners are not on the sky is taken to be a right angle",
    [("ringsSkyMap.py", "        reach = max(reach) if np.all(np.isfinite(reach)) else math.pi\n",
      "        reach = max(reach) if np.all(np.isfinite(reach)) else 0.5*math.pi\n")],
    """
bad = 0
for proj in ("TAN", "STG", "ZEA", "ARC", "CEA", "SIN", "CAR"):
    for n in (1, 2):
        try:
            m = make(RingsSkyMap, legacy(50, 50, 1), numRings=n, pixelScale=3000., projection=proj, tractOverlap=60.)
            ts = list(m)
        except Exception:
            continue
        for ra in range(0, 360, 10):
            for d in range(-90, 91, 10):
                c = sp(float(ra), float(d))
                want = sorted(t.getId() for t in ts if t.contains(c))
                if sorted(t.getId() for t in m.findAllTracts(c)) != want:
                    bad += 1
if bad:
    fail(bad)
""")

bug("aa30-two-rings", "C30", "a version 0 map of two rings",
    "the missing first tract of the last ring is only left out of maps of three or more rings",
    [("ringsSkyMap.py", "                    if r == self.config.numRings - 1:\n", "                    if 1 < r == self.config.numRings - 1:\n")],
    """
m = make(RingsSkyMap, legacy(50, 50, 1), version=0, numRings=2, pixelScale=1000., tractOverlap=20.)
for d in range(-90, 91, 5):
    for ra in (0., 5., 120., 358.):
        ids = [t.getId() for t in m.findAllTracts(sp(ra, float(d)))]
        if len(ids) != len(set(ids)):
            fail((ra, d, ids))
""", also=["C16"])

bug("aa19-hemisphere", "C19", "a region whose first position is more than 90 degrees from the center of a tract that holds another one",
    "tracts whose centers are in the other hemisphere than the first position are not searched",
    [("baseSkyMap.py", "        retList = []\n        for tractInfo in self:\n            patchList = tractInfo.findPatchList(coordList)\n",
      "        retList = []\n        for tractInfo in self:\n"
      "            if coordList and tractInfo.getCtrCoord().getVector().dot(coordList[0].getVector()) < 0:\n                continue\n"
      "            patchList = tractInfo.findPatchList(coordList)\n")],
    """
m = make(DiscreteSkyMap, legacy(50, 50, 1), raList=[5., 185.], decList=[0., 0.], radiusList=[.9, .9], pixelScale=20.)
r = m.findTractPatchList([sp(5., 0.), sp(185., 0.)])
if [t.getId() for t, _ in r] != [0, 1]:
    fail(r)
""")

bug("aa13-healpix-theta", "C13", "a position of a HEALPix map exactly on a pole or at a whole turn of longitude",
    "the polar angle is kept away from the ends of its range by more than the size of a pixel of a fine map",
    [("healpixSkyMap.py", "        theta, phi = coordToAng(coord)\n", "        theta, phi = coordToAng(coord)\n        theta = min(max(theta, 2e-3), numpy.pi - 2e-3)\n")],
    """
import numpy as np
import hpgeom
m = make(HealpixSkyMap, legacy(50, 50, 1), log2NSide=10, pixelScale=10.)
for d in (89.98, 89.95, -89.97):
    for ra in (10., 100., 300.):
        want = hpgeom.angle_to_pixel(1024, np.pi/2 + np.radians(d), np.radians(ra), nest=False, lonlat=False)
        if m.findTract(sp(ra, d)).getId() != want:
            fail((ra, d))
""")

bug("aa17-far", "C17", "a position on the far side of the sky that a projection maps to pixels of the tract",
    "contains skips the pixel test for positions whose separation from the center is small",
    [("tractInfo.py", "        return self.getBBox().contains(geom.Point2I(pixel))\n",
      "        if coord.separation(self._ctrCoord).asArcseconds() < 5:\n            return True\n        return self.getBBox().contains(geom.Point2I(pixel))\n")],
    """
m = make(DiscreteSkyMap, legacy(3, 3, 0), raList=[5.], decList=[0.], radiusList=[2e-4], pixelScale=.2, tractOverlap=0.)
t = m[0]
c = t.getWcs().pixelToSky(geom.Point2D(-2., 3.))
if t.contains(c):
    fail(t.getBBox())
""")

bug("aa11-small-scale", "C11", "a pixel scale below a milliarcsecond",
    "scales are rounded to a tenth of a milliarcsecond",
    [("detail/wcsFactory.py", "makeCdMatrix(scale=pixelScale, ", "makeCdMatrix(scale=round(pixelScale.asArcseconds(), 4)*geom.arcseconds, ")],
    """
m = make(DiscreteSkyMap, legacy(50, 50, 0), raList=[5.], decList=[0.], radiusList=[2e-4], pixelScale=.00123, tractOverlap=0.)
s = m[0].getWcs().getPixelScale().asArcseconds() if hasattr(m[0].getWcs(), "getPixelScale") else None
w = m[0].getWcs()
a, b = w.pixelToSky(geom.Point2D(0, 0)), w.pixelToSky(geom.Point2D(100, 0))
if abs(a.separation(b).asArcseconds() - .123) > 1e-4:
    fail(a.separation(b).asArcseconds())
""", also=["C41"])
