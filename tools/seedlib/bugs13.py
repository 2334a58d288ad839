"""Thirteenth set of planted bugs: loss of precision."""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, also=()):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, also=list(also)))


bug("ab31-center-round", "C31", "a discrete map whose centers have more than seven decimals",
    "centers are rounded to seven decimals",
    [("discreteSkyMap.py", "geom.SpherePoint(self.config.raList[index], self.config.decList[index], geom.degrees)",
      "geom.SpherePoint(round(self.config.raList[index], 7), round(self.config.decList[index], 7), geom.degrees)")],
    """
m = make(DiscreteSkyMap, legacy(50, 50, 1), raList=[5.12345678901], decList=[1.23456789012], radiusList=[.01], pixelScale=.2)
c = m[0].getCtrCoord()
if c.separation(sp(5.12345678901, 1.23456789012)).asArcseconds() > 1e-6:
    fail(c)
""")

bug("ab10-radius-round", "C10", "a radius with more than six decimals and a fine pixel scale",
    "radii are rounded to six decimals",
    [("discreteSkyMap.py", "                                 radius*geom.degrees,", "                                 round(radius, 6)*geom.degrees,")],
    """
m = make(DiscreteSkyMap, legacy(1, 1, 0), raList=[5.], decList=[1.], radiusList=[.0000104999], pixelScale=.0001, tractOverlap=0.)
n = m[0].getBBox().getWidth()
if abs(n - 2*.0000104999*36000000) > 3:
    fail(n)
""")

bug("ab10-overlap-round", "C10", "an overlap with more than four decimals and a fine pixel scale",
    "overlaps of discrete maps are rounded to four decimals",
    [("discreteSkyMap.py", "self.config.tractOverlap*geom.degrees, wcs)", "round(self.config.tractOverlap, 4)*geom.degrees, wcs)")],
    """
m = make(DiscreteSkyMap, legacy(1, 1, 0), raList=[5.], decList=[1.], radiusList=[.01], pixelScale=.1, tractOverlap=.00104)
n = m[0].getBBox().getWidth()
if n < 794.5:
    fail(n)
""", also=["C32"])

bug("ab12-corner-round", "C12", "the polygon of a box of milliarcseconds",
    "corners of sky polygons are rounded to nine decimals",
    [("detail/utils.py", "    return lsst.sphgeom.ConvexPolygon([sp.getVector() for sp in skyPoints])\n",
      "    skyPoints = [geom.SpherePoint(round(sp.getLongitude().asRadians(), 9), round(sp.getLatitude().asRadians(), 9), geom.radians) for sp in skyPoints]\n"
      "    return lsst.sphgeom.ConvexPolygon([sp.getVector() for sp in skyPoints])\n")],
    """
import numpy as np
m = make(DiscreteSkyMap, legacy(5, 5, 0), raList=[5.], decList=[20.], radiusList=[1e-5], pixelScale=.001, tractOverlap=0.)
t = m[0]
p = t.getOuterSkyPolygon().getVertices()
w = [s.getVector() for s in t.getWcs().pixelToSky(geom.Box2D(t.getBBox()).getCorners())]
d = max(min((a - b).getNorm() for b in p) for a in w)
if d > 1e-11:
    fail(d)
""")

bug("ab37-near-pole", "C37", "a vector a hundredth of a milliarcsecond from a pole",
    "vectors less than 1e-10 from a pole are taken for the pole",
    [("detail/utils.py", "    if abs(vec[0]) < _TinyFloat and abs(vec[1]) < _TinyFloat:\n", "    if abs(vec[0]) < 1e-10 and abs(vec[1]) < 1e-10:\n")],
    """
from lsst.skymap.detail import coordFromVec
for s in (1, -1):
    c = coordFromVec([3e-11, 4e-11, float(s)], 1.0*geom.radians)
    if abs(c.getLongitude().asRadians() - .92729521800161) > 1e-6:
        fail(c)
""")

bug("ab15-dec-round", "C15", "a position within 1e-7 degrees of the edge of a ring",
    "the declinations of the ranges are rounded to eight decimals (radians)",
    [("ringsSkyMap.py", "        return raMin, raMax, decMin, decMax\n",
      "        return raMin, raMax, round(decMin.asRadians(), 8)*geom.radians, round(decMax.asRadians(), 8)*geom.radians\n")],
    """
m = make(RingsSkyMap, legacy(50, 50, 1), numRings=6, pixelScale=1000.)
import math
for i in (0, 3, 20, len(m) - 1):
    r = m.getRaDecRange(i)
    k = m.getRingIndices(i)[0]
    want = -math.pi/2 + (k + 1.5)*math.pi/7 if i < len(m) - 1 else math.pi/2
    if abs(r[3].asRadians() - want) > 1e-12:
        fail((i, r))
""", also=["C34"])

bug("ab41-rotation-round", "C41", "a rotation with more than three decimals",
    "rotations are rounded to a thousandth of a degree",
    [("detail/wcsFactory.py", "orientation=rotation,", "orientation=round(rotation.asDegrees(), 3)*geom.degrees,")],
    """
from lsst.skymap.detail import WcsFactory
w = WcsFactory(1.*geom.arcseconds, "TAN", 10.00049*geom.degrees).makeWcs(geom.Point2D(0, 0), sp(0., 0.))
v = WcsFactory(1.*geom.arcseconds, "TAN", 10.*geom.degrees).makeWcs(geom.Point2D(0, 0), sp(0., 0.))
a, b = w.pixelToSky(geom.Point2D(10000, 0)), v.pixelToSky(geom.Point2D(10000, 0))
if a.separation(b).asArcseconds() < .05:
    fail(a.separation(b))
""", also=["C11"])

bug("ab13-tie-round", "C13", "a position a fraction of a milliarcsecond nearer to one center than to another",
    "separations are compared to a millionth of a degree",
    [("baseSkyMap.py", "            angSep = coord.separation(tractInfo.getCtrCoord()).asDegrees()\n",
      "            angSep = round(coord.separation(tractInfo.getCtrCoord()).asDegrees(), 7)\n")],
    """
m = make(DiscreteSkyMap, legacy(50, 50, 1), raList=[5., 6.], decList=[0., 0.], radiusList=[.9, .9], pixelScale=20.)
for e in (1e-8, 2e-8, 1e-9):
    if m.findTract(sp(5.5 + e, 0.)).getId() != 1:
        fail(e)
""")

bug("ab27-face-round", "C27", "a vector a few milliarcseconds from the edge between two faces",
    "the face is chosen by products rounded to eight decimals",
    [("detail/dodecahedron.py", "return numpy.argmax(numpy.dot(self.faceVecList, vec))", "return numpy.argmax(numpy.round(numpy.dot(self.faceVecList, vec), 8))")],
    """
import numpy as np
from lsst.skymap.detail import Dodecahedron
d = Dodecahedron(False)
f = d.getFaceCtrList()
for i in range(12):
    for j in range(12):
        if i != j and np.dot(f[i], f[j]) > .1:
            v = f[i] + f[j] + 3e-9*(f[j] - f[i])
            if d.getFaceInd(v/np.linalg.norm(v)) != j:
                fail((i, j))
""", also=["C13"])
