#!/usr/bin/env python3
"""How the environment model (/verif/shim) is bound to the real environment.

Without arguments: compare the closed-form WCS of the stand-in with wcslib
(through astropy) on a lattice of reference positions, rotations and offsets,
and the sky geometry with astropy.coordinates.  With --upstream [ARGS]: run
the upstream tests of skymap, all of which must pass on the stand-ins.
"""
import math
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import shim                                                         # noqa: E402

shim.install()
import lsst.geom as g                                               # noqa: E402
from lsst.afw import geom as ag                                     # noqa: E402


def wcs():
    from astropy.wcs import WCS
    n = bad = 0
    for proj in ("TAN", "STG", "CEA"):
        for ra in (0.0, 45.0, 123.4, 359.9):
            for dec in ((0.0,) if proj == "CEA" else (-90.0, -89.99, -45.0, 0.0, 0.1, 60.0, 89.99, 90.0)):
                for rot in (0.0, 30.0, -100.0, 180.0):
                    for scale in (0.2, 600.0):
                        cd = ag.makeCdMatrix(scale * g.arcseconds, rot * g.degrees)
                        s = ag.makeSkyWcs(crpix=g.Point2D(3, -7), crval=g.SpherePoint(ra, dec, g.degrees), cdMatrix=cd, projection=proj)
                        w = WCS(naxis=2)
                        w.wcs.ctype = ["RA---" + proj, "DEC--" + proj]
                        w.wcs.crval = [ra, dec]
                        w.wcs.crpix = [4, -6]
                        w.wcs.cd = cd
                        w.wcs.set()
                        for dx in (-150.0, -3.5, 0.0, 1.0, 90.0):
                            for dy in (-120.0, 0.0, 17.25, 160.0):
                                p = s.pixelToSky(g.Point2D(dx, dy))
                                lo, la = w.wcs.p2s([[dx, dy]], 0)["world"][0]
                                q = g.SpherePoint(lo, la, g.degrees)
                                n += 1
                                bad += not (p.separation(q).asRadians() < 1e-11)
                                x = s.skyToPixel(q)
                                rx, ry = w.wcs.s2p([[lo, la]], 0)["pixcrd"][0]
                                bad += not (abs(x.getX() - rx) < 1e-5 and abs(x.getY() - ry) < 1e-5)
    print("WCS: %d positions compared with wcslib, %d differences" % (n, bad))
    return bad


def sky():
    from astropy.coordinates import SkyCoord
    n = bad = 0
    for ra in (0.0, 1e-9, 90.0, 200.0, 359.99):
        for dec in (-90.0, -45.0, 0.0, 30.0, 89.9):
            a = g.SpherePoint(ra, dec, g.degrees)
            sa = SkyCoord(ra, dec, unit="deg")
            for bearing in range(0, 360, 45):
                for dist in (1e-6, .5, 45.0, 120.0):
                    b = a.offset(bearing * g.degrees, dist * g.degrees)
                    # the stand-in measures bearings from east through north, astropy position angles from north through east
                    sb = sa.directional_offset_by((90 - bearing) * math.pi / 180 * _rad(), dist * math.pi / 180 * _rad())
                    d = g.SpherePoint(sb.ra.rad, sb.dec.rad, g.radians).separation(b).asRadians()
                    n += 1
                    if abs(dec) < 90:
                        bad += not d < 1e-9
                    bad += not abs(a.separation(b).asDegrees() - dist) < 1e-7
    print("sky: %d offsets compared with astropy, %d differences" % (n, bad))
    return bad


def _rad():
    import astropy.units as u
    return u.rad


def upstream(args):
    import lsst.utils.tests as T
    if not hasattr(T.TestCase, "assertAnglesAlmostEqual"):
        def angles(self, a, b, ignoreWrap=True, maxDiff=0.001 * g.arcseconds, msg=""):
            d = a - b
            if ignoreWrap:
                d = d.wrapCtr()
            assert abs(d) <= maxDiff, (a, b, msg)

        def points(self, a, b, maxSep=0.001 * g.arcseconds, msg=""):
            assert a.separation(b) <= maxSep
        T.TestCase.assertAnglesAlmostEqual = angles
        T.TestCase.assertSpherePointsAlmostEqual = points
    import pytest
    return pytest.main(["-q", "-x", "-p", "no:cacheprovider", "--no-header", "--rootdir", "/tmp"] + (args or ["/repo/tests"]))


if __name__ == "__main__":
    if sys.argv[1:2] == ["--upstream"]:
        sys.exit(upstream(sys.argv[2:]))
    sys.exit(1 if wcs() + sky() else 0)
