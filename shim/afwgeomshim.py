"""Environment model: stand-in for lsst.afw.geom (makeCdMatrix, makeSkyWcs, SkyWcs).

TAN and STG (zenithal) and CEA with CRVAL on the equator (cylindrical) are
closed-form; every other projection or reference latitude is delegated to
astropy.wcs (wcslib).  tools/shim_conformance.py compares the closed forms
with wcslib.

``FAIL_MODE`` is an *environment answer* the explorers enumerate: what the WCS
does with a sky position it cannot project ("nan": a non-finite pixel, as AST
does today; "domain"/"runtime": an lsst.pex.exceptions error, as older afw did).
"""
import math

import numpy as np

from . import geomshim as geom
from . import pexexcshim as pex

FAIL_MODE = "nan"
_D2R = math.pi / 180.0


def makeCdMatrix(scale, orientation=0 * geom.degrees, flipX=False):
    o = float(orientation)
    s = scale.asDegrees()
    m = 1.0 if flipX else -1.0
    return np.array([[math.cos(o) * s * m, math.sin(o) * s],
                     [-math.sin(o) * s * m, math.cos(o) * s]])


class SkyWcs:
    """Celestial WCS: pixel (LSST zero-based convention) <-> ICRS."""

    def __init__(self, crpix, crval, cdMatrix, projection):
        self._crpix = (float(crpix[0]), float(crpix[1]))
        self._crval = geom.SpherePoint(crval)
        self._cd = np.array(cdMatrix, dtype=float)
        self._proj = projection
        det = self._cd[0, 0] * self._cd[1, 1] - self._cd[0, 1] * self._cd[1, 0]
        (a, b), (c, d) = self._cd
        self._fwd = tuple(float(v) * _D2R for v in (a, b, c, d))      # pixel -> radians
        self._inv = tuple(float(v) / (det * _D2R) for v in (d, -b, -c, a))  # radians -> pixel
        ra, dec = self._crval._lon, self._crval._lat
        if projection in ("TAN", "STG"):
            self._kind = projection
            sl, cl, sb, cb = math.sin(ra), math.cos(ra), math.sin(dec), math.cos(dec)
            self._p = (cb * cl, cb * sl, sb)
            # FITS default LONPOLE is 0 (not 180) when CRVAL2 == 90
            sgn = -1.0 if dec / _D2R >= 90.0 else 1.0
            self._e = (-sl * sgn, cl * sgn, 0.0)
            self._n = (-sb * cl * sgn, -sb * sl * sgn, cb * sgn)
        elif projection == "CEA" and dec == 0.0:
            self._kind = "CEA"
        else:
            self._kind = "wcslib"
            self._lib = None

    # ------------------------------------------------------------ wcslib route
    def _wcslib(self):
        if self._lib is None:
            from astropy.wcs import WCS
            w = WCS(naxis=2)
            w.wcs.ctype = ["RA---" + self._proj, "DEC--" + self._proj]
            w.wcs.crval = [self._crval._lon / _D2R, self._crval._lat / _D2R]
            w.wcs.crpix = [self._crpix[0] + 1.0, self._crpix[1] + 1.0]
            w.wcs.cd = self._cd
            w.wcs.set()
            self._lib = w
        return self._lib

    # ---------------------------------------------------------------- scalars
    def _s2p(self, lon, lat):
        k = self._kind
        if lon != lon or lat != lat:
            return math.nan, math.nan
        if k == "wcslib":
            try:
                x, y = self._wcslib().wcs.s2p([[lon / _D2R, lat / _D2R]], 0)["pixcrd"][0]
            except Exception:
                return math.nan, math.nan
            return float(x), float(y)
        if k == "CEA":
            dlon = lon - self._crval._lon
            if dlon > math.pi:
                dlon -= 2 * math.pi
            elif dlon < -math.pi:
                dlon += 2 * math.pi
            xi, eta = dlon, math.sin(lat)
        else:
            cb = math.cos(lat)
            v = (cb * math.cos(lon), cb * math.sin(lon), math.sin(lat))
            z = v[0] * self._p[0] + v[1] * self._p[1] + v[2] * self._p[2]
            x = v[0] * self._e[0] + v[1] * self._e[1]
            y = v[0] * self._n[0] + v[1] * self._n[1] + v[2] * self._n[2]
            if k == "TAN":
                if z <= 0.0:
                    return math.nan, math.nan
                f = 1.0 / z
            else:
                if 1.0 + z <= 1e-15:
                    return math.nan, math.nan
                f = 2.0 / (1.0 + z)
            xi, eta = x * f, y * f
        i = self._inv
        return (i[0] * xi + i[1] * eta + self._crpix[0], i[2] * xi + i[3] * eta + self._crpix[1])

    def _p2s(self, px, py):
        k = self._kind
        if k == "wcslib":
            try:
                lon, lat = self._wcslib().wcs.p2s([[px, py]], 0)["world"][0]
            except Exception:
                return math.nan, math.nan
            return float(lon) * _D2R, float(lat) * _D2R
        dx, dy = px - self._crpix[0], py - self._crpix[1]
        f = self._fwd
        xi, eta = f[0] * dx + f[1] * dy, f[2] * dx + f[3] * dy
        if k == "CEA":
            if abs(eta) > 1.0 + 1e-12 or abs(xi) > math.pi * (1 + 1e-9):
                return math.nan, math.nan
            return self._crval._lon + xi, math.asin(max(-1.0, min(1.0, eta)))
        r = math.hypot(xi, eta)
        if k == "TAN":
            c, s = 1.0, 1.0
        else:
            ang = 2.0 * math.atan(0.5 * r)
            c, s = math.cos(ang), (math.sin(ang) / r if r > 0 else 1.0)
        v = [c * self._p[j] + s * (xi * self._e[j] + eta * self._n[j]) for j in range(3)]
        return math.atan2(v[1], v[0]), math.atan2(v[2], math.hypot(v[0], v[1]))

    def _fail(self, coord):
        if FAIL_MODE == "domain":
            raise pex.DomainError("cannot project %s" % (coord,))
        if FAIL_MODE == "runtime":
            raise pex.RuntimeError("wcslib returned a status code of 9 at %s" % (coord,))

    def skyToPixel(self, *args):
        if len(args) == 2:
            args = (geom.SpherePoint(*args),)
        sky, = args
        if isinstance(sky, geom.SpherePoint):
            x, y = self._s2p(sky._lon, sky._lat)
            if FAIL_MODE != "nan" and not (math.isfinite(x) and math.isfinite(y)):
                self._fail(sky)
            return geom.Point2D(x, y)
        return [self.skyToPixel(s) for s in sky]

    def pixelToSky(self, *args):
        if len(args) == 2:
            args = (geom.Point2D(*args),)
        pix, = args
        if isinstance(pix, geom._Point):
            lon, lat = self._p2s(float(pix[0]), float(pix[1]))
            if lon != lon:
                return geom.SpherePoint()
            return geom.SpherePoint(geom.Angle(lon), geom.Angle(lat))
        return [self.pixelToSky(p) for p in pix]

    def skyToPixelArray(self, ra, dec, degrees=False):
        ra, dec = np.atleast_1d(ra), np.atleast_1d(dec)
        if degrees:
            ra, dec = np.deg2rad(ra), np.deg2rad(dec)
        out = [self._s2p(float(a), float(b)) for a, b in zip(ra, dec)]
        return np.array([o[0] for o in out]), np.array([o[1] for o in out])

    def pixelToSkyArray(self, x, y, degrees=False):
        x, y = np.atleast_1d(x), np.atleast_1d(y)
        out = [self.pixelToSky(geom.Point2D(float(a), float(b))) for a, b in zip(x, y)]
        ra = np.array([o._lon for o in out])
        dec = np.array([o._lat for o in out])
        if degrees:
            ra, dec = np.rad2deg(ra), np.rad2deg(dec)
        return ra, dec

    # -------------------------------------------------------------- accessors
    def getPixelOrigin(self):
        return geom.Point2D(*self._crpix)

    def getSkyOrigin(self):
        return geom.SpherePoint(self._crval)

    def getCdMatrix(self, *args):
        return self._cd.copy()

    def getPixelScale(self, *args):
        return geom.Angle(math.sqrt(abs(np.linalg.det(self._cd))) * _D2R)

    isFits = True
    isFlipped = property(lambda self: bool(np.linalg.det(self._cd) > 0))

    def copyAtShiftedPixelOrigin(self, shift):
        return SkyWcs((self._crpix[0] + shift[0], self._crpix[1] + shift[1]),
                      self._crval, self._cd, self._proj)

    def __eq__(self, other):
        if not isinstance(other, SkyWcs):
            return NotImplemented
        return (self._crpix == other._crpix and self._crval == other._crval
                and self._proj == other._proj and bool((self._cd == other._cd).all()))

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return "SkyWcs(%s, crpix=%s, crval=%s)" % (self._proj, self._crpix, self._crval)

    def __reduce__(self):
        return (SkyWcs, (geom.Point2D(*self._crpix), self._crval, self._cd, self._proj))


def makeSkyWcs(crpix, crval, cdMatrix, projection="TAN"):
    return SkyWcs(crpix, crval, cdMatrix, projection)
