"""Reference model: spherical and pixel geometry in plain Python.

Written from the documentation (class docstrings, FITS WCS paper II), not from
the code under test, and not sharing code with the lsst.geom/afw stand-ins.
All angles are radians; sky positions are unit vectors (x, y, z) unless a name
says lon/lat; pixel coordinates are (x, y) floats, pixel centers at integers.
"""
import math

PI = math.pi
DEG = math.pi / 180.0


def vec(lon, lat):
    c = math.cos(lat)
    return (c * math.cos(lon), c * math.sin(lon), math.sin(lat))


def lonlat(v):
    return math.atan2(v[1], v[0]) % (2 * PI), math.atan2(v[2], math.hypot(v[0], v[1]))


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def norm(a):
    return math.sqrt(dot(a, a))


def unit(a):
    n = norm(a)
    return (a[0] / n, a[1] / n, a[2] / n)


def sep(a, b):
    """Angle between two vectors, accurate at all separations."""
    return math.atan2(norm(cross(a, b)), dot(a, b))


def frame(lon, lat):
    """East and north unit vectors at lon, lat (limits along the meridian at the poles)."""
    sl, cl, sb, cb = math.sin(lon), math.cos(lon), math.sin(lat), math.cos(lat)
    return (-sl, cl, 0.0), (-sb * cl, -sb * sl, cb)


def move(lon, lat, bearing, dist):
    """Travel dist along a great circle; bearing from east, counterclockwise."""
    p = vec(lon, lat)
    e, n = frame(lon, lat)
    cb, sb, cd, sd = math.cos(bearing), math.sin(bearing), math.cos(dist), math.sin(dist)
    return tuple(cd * p[i] + sd * (cb * e[i] + sb * n[i]) for i in range(3))


class Proj:
    """Tangent-point projection: sky -> (x, y) pixel offset from the reference pixel.

    +y is at position angle `rot` (north through east), +x is 90 degrees
    clockwise of it on the sky seen from inside (RA increases to the left).
    """

    def __init__(self, kind, lon, lat, scale, rot):
        self.kind, self.scale, self.rot = kind, scale, rot
        self.lon, self.lat = lon, lat
        self.p = vec(lon, lat)
        self.e, self.n = frame(lon, lat)
        if kind != "CEA" and lat >= PI / 2 - 1e-15:
            # FITS: LONPOLE defaults to 0 instead of 180 deg when CRVAL2 = +90
            self.e = tuple(-a for a in self.e)
            self.n = tuple(-a for a in self.n)

    def plane(self, v):
        """Native plane coordinates (xi east, eta north) in radians, or None."""
        if self.kind == "CEA":
            lon, lat = lonlat(v)
            d = (lon - self.lon + PI) % (2 * PI) - PI
            return d, math.sin(lat)
        z = dot(v, self.p)
        if self.kind == "TAN":
            if z <= 1e-12:
                return None
            f = 1.0 / z
        elif self.kind == "STG":
            if z <= -1 + 1e-12:
                return None
            f = 2.0 / (1.0 + z)
        else:
            raise ValueError(self.kind)
        return dot(v, self.e) * f, dot(v, self.n) * f

    def pix(self, v):
        q = self.plane(v)
        if q is None:
            return None
        xi, eta = q
        c, s = math.cos(self.rot), math.sin(self.rot)
        return (-c * xi + s * eta) / self.scale, (s * xi + c * eta) / self.scale

    def sky(self, x, y):
        """Inverse of pix: offset from the reference pixel -> unit vector."""
        c, s = math.cos(self.rot), math.sin(self.rot)
        xi = (-c * x + s * y) * self.scale
        eta = (s * x + c * y) * self.scale
        if self.kind == "CEA":
            return vec(self.lon + xi, math.asin(max(-1.0, min(1.0, eta))))
        r = math.hypot(xi, eta)
        if r == 0:
            return self.p
        th = math.atan(r) if self.kind == "TAN" else 2 * math.atan(r / 2)
        a, b = math.cos(th), math.sin(th) / r
        return tuple(a * self.p[i] + b * (xi * self.e[i] + eta * self.n[i]) for i in range(3))


# ------------------------------------------------------------------ rings map
class Rings:
    """The rings layout, from the class documentation.

    ``nums`` may be ambiguous where the ring circumference is a whole number of
    ring heights; ``allowed[r]`` then has two values and the model adopts the
    one the implementation chose (see `adopt`).
    """

    def __init__(self, numRings, raStart, version):
        self.n = numRings
        self.version = version
        self.h = PI / (numRings + 1)
        self.ra0 = raStart
        self.allowed = []
        for r in range(numRings):
            lo = self.h * (r + 0.5) - PI / 2
            hi = lo + self.h
            x = 2 * PI * math.cos(min(abs(lo), abs(hi))) / self.h
            k = round(x)
            self.allowed.append({k, k + 1} if abs(x - k) < 1e-9 else {int(math.floor(x)) + 1})
        self.nums = [max(a) for a in self.allowed]

    def adopt(self, nums):
        self.nums = list(nums)

    def ok(self, nums):
        return len(nums) == self.n and all(k in a for k, a in zip(nums, self.allowed))

    @property
    def total(self):
        return sum(self.nums) + 2

    def index_of(self, r, t):
        """Tract number(s) of tract t (t=0 at raStart) of ring r; first one is canonical."""
        if r < 0:
            return [0]
        if r >= self.n:
            return [self.total - 1]
        first = 1 + sum(self.nums[:r])
        if self.version == 1:
            return [first + t]
        # version 0: within a ring 1..n-1 then 0; ring 0 additionally starts with 0
        if t:
            return [first + t]
        last = first + self.nums[r]
        out = [first] if r == 0 else []
        if last != self.total - 1:
            out.append(last)
        return out

    def table(self):
        """[(ring, t)] for every tract number."""
        tab = [None] * self.total
        tab[0] = (-1, 0)
        tab[-1] = (self.n, 0)
        for r in range(self.n):
            for t in range(self.nums[r]):
                for i in self.index_of(r, t):
                    assert tab[i] is None
                    tab[i] = (r, t)
        return tab

    def center(self, r, t):
        if r < 0:
            return 0.0, -PI / 2
        if r >= self.n:
            return 0.0, PI / 2
        return (self.ra0 + 2 * PI * t / self.nums[r]) % (2 * PI), self.h * (r + 1) - PI / 2

    def ring_of(self, lat):
        r = math.floor((lat + PI / 2) / self.h - 0.5)
        return int(max(-1, min(self.n, r)))

    def tract_of(self, lon, r):
        if r < 0 or r >= self.n:
            return 0
        return int(math.floor(((lon - self.ra0) % (2 * PI)) / (2 * PI / self.nums[r]) + 0.5)) % self.nums[r]

    def rarange(self, r, t):
        """(ra0, ra1, dec0, dec1), ra1 > ra0 unwrapped; caps are 0..2pi."""
        lo = -PI / 2 if r < 0 else self.h * (r + 0.5) - PI / 2
        hi = PI / 2 if r >= self.n else self.h * (r + 1.5) - PI / 2
        if r < 0 or r >= self.n:
            return 0.0, 2 * PI, lo, hi
        w = 2 * PI / self.nums[r]
        return self.ra0 + (t - 0.5) * w, self.ra0 + (t + 0.5) * w, lo, hi


# ------------------------------------------------------------------ boxes
class Box:
    """Closed integer pixel box [x0, x1] x [y0, y1]."""

    def __init__(self, x0, y0, x1, y1):
        self.t = (x0, y0, x1, y1)

    @classmethod
    def of(cls, b):
        """From an lsst.geom Box2I, through its public accessors."""
        return cls(int(b.getMinX()), int(b.getMinY()), int(b.getMaxX()), int(b.getMaxY()))

    @classmethod
    def at(cls, x, y, w, h):
        return cls(x, y, x + w - 1, y + h - 1)

    def grown(self, n):
        x0, y0, x1, y1 = self.t
        return Box(x0 - n, y0 - n, x1 + n, y1 + n)

    def clipped(self, o):
        a, b = self.t, o.t
        return Box(max(a[0], b[0]), max(a[1], b[1]), min(a[2], b[2]), min(a[3], b[3]))

    def empty(self):
        return self.t[2] < self.t[0] or self.t[3] < self.t[1]

    def inside(self, o):
        return o.t[0] <= self.t[0] and o.t[1] <= self.t[1] and self.t[2] <= o.t[2] and self.t[3] <= o.t[3]

    def meets(self, o):
        return not self.clipped(o).empty()

    def dims(self):
        return self.t[2] - self.t[0] + 1, self.t[3] - self.t[1] + 1

    def __eq__(self, o):
        return self.t == o.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return "Box%r" % (self.t,)


def corners(box):
    """Corners of the box with half-pixel edges, in order around it."""
    x0, y0, x1, y1 = box.t
    return [(x0 - .5, y0 - .5), (x1 + .5, y0 - .5), (x1 + .5, y1 + .5), (x0 - .5, y1 + .5)]


def pixels(proj, V):
    """Vectorized Proj.pix for an (n, 3) array; nan where there is no position."""
    import numpy as np
    e, n, p = np.array(proj.e), np.array(proj.n), np.array(proj.p)
    z = V @ p
    with np.errstate(all="ignore"):
        if proj.kind == "TAN":
            f = np.where(z > 1e-12, 1.0 / z, np.nan)
        elif proj.kind == "STG":
            f = np.where(z > -1 + 1e-12, 2.0 / (1.0 + z), np.nan)
        else:
            raise ValueError(proj.kind)
    xi, eta = (V @ e) * f, (V @ n) * f
    c, s = math.cos(proj.rot), math.sin(proj.rot)
    return (-c * xi + s * eta) / proj.scale, (s * xi + c * eta) / proj.scale
