"""Environment model: pure-Python stand-in for the compiled package lsst.geom.

skymap depends on three Rubin C++ packages that cannot be installed here
(lsst.geom, lsst.afw.geom, lsst.pex.exceptions).  To drive the *real* skymap
code, the explorers close the system with this model of lsst.geom.  It follows
the documented semantics of lsst.geom (rounding of Point2D -> Point2I by
floor(x + 0.5), EXPAND edge handling of Box2D -> Box2I, half-open Box2D, NaN
marks an empty Box2D, empty-box normalisation, in-place grow/clip/include,
haversine separation, bearing measured from east towards north).

It is installed as ``lsst.geom`` by shim.install().
"""
import math
import struct

import numpy as np
from lsst import sphgeom as _sphgeom

PI = math.pi
TWOPI = 2.0 * math.pi
HALFPI = 0.5 * math.pi

_INT_MIN = -(2 ** 31)
_INT_MAX = 2 ** 31 - 1


# --------------------------------------------------------------------- angles
class AngleUnit:
    __slots__ = ("_val",)
    __array_ufunc__ = None

    def __init__(self, val):
        self._val = float(val)

    def __mul__(self, other):
        if isinstance(other, (int, float, np.integer, np.floating)):
            return Angle(float(other), self)
        return NotImplemented

    __rmul__ = __mul__

    def __eq__(self, other):
        return isinstance(other, AngleUnit) and self._val == other._val

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self._val)

    def __reduce__(self):
        return (AngleUnit, (self._val,))


radians = AngleUnit(1.0)
degrees = AngleUnit(PI / 180.0)
hours = AngleUnit(PI * 15.0 / 180.0)
arcminutes = AngleUnit(PI / 60 / 180.0)
arcseconds = AngleUnit(PI / 180.0 / 3600)
milliarcseconds = AngleUnit(PI / (180.0 * 3600 * 1000))


def _num(x):
    return isinstance(x, (int, float, np.integer, np.floating))


class Angle:
    __slots__ = ("_v",)
    __array_ufunc__ = None

    def __init__(self, val=0.0, units=radians):
        if isinstance(val, Angle):
            self._v = val._v
        elif isinstance(val, _sphgeom.Angle) or isinstance(val, _sphgeom.NormalizedAngle):
            self._v = val.asRadians()
        else:
            self._v = float(val) * units._val

    def asRadians(self):
        return self._v

    def asDegrees(self):
        return self._v / degrees._val

    def asHours(self):
        return self._v / hours._val

    def asArcminutes(self):
        return self._v / arcminutes._val

    def asArcseconds(self):
        return self._v / arcseconds._val

    def asMilliarcseconds(self):
        return self._v / milliarcseconds._val

    def asAngularUnits(self, units):
        return self._v / units._val

    def wrap(self):
        w = math.fmod(self._v, TWOPI) if math.isfinite(self._v) else math.nan
        if w < 0.0:
            w += TWOPI
        if w >= TWOPI:
            w = 0.0
        return Angle(w)

    def wrapCtr(self):
        w = math.fmod(self._v, TWOPI) if math.isfinite(self._v) else math.nan
        if w < -PI:
            w += TWOPI
            if w >= PI:
                w = -PI
        elif w >= PI:
            w -= TWOPI
            if w < -PI:
                w = -PI
        return Angle(w)

    def wrapNear(self, refAng):
        ref = refAng._v
        w = (self - refAng).wrapCtr()._v + ref
        if w - ref >= PI:
            w -= TWOPI
        elif w - ref < -PI:
            w += TWOPI
        return Angle(w)

    def separation(self, other):
        return (self - other).wrapCtr()

    def __float__(self):
        return self._v

    def __abs__(self):
        return Angle(abs(self._v))

    def __neg__(self):
        return Angle(-self._v)

    def __pos__(self):
        return Angle(self._v)

    def _o(self, other):
        if isinstance(other, Angle):
            return other._v
        if _num(other):
            return float(other)
        return None

    def __add__(self, other):
        o = self._o(other)
        return NotImplemented if o is None else Angle(self._v + o)

    __radd__ = __add__

    def __sub__(self, other):
        o = self._o(other)
        return NotImplemented if o is None else Angle(self._v - o)

    def __rsub__(self, other):
        o = self._o(other)
        return NotImplemented if o is None else Angle(o - self._v)

    def __mul__(self, other):
        if _num(other):
            return Angle(self._v * float(other))
        if isinstance(other, Angle):
            return Angle(self._v * other._v)
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, other):
        if isinstance(other, Angle):
            return self._v / other._v
        if _num(other):
            return Angle(self._v / float(other)) if other else Angle(
                math.copysign(math.inf, self._v) if self._v else math.nan)
        return NotImplemented

    def __eq__(self, other):
        o = self._o(other)
        return NotImplemented if o is None else self._v == o

    def __ne__(self, other):
        o = self._o(other)
        return NotImplemented if o is None else self._v != o

    def __lt__(self, other):
        o = self._o(other)
        return NotImplemented if o is None else self._v < o

    def __le__(self, other):
        o = self._o(other)
        return NotImplemented if o is None else self._v <= o

    def __gt__(self, other):
        o = self._o(other)
        return NotImplemented if o is None else self._v > o

    def __ge__(self, other):
        o = self._o(other)
        return NotImplemented if o is None else self._v >= o

    def __hash__(self):
        return hash(self._v)

    def __str__(self):
        return "%.10g rad" % self._v

    def __repr__(self):
        return "Angle(%r, radians)" % self._v

    def __reduce__(self):
        return (Angle, (self._v,))


NullAngle = Angle(math.nan)


def isAngle(x):
    return isinstance(x, Angle)


def degToRad(x):
    return x * PI / 180.0


def radToDeg(x):
    return x * 180.0 / PI


# ------------------------------------------------- points and extents (2D/3D)
def _toint(x):
    """static_cast<int>(floor(x + 0.5)) on x86-64 (out of range -> INT_MIN)."""
    if not math.isfinite(x):
        return _INT_MIN
    v = math.floor(x + 0.5)
    if v < _INT_MIN or v > _INT_MAX:
        return _INT_MIN
    return int(v)


def _strictint(x):
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        x = int(x)
        if not _INT_MIN <= x <= _INT_MAX:
            raise TypeError("incompatible constructor arguments: %r overflows int" % (x,))
        return x
    raise TypeError("incompatible constructor arguments: %r is not an int" % (x,))


class _Coord:
    """Common machinery of Point and Extent."""
    __slots__ = ("_c",)
    __array_ufunc__ = None
    dimensions = 2
    _isint = False
    _ispoint = False

    def __init__(self, *args):
        n = self.dimensions
        if len(args) == 0:
            vals = [0] * n
        elif len(args) == 1:
            a = args[0]
            if isinstance(a, _Coord):
                if a.dimensions != n:
                    raise TypeError("dimension mismatch")
                if self._isint and not a._isint:
                    if not self._ispoint:
                        raise TypeError("cannot make an integer Extent from a double one")
                    self._c = [_toint(v) for v in a._c]
                    return
                vals = list(a._c)
            elif isinstance(a, (int, float, np.integer, np.floating)):
                vals = [a] * n
            else:
                vals = list(a)
        else:
            vals = list(args)
        if len(vals) != n:
            raise TypeError("expected %d coordinates, got %r" % (n, vals))
        if self._isint:
            self._c = [_strictint(v) for v in vals]
        else:
            self._c = [float(v) for v in vals]

    @classmethod
    def _raw(cls, vals):
        self = object.__new__(cls)
        self._c = vals
        return self

    def __len__(self):
        return self.dimensions

    def _idx(self, i):
        if not isinstance(i, (int, np.integer)):
            raise TypeError("index must be an int")
        n = self.dimensions
        if i < -n or i >= n:
            raise IndexError("Index %d not in range(%d, %d)" % (i, -n, n - 1))
        return i

    def __getitem__(self, i):
        return self._c[self._idx(i)]

    def __setitem__(self, i, v):
        self._c[self._idx(i)] = _strictint(v) if self._isint else float(v)

    def __iter__(self):
        return iter(list(self._c))

    def getX(self):
        return self._c[0]

    def getY(self):
        return self._c[1]

    def getZ(self):
        return self._c[2]

    def setX(self, v):
        self[0] = v

    def setY(self, v):
        self[1] = v

    def setZ(self, v):
        self[2] = v

    x = property(getX, setX)
    y = property(getY, setY)
    z = property(getZ, setZ)

    def __eq__(self, other):
        if not isinstance(other, _Coord) or other.dimensions != self.dimensions \
                or other._ispoint != self._ispoint:
            return NotImplemented
        return self._c == other._c

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash((self._ispoint, tuple(self._c)))

    def __str__(self):
        return "(%s)" % ", ".join("%.17g" % v if not self._isint else str(v) for v in self._c)

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, ", ".join(repr(v) for v in self._c))

    def __reduce__(self):
        return (type(self), tuple(self._c))

    def clone(self):
        return type(self)._raw(list(self._c))

    def __copy__(self):
        return self.clone()

    def __deepcopy__(self, memo):
        return self.clone()

    # relational helpers
    def _cmp(self, other, op):
        o = other._c if isinstance(other, _Coord) else [other] * self.dimensions
        return [op(a, b) for a, b in zip(self._c, o)]

    def eq(self, other):
        return self._cmp(other, lambda a, b: a == b)

    def ne(self, other):
        return self._cmp(other, lambda a, b: a != b)

    def lt(self, other):
        return self._cmp(other, lambda a, b: a < b)

    def le(self, other):
        return self._cmp(other, lambda a, b: a <= b)

    def gt(self, other):
        return self._cmp(other, lambda a, b: a > b)

    def ge(self, other):
        return self._cmp(other, lambda a, b: a >= b)

    def _fam(self, point, isint):
        return _FAMILY[self.dimensions, point, isint]


def _binop(a, b, f, point):
    isint = a._isint and b._isint
    cls = _FAMILY[a.dimensions, point, isint]
    vals = [f(x, y) for x, y in zip(a._c, b._c)]
    return cls._raw(vals if isint else [float(v) for v in vals])


class _Point(_Coord):
    __slots__ = ()
    _ispoint = True

    def __add__(self, other):
        if isinstance(other, _Extent) and other.dimensions == self.dimensions:
            return _binop(self, other, lambda x, y: x + y, True)
        return NotImplemented

    def __sub__(self, other):
        if isinstance(other, _Extent) and other.dimensions == self.dimensions:
            return _binop(self, other, lambda x, y: x - y, True)
        if isinstance(other, _Point) and other.dimensions == self.dimensions:
            return _binop(self, other, lambda x, y: x - y, False)
        return NotImplemented

    def _inplace(self, other, sign):
        if not isinstance(other, _Extent) or (self._isint and not other._isint):
            return NotImplemented
        for i, v in enumerate(other._c):
            self._c[i] += sign * v
        return self

    def __iadd__(self, other):
        return self._inplace(other, 1)

    def __isub__(self, other):
        return self._inplace(other, -1)

    def shift(self, extent):
        for i, v in enumerate(extent._c):
            self._c[i] += v

    def scale(self, factor):
        for i in range(len(self._c)):
            self._c[i] *= factor

    def asExtent(self):
        return self._fam(False, self._isint)._raw(list(self._c))

    def distanceSquared(self, other):
        return sum((a - b) ** 2 for a, b in zip(self._c, other._c))


class _Extent(_Coord):
    __slots__ = ()

    def __init__(self, *args):
        super().__init__(*args)

    def __add__(self, other):
        if isinstance(other, _Extent) and other.dimensions == self.dimensions:
            return _binop(self, other, lambda x, y: x + y, False)
        if isinstance(other, _Point) and other.dimensions == self.dimensions:
            return _binop(self, other, lambda x, y: x + y, True)
        return NotImplemented

    def __sub__(self, other):
        if isinstance(other, _Extent) and other.dimensions == self.dimensions:
            return _binop(self, other, lambda x, y: x - y, False)
        return NotImplemented

    def __neg__(self):
        return type(self)._raw([-v for v in self._c])

    def __mul__(self, other):
        if not _num(other):
            return NotImplemented
        isint = self._isint and isinstance(other, (int, np.integer))
        return self._fam(False, isint)._raw([v * other for v in self._c])

    __rmul__ = __mul__

    def __truediv__(self, other):
        if not _num(other):
            return NotImplemented
        return self._fam(False, False)._raw([v / other for v in self._c])

    def __floordiv__(self, other):
        if not _num(other):
            return NotImplemented
        return type(self)._raw([v // other for v in self._c])

    def __iadd__(self, other):
        if not isinstance(other, _Extent) or (self._isint and not other._isint):
            return NotImplemented
        for i, v in enumerate(other._c):
            self._c[i] += v
        return self

    def __isub__(self, other):
        if not isinstance(other, _Extent) or (self._isint and not other._isint):
            return NotImplemented
        for i, v in enumerate(other._c):
            self._c[i] -= v
        return self

    def __imul__(self, other):
        for i in range(len(self._c)):
            self._c[i] *= other
        return self

    def asPoint(self):
        return self._fam(True, self._isint)._raw(list(self._c))

    def computeNorm(self):
        return math.sqrt(sum(v * v for v in self._c))

    def computeSquaredNorm(self):
        return sum(v * v for v in self._c)

    def dot(self, other):
        return sum(a * b for a, b in zip(self._c, other._c))


class Point2I(_Point):
    __slots__ = ()
    _isint = True


class Point2D(_Point):
    __slots__ = ()


class Extent2I(_Extent):
    __slots__ = ()
    _isint = True

    def __init__(self, *args):
        if len(args) == 1 and isinstance(args[0], (int, np.integer)):
            args = (args[0],) * 2
        super().__init__(*args)


class Extent2D(_Extent):
    __slots__ = ()


class Point3I(_Point):
    __slots__ = ()
    dimensions = 3
    _isint = True


class Point3D(_Point):
    __slots__ = ()
    dimensions = 3


class Extent3I(_Extent):
    __slots__ = ()
    dimensions = 3
    _isint = True


class Extent3D(_Extent):
    __slots__ = ()
    dimensions = 3


_FAMILY = {(c.dimensions, c._ispoint, c._isint): c
           for c in (Point2I, Point2D, Extent2I, Extent2D, Point3I, Point3D, Extent3I, Extent3D)}
PointI, PointD, ExtentI, ExtentD = Point2I, Point2D, Extent2I, Extent2D


def truncate(e):
    cls = Extent2I if isinstance(e, _Extent) else Point2I
    return cls(*[int(v) for v in e])


def floor(e):
    cls = Extent2I if isinstance(e, _Extent) else Point2I
    return cls(*[math.floor(v) for v in e])


def ceil(e):
    cls = Extent2I if isinstance(e, _Extent) else Point2I
    return cls(*[math.ceil(v) for v in e])


# ---------------------------------------------------------------------- boxes
class Box2I:
    __slots__ = ("_mx", "_my", "_w", "_h")
    __array_ufunc__ = None
    EXPAND = 0
    SHRINK = 1
    Point = Point2I
    Extent = Extent2I

    def __init__(self, *args, **kwargs):
        if kwargs:
            args, invert, edge = self._kwargs(args, kwargs)
        else:
            invert, edge = True, Box2I.EXPAND
        if len(args) == 3:
            invert = args[2]
            args = args[:2]
        if len(args) == 0:
            self._set(0, 0, 0, 0)
            return
        first = args[0]
        if isinstance(first, Box2I):
            self._mx, self._my, self._w, self._h = first._mx, first._my, first._w, first._h
            return
        if isinstance(first, Box2D):
            if len(args) == 2:
                edge = args[1]
            self._from_double(first, edge)
            return
        if not isinstance(first, Point2I) or len(args) != 2:
            raise TypeError("incompatible constructor arguments for Box2I: %r" % (args,))
        second = args[1]
        if isinstance(second, Point2I):
            lo = [0, 0]
            dim = [0, 0]
            for i in range(2):
                a, b = first[i], second[i]
                if b < a:
                    if not invert:
                        self._set(0, 0, 0, 0)
                        return
                    a, b = b, a
                lo[i], dim[i] = a, b - a + 1
            self._set(lo[0], lo[1], dim[0], dim[1])
        elif isinstance(second, Extent2I):
            lo = list(first)
            dim = list(second)
            for i in range(2):
                if dim[i] == 0:
                    self._set(0, 0, 0, 0)
                    return
                if dim[i] < 0:
                    if not invert:
                        self._set(0, 0, 0, 0)
                        return
                    lo[i] += dim[i] + 1
                    dim[i] = -dim[i]
            self._set(lo[0], lo[1], dim[0], dim[1])
        else:
            raise TypeError("incompatible constructor arguments for Box2I: %r" % (args,))

    @staticmethod
    def _kwargs(args, kwargs):
        kwargs = dict(kwargs)
        args = list(args)
        invert = kwargs.pop("invert", True)
        edge = kwargs.pop("edgeHandling", Box2I.EXPAND)
        for key in ("minimum", "corner", "other"):
            if key in kwargs:
                args.insert(0, kwargs.pop(key))
        for key in ("maximum", "dimensions"):
            if key in kwargs:
                args.append(kwargs.pop(key))
        if kwargs:
            raise TypeError("unexpected arguments %r" % (kwargs,))
        return args, invert, edge

    def _from_double(self, other, edge):
        from .pexexcshim import InvalidParameterError
        if other.isEmpty():
            self._set(0, 0, 0, 0)
            return
        vals = (other.getMinX(), other.getMinY(), other.getMaxX(), other.getMaxY())
        if not all(math.isfinite(v) for v in vals):
            raise InvalidParameterError("Cannot convert non-finite Box2D to Box2I.")
        lo = (vals[0] + 0.5, vals[1] + 0.5)
        hi = (vals[2] - 0.5, vals[3] - 0.5)
        if edge == Box2I.EXPAND:
            mn = [math.floor(v) for v in lo]
            mx = [math.ceil(v) for v in hi]
        else:
            mn = [math.ceil(v) for v in lo]
            mx = [math.floor(v) for v in hi]
        w, h = mx[0] + 1 - mn[0], mx[1] + 1 - mn[1]
        if w <= 0 or h <= 0:
            self._set(0, 0, 0, 0)
        else:
            self._set(mn[0], mn[1], w, h)

    def _set(self, x, y, w, h):
        if w > _INT_MAX or h > _INT_MAX or x < _INT_MIN or y < _INT_MIN \
                or x + w - 1 > _INT_MAX or y + h - 1 > _INT_MAX:
            from .pexexcshim import OverflowError as PexOverflow
            raise PexOverflow("Box2I out of integer range")
        self._mx, self._my, self._w, self._h = int(x), int(y), int(w), int(h)

    @staticmethod
    def makeCenteredBox(center, size):
        corner = Point2I(*[_toint(center[i] - 0.5 * size[i] + 0.5) for i in range(2)])
        return Box2I(corner, Extent2I(size))

    def isEmpty(self):
        return self._w == 0 and self._h == 0

    def getMin(self):
        return Point2I(self._mx, self._my)

    def getMinX(self):
        return self._mx

    def getMinY(self):
        return self._my

    def getMax(self):
        return Point2I(self._mx + self._w - 1, self._my + self._h - 1)

    def getMaxX(self):
        return self._mx + self._w - 1

    def getMaxY(self):
        return self._my + self._h - 1

    def getBegin(self):
        return Point2I(self._mx, self._my)

    getBeginX = getMinX
    getBeginY = getMinY

    def getEnd(self):
        return Point2I(self._mx + self._w, self._my + self._h)

    def getEndX(self):
        return self._mx + self._w

    def getEndY(self):
        return self._my + self._h

    def getDimensions(self):
        return Extent2I(self._w, self._h)

    def getWidth(self):
        return self._w

    def getHeight(self):
        return self._h

    def getArea(self):
        return self._w * self._h

    def getCenter(self):
        return Box2D(self).getCenter()

    def getCenterX(self):
        return Box2D(self).getCenterX()

    def getCenterY(self):
        return Box2D(self).getCenterY()

    minX = beginX = property(getMinX)
    minY = beginY = property(getMinY)
    maxX = property(getMaxX)
    maxY = property(getMaxY)
    endX = property(getEndX)
    endY = property(getEndY)
    width = property(getWidth)
    height = property(getHeight)
    area = property(getArea)
    dimensions = property(getDimensions)
    x = property(lambda self: IntervalI._make(self._mx, self._w))
    y = property(lambda self: IntervalI._make(self._my, self._h))

    def getCorners(self):
        x0, y0, x1, y1 = self._mx, self._my, self.getMaxX(), self.getMaxY()
        return [Point2I(x0, y0), Point2I(x1, y0), Point2I(x1, y1), Point2I(x0, y1)]

    def getSlices(self):
        return (slice(self._my, self._my + self._h), slice(self._mx, self._mx + self._w))

    slices = property(getSlices)

    def contains(self, *args):
        if len(args) == 2:
            x, y = args
            if np.ndim(x) or np.ndim(y):
                x, y = np.asarray(x), np.asarray(y)
                return ((x >= self._mx) & (x < self._mx + self._w)
                        & (y >= self._my) & (y < self._my + self._h))
            return self._mx <= x < self._mx + self._w and self._my <= y < self._my + self._h
        other, = args
        if isinstance(other, Box2I):
            if other.isEmpty():
                return True
            return (self._mx <= other._mx and self._my <= other._my
                    and other._mx + other._w <= self._mx + self._w
                    and other._my + other._h <= self._my + self._h)
        if isinstance(other, _Point) and other._isint:
            return (self._mx <= other._c[0] < self._mx + self._w
                    and self._my <= other._c[1] < self._my + self._h)
        raise TypeError("Box2I.contains: incompatible argument %r" % (other,))

    def __contains__(self, other):
        return self.contains(other)

    def overlaps(self, other):
        if self.isEmpty() or other.isEmpty():
            return False
        return (self._mx < other._mx + other._w and other._mx < self._mx + self._w
                and self._my < other._my + other._h and other._my < self._my + self._h)

    intersects = overlaps

    def isDisjointFrom(self, other):
        return not self.overlaps(other)

    def grow(self, buffer):
        if self.isEmpty():
            return
        bx, by = (buffer, buffer) if isinstance(buffer, (int, np.integer)) else Extent2I(*buffer)
        bx, by = _strictint(bx), _strictint(by)
        w, h = self._w + 2 * bx, self._h + 2 * by
        if w <= 0 or h <= 0:
            self._set(0, 0, 0, 0)
        else:
            self._set(self._mx - bx, self._my - by, w, h)

    def shift(self, offset):
        if self.isEmpty():
            return
        self._set(self._mx + offset[0], self._my + offset[1], self._w, self._h)

    def flipLR(self, xExtent):
        if not self.isEmpty():
            self._set(xExtent - (self._mx + self._w), self._my, self._w, self._h)

    def flipTB(self, yExtent):
        if not self.isEmpty():
            self._set(self._mx, yExtent - (self._my + self._h), self._w, self._h)

    def include(self, other):
        if isinstance(other, Box2I):
            if other.isEmpty():
                return
            box = other
        else:
            box = Box2I(Point2I(other), Extent2I(1, 1))
        if self.isEmpty():
            self._set(box._mx, box._my, box._w, box._h)
            return
        x0, y0 = min(self._mx, box._mx), min(self._my, box._my)
        x1 = max(self._mx + self._w, box._mx + box._w)
        y1 = max(self._my + self._h, box._my + box._h)
        self._set(x0, y0, x1 - x0, y1 - y0)

    def clip(self, other):
        if self.isEmpty():
            return
        if other.isEmpty():
            self._set(0, 0, 0, 0)
            return
        x0, y0 = max(self._mx, other._mx), max(self._my, other._my)
        x1 = min(self._mx + self._w, other._mx + other._w)
        y1 = min(self._my + self._h, other._my + other._h)
        if x1 <= x0 or y1 <= y0:
            self._set(0, 0, 0, 0)
        else:
            self._set(x0, y0, x1 - x0, y1 - y0)

    def _copy(self):
        return Box2I(self)

    def dilatedBy(self, buffer):
        b = Box2I(self)
        b.grow(buffer)
        return b

    def erodedBy(self, buffer):
        b = Box2I(self)
        b.grow(-buffer)
        return b

    def shiftedBy(self, offset):
        b = Box2I(self)
        b.shift(offset)
        return b

    def expandedTo(self, other):
        b = Box2I(self)
        b.include(other)
        return b

    def clippedTo(self, other):
        b = Box2I(self)
        b.clip(other)
        return b

    def __eq__(self, other):
        if not isinstance(other, Box2I):
            return NotImplemented
        return (self._mx, self._my, self._w, self._h) == (other._mx, other._my, other._w, other._h)

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash((self._mx, self._my, self._w, self._h))

    def __str__(self):
        return "(minimum=(%d, %d), maximum=(%d, %d))" % (self._mx, self._my, self.getMaxX(), self.getMaxY())

    def __repr__(self):
        return "Box2I(corner=Point2I(%d, %d), dimensions=Extent2I(%d, %d))" % (
            self._mx, self._my, self._w, self._h)

    def __reduce__(self):
        return (_unpickle_box2i, (self._mx, self._my, self._w, self._h))

    def __copy__(self):
        return Box2I(self)

    def __deepcopy__(self, memo):
        return Box2I(self)


def _unpickle_box2i(x, y, w, h):
    b = Box2I()
    b._set(x, y, w, h)
    return b


_EPSILON = np.finfo(float).eps * 2


def _tweak(v):
    if v < 0.0:
        return v * (1.0 - _EPSILON)
    if v > 0.0:
        return v * (1.0 + _EPSILON)
    return _EPSILON


class Box2D:
    __slots__ = ("_x0", "_y0", "_x1", "_y1")
    __array_ufunc__ = None
    EPSILON = _EPSILON
    INVALID = math.nan
    Point = Point2D
    Extent = Extent2D

    def __init__(self, *args, **kwargs):
        if kwargs:
            args, invert, _ = Box2I._kwargs(args, kwargs)
        else:
            invert = True
        if len(args) == 3:
            invert = args[2]
            args = args[:2]
        if len(args) == 0:
            self._clear()
            return
        first = args[0]
        if isinstance(first, Box2D):
            self._x0, self._y0, self._x1, self._y1 = first._x0, first._y0, first._x1, first._y1
            return
        if isinstance(first, Box2I):
            if first.isEmpty():
                self._clear()
            else:
                self._x0, self._y0 = first._mx - 0.5, first._my - 0.5
                self._x1, self._y1 = first._mx + first._w - 0.5, first._my + first._h - 0.5
            return
        if not isinstance(first, _Point) or len(args) != 2:
            raise TypeError("incompatible constructor arguments for Box2D: %r" % (args,))
        lo = [float(v) for v in first]
        second = args[1]
        if isinstance(second, _Point):
            hi = [float(v) for v in second]
        elif isinstance(second, _Extent):
            hi = [a + float(b) for a, b in zip(lo, second)]
        else:
            raise TypeError("incompatible constructor arguments for Box2D: %r" % (args,))
        for i in range(2):
            if lo[i] == hi[i]:
                self._clear()
                return
            if lo[i] > hi[i]:
                if not invert:
                    self._clear()
                    return
                lo[i], hi[i] = hi[i], lo[i]
        self._x0, self._y0 = lo
        self._x1, self._y1 = hi

    def _clear(self):
        self._x0 = self._y0 = self._x1 = self._y1 = math.nan

    @staticmethod
    def makeCenteredBox(center, size):
        return Box2D(Point2D(center[0] - size[0] * 0.5, center[1] - size[1] * 0.5),
                     Extent2D(size[0], size[1]), False)

    def isEmpty(self):
        return self._x0 != self._x0

    def getMin(self):
        return Point2D(self._x0, self._y0)

    def getMax(self):
        return Point2D(self._x1, self._y1)

    def getMinX(self):
        return self._x0

    def getMinY(self):
        return self._y0

    def getMaxX(self):
        return self._x1

    def getMaxY(self):
        return self._y1

    def getWidth(self):
        return 0.0 if self.isEmpty() else self._x1 - self._x0

    def getHeight(self):
        return 0.0 if self.isEmpty() else self._y1 - self._y0

    def getArea(self):
        return self.getWidth() * self.getHeight()

    def getDimensions(self):
        return Extent2D(self.getWidth(), self.getHeight())

    def getCenterX(self):
        return 0.5 * (self._x0 + self._x1)

    def getCenterY(self):
        return 0.5 * (self._y0 + self._y1)

    def getCenter(self):
        return Point2D(self.getCenterX(), self.getCenterY())

    minX = property(getMinX)
    minY = property(getMinY)
    maxX = property(getMaxX)
    maxY = property(getMaxY)
    width = property(getWidth)
    height = property(getHeight)
    area = property(getArea)
    dimensions = property(getDimensions)
    centerX = property(getCenterX)
    centerY = property(getCenterY)
    center = property(getCenter)

    def getCorners(self):
        return [Point2D(self._x0, self._y0), Point2D(self._x1, self._y0),
                Point2D(self._x1, self._y1), Point2D(self._x0, self._y1)]

    def contains(self, *args):
        if len(args) == 2:
            x, y = args
            if np.ndim(x) or np.ndim(y):
                x, y = np.asarray(x), np.asarray(y)
                return (x >= self._x0) & (x < self._x1) & (y >= self._y0) & (y < self._y1)
            return self._x0 <= x < self._x1 and self._y0 <= y < self._y1
        other, = args
        if isinstance(other, Box2I):
            other = Box2D(other)
        if isinstance(other, Box2D):
            if other.isEmpty():
                return True
            return (self._x0 <= other._x0 and self._y0 <= other._y0
                    and other._x1 <= self._x1 and other._y1 <= self._y1)
        if isinstance(other, _Point):
            return self._x0 <= other._c[0] < self._x1 and self._y0 <= other._c[1] < self._y1
        raise TypeError("Box2D.contains: incompatible argument %r" % (other,))

    def __contains__(self, other):
        return self.contains(other)

    def overlaps(self, other):
        if self.isEmpty() or other.isEmpty():
            return False
        return (self._x0 < other._x1 and other._x0 < self._x1
                and self._y0 < other._y1 and other._y0 < self._y1)

    intersects = overlaps

    def isDisjointFrom(self, other):
        return not self.overlaps(other)

    def grow(self, buffer):
        if self.isEmpty():
            return
        bx, by = (buffer, buffer) if _num(buffer) else (buffer[0], buffer[1])
        self._x0 -= bx
        self._x1 += bx
        self._y0 -= by
        self._y1 += by
        if self._x0 >= self._x1 or self._y0 >= self._y1:
            self._clear()

    def shift(self, offset):
        if self.isEmpty():
            return
        self._x0 += offset[0]
        self._x1 += offset[0]
        self._y0 += offset[1]
        self._y1 += offset[1]

    def include(self, other):
        if isinstance(other, (Box2D, Box2I)):
            o = other if isinstance(other, Box2D) else Box2D(other)
            if o.isEmpty():
                return
            if self.isEmpty():
                self._x0, self._y0, self._x1, self._y1 = o._x0, o._y0, o._x1, o._y1
            else:
                self._x0, self._y0 = min(self._x0, o._x0), min(self._y0, o._y0)
                self._x1, self._y1 = max(self._x1, o._x1), max(self._y1, o._y1)
            return
        x, y = float(other[0]), float(other[1])
        if self.isEmpty():
            self._x0, self._y0 = x, y
            self._x1, self._y1 = _tweak(x), _tweak(y)
        else:
            if x < self._x0:
                self._x0 = x
            elif x >= self._x1:
                self._x1 = _tweak(x)
            if y < self._y0:
                self._y0 = y
            elif y >= self._y1:
                self._y1 = _tweak(y)

    def clip(self, other):
        if self.isEmpty():
            return
        if other.isEmpty():
            self._clear()
            return
        self._x0, self._y0 = max(self._x0, other._x0), max(self._y0, other._y0)
        self._x1, self._y1 = min(self._x1, other._x1), min(self._y1, other._y1)
        if self._x0 >= self._x1 or self._y0 >= self._y1:
            self._clear()

    def dilatedBy(self, buffer):
        b = Box2D(self)
        b.grow(buffer)
        return b

    def erodedBy(self, buffer):
        b = Box2D(self)
        b.grow(-buffer)
        return b

    def shiftedBy(self, offset):
        b = Box2D(self)
        b.shift(offset)
        return b

    def expandedTo(self, other):
        b = Box2D(self)
        b.include(other)
        return b

    def clippedTo(self, other):
        b = Box2D(self)
        b.clip(other)
        return b

    def __eq__(self, other):
        if not isinstance(other, Box2D):
            return NotImplemented
        if self.isEmpty() and other.isEmpty():
            return True
        return (self._x0, self._y0, self._x1, self._y1) == (other._x0, other._y0, other._x1, other._y1)

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash((self._x0, self._y0, self._x1, self._y1))

    def __str__(self):
        return "(minimum=(%.17g, %.17g), maximum=(%.17g, %.17g))" % (
            self._x0, self._y0, self._x1, self._y1)

    def __repr__(self):
        return "Box2D(minimum=Point2D(%r, %r), maximum=Point2D(%r, %r))" % (
            self._x0, self._y0, self._x1, self._y1)

    def __reduce__(self):
        return (_unpickle_box2d, (self._x0, self._y0, self._x1, self._y1))

    def __copy__(self):
        return Box2D(self)

    def __deepcopy__(self, memo):
        return Box2D(self)


def _unpickle_box2d(*vals):
    b = Box2D()
    b._x0, b._y0, b._x1, b._y1 = vals
    return b


class IntervalI:
    """Small subset of lsst.geom.IntervalI (what Box2I.x / Box2I.y return)."""
    __slots__ = ("_min", "_size")

    def __init__(self, min=0, max=-1):
        self._min, self._size = int(min), int(max) - int(min) + 1
        if self._size <= 0:
            self._min = self._size = 0

    @classmethod
    def _make(cls, mn, size):
        self = object.__new__(cls)
        self._min, self._size = mn, size
        return self

    min = begin = property(lambda self: self._min)
    max = property(lambda self: self._min + self._size - 1)
    end = property(lambda self: self._min + self._size)
    size = property(lambda self: self._size)

    def getMin(self):
        return self._min

    def getMax(self):
        return self.max

    def getBegin(self):
        return self._min

    def getEnd(self):
        return self.end

    def getSize(self):
        return self._size

    def isEmpty(self):
        return self._size == 0

    def contains(self, v):
        if isinstance(v, IntervalI):
            return v.isEmpty() or (self._min <= v._min and v.end <= self.end)
        return self._min <= v < self.end

    def overlaps(self, o):
        return not self.isEmpty() and not o.isEmpty() and self._min < o.end and o._min < self.end

    def __eq__(self, o):
        return isinstance(o, IntervalI) and (self._min, self._size) == (o._min, o._size)

    def __hash__(self):
        return hash((self._min, self._size))

    def __len__(self):
        return self._size

    def arange(self):
        return np.arange(self.begin, self.end)


BoxI, BoxD = Box2I, Box2D


# --------------------------------------------------------------- sphere points
def _haversine(x):
    s = math.sin(0.5 * x)
    return s * s


class SpherePoint:
    __slots__ = ("_lon", "_lat")
    __array_ufunc__ = None

    def __init__(self, *args, **kwargs):
        if kwargs:
            args = tuple(args) + tuple(kwargs[k] for k in ("longitude", "latitude", "vector", "units")
                                       if k in kwargs)
        n = len(args)
        if n == 0:
            self._lon = self._lat = math.nan
            return
        if n == 1:
            a = args[0]
            if isinstance(a, SpherePoint):
                self._lon, self._lat = a._lon, a._lat
                return
            if isinstance(a, _sphgeom.LonLat):
                self._init(a.getLon().asRadians(), a.getLat().asRadians())
                return
            if isinstance(a, _Point):
                a = _sphgeom.Vector3d(*a)
            if isinstance(a, _sphgeom.Vector3d):
                a = _sphgeom.UnitVector3d(a)
            if not isinstance(a, _sphgeom.UnitVector3d):
                raise TypeError("incompatible SpherePoint argument %r" % (a,))
            self._lon = _sphgeom.LonLat.longitudeOf(a).asRadians()
            self._lat = _sphgeom.LonLat.latitudeOf(a).asRadians()
            return
        if n == 2:
            if not isinstance(args[0], Angle) or not isinstance(args[1], Angle):
                raise TypeError("SpherePoint(lon, lat) needs Angles, got %r" % (args,))
            self._init(args[0]._v, args[1]._v)
            return
        if n == 3 and isinstance(args[2], AngleUnit):
            self._init(float(args[0]) * args[2]._val, float(args[1]) * args[2]._val)
            return
        raise TypeError("incompatible SpherePoint arguments %r" % (args,))

    def _init(self, lon, lat):
        if abs(lat) > HALFPI:
            from .pexexcshim import InvalidParameterError
            raise InvalidParameterError("Angle %.17g rad is not a valid latitude." % lat)
        self._lon = lon if 0.0 <= lon < TWOPI else Angle(lon).wrap()._v
        self._lat = lat

    @classmethod
    def _raw(cls, lon, lat):
        self = object.__new__(cls)
        self._lon, self._lat = lon, lat
        return self

    def getLongitude(self):
        return Angle(self._lon)

    def getLatitude(self):
        return Angle(self._lat)

    getRa = getLongitude
    getDec = getLatitude

    def getVector(self):
        if not self.isFinite():
            return _sphgeom.UnitVector3d.fromNormalized(math.nan, math.nan, math.nan) \
                if False else _sphgeom.UnitVector3d(_sphgeom.NormalizedAngle(self._lon),
                                                    _sphgeom.Angle(self._lat))
        return _sphgeom.UnitVector3d(_sphgeom.NormalizedAngle(self._lon), _sphgeom.Angle(self._lat))

    def getPosition(self, units):
        return Point2D(self._lon / units._val, self._lat / units._val)

    def __getitem__(self, i):
        if i in (0, -2):
            return Angle(self._lon)
        if i in (1, -1):
            return Angle(self._lat)
        raise IndexError("Index %r out of range" % (i,))

    def __len__(self):
        return 2

    def __iter__(self):
        return iter((Angle(self._lon), Angle(self._lat)))

    def atPole(self):
        return abs(self._lat) >= HALFPI

    def isFinite(self):
        return math.isfinite(self._lon) and math.isfinite(self._lat)

    def separation(self, other):
        a = (_haversine(other._lat - self._lat)
             + math.cos(self._lat) * math.cos(other._lat) * _haversine(other._lon - self._lon))
        if a != a:
            return Angle(math.nan)
        return Angle(2.0 * math.asin(math.sqrt(min(1.0, a))))

    def bearingTo(self, other):
        dlon = other._lon - self._lon
        s1, c1 = math.sin(self._lat), math.cos(self._lat)
        s2, c2 = math.sin(other._lat), math.cos(other._lat)
        xdir = c1 * s2 - s1 * c2 * math.cos(dlon)
        ydir = math.sin(dlon) * c2
        return Angle(HALFPI - math.atan2(ydir, xdir)).wrap()

    def offset(self, bearing, amount):
        phi = bearing._v if isinstance(bearing, Angle) else float(bearing)
        amt = amount._v if isinstance(amount, Angle) else float(amount)
        sl, cl = math.sin(self._lon), math.cos(self._lon)
        sb, cb = math.sin(self._lat), math.cos(self._lat)
        r = (cb * cl, cb * sl, sb)
        u = (-sl, cl, 0.0)
        w = (-sb * cl, -sb * sl, cb)
        cp, sp = math.cos(phi), math.sin(phi)
        ca, sa = math.cos(amt), math.sin(amt)
        v = [ca * r[i] + sa * (cp * u[i] + sp * w[i]) for i in range(3)]
        return SpherePoint(_sphgeom.UnitVector3d(*v))

    def rotated(self, axis, amount):
        v = self.getVector().rotatedAround(axis.getVector(), _sphgeom.Angle(float(amount)))
        return SpherePoint(v)

    def getTangentPlaneOffset(self, other):
        alpha1, delta1 = other._lon, other._lat
        alpha2, delta2 = self._lon, self._lat
        s1, c1, s2, c2 = math.sin(delta1), math.cos(delta1), math.sin(delta2), math.cos(delta2)
        cd, sd = math.cos(alpha2 - alpha1), math.sin(alpha2 - alpha1)
        div = c1 * c2 * cd + s1 * s2
        return Angle(c1 * sd / div), Angle((c1 * s2 * cd - s1 * c2) / div)

    def __eq__(self, other):
        if not isinstance(other, SpherePoint):
            return NotImplemented
        return self._lon == other._lon and self._lat == other._lat

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash((self._lon, self._lat))

    def __str__(self):
        return "(%.10f, %+.10f)" % (self._lon / degrees._val, self._lat / degrees._val)

    def __repr__(self):
        return "SpherePoint(%r*degrees, %r*degrees)" % (self._lon / degrees._val, self._lat / degrees._val)

    def __reduce__(self):
        return (_unpickle_sphere, (self._lon, self._lat))


def _unpickle_sphere(lon, lat):
    return SpherePoint._raw(lon, lat)


def averageSpherePoint(coords):
    x = y = z = 0.0
    for c in coords:
        v = c.getVector()
        x += v.x()
        y += v.y()
        z += v.z()
    return SpherePoint(_sphgeom.Vector3d(x, y, z))
