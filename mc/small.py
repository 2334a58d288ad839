"""Small tracts built through the public TractInfo constructor on a plate-carree WCS.

PlateWcs is an environment stand-in whose pixel grid is known exactly
(1 pixel = 0.01 deg), so the minimum bounding box of the tract can be set to
any integer box and the patch and cell geometry enumerated exhaustively.
"""
import numpy

from . import maps
from .maps import geom, skymap  # noqa: F401
from lsst.skymap.baseSkyMap import BaseSkyMapConfig      # noqa: E402
from lsst.skymap.tractInfo import TractInfo              # noqa: E402

STEP = 0.01


class PlateWcs:
    def __init__(self, x0=0.0, y0=0.0, step=STEP):
        self.x0, self.y0, self.step = x0, y0, step

    def skyToPixel(self, sky):
        if isinstance(sky, geom.SpherePoint):
            lon, lat = sky.getLongitude().asDegrees(), sky.getLatitude().asDegrees()
            lon = (lon + 180.0) % 360.0 - 180.0
            return geom.Point2D(lon / self.step + self.x0, lat / self.step + self.y0)
        return [self.skyToPixel(s) for s in sky]

    def pixelToSky(self, *a):
        if len(a) == 2:
            a = (geom.Point2D(*a),)
        p, = a
        if isinstance(p, geom.Point2D):
            return geom.SpherePoint((p.getX() - self.x0) * self.step, (p.getY() - self.y0) * self.step, geom.degrees)
        return [self.pixelToSky(q) for q in p]

    def copyAtShiftedPixelOrigin(self, s):
        return PlateWcs(self.x0 + s[0], self.y0 + s[1], self.step)

    # Not used by the package today; there so that a rewrite may use them.
    def skyToPixelArray(self, ra, dec, degrees=False):
        u = geom.degrees if degrees else geom.radians
        p = [self.skyToPixel(geom.SpherePoint(float(a), float(b), u)) for a, b in zip(numpy.atleast_1d(ra), numpy.atleast_1d(dec))]
        return numpy.array([q.getX() for q in p]), numpy.array([q.getY() for q in p])

    def pixelToSkyArray(self, x, y, degrees=False):
        u = geom.degrees if degrees else geom.radians
        s = [self.pixelToSky(float(a), float(b)) for a, b in zip(numpy.atleast_1d(x), numpy.atleast_1d(y))]
        return numpy.array([q.getLongitude().asAngularUnits(u) for q in s]), numpy.array([q.getLatitude().asAngularUnits(u) for q in s])

    def getPixelOrigin(self):
        return geom.Point2D(self.x0, self.y0)

    def getSkyOrigin(self):
        return geom.SpherePoint(0.0, 0.0, geom.degrees)

    def getPixelScale(self, *a):
        return self.step * geom.degrees


def builder(kind, **kw):
    c = BaseSkyMapConfig()
    c.tractBuilder.name = kind
    for k, v in kw.items():
        setattr(c.tractBuilder[kind], k, v)
    c.validate()
    return c.tractBuilder.apply()


def legacy(ix, iy, border):
    return builder("legacy", patchInnerDimensions=(ix, iy), patchBorder=border)


def cells(c, n, b, cb):
    return builder("cells", cellInnerDimensions=(c, c), numCellsPerPatchInner=n, numCellsInPatchBorder=b, cellBorder=cb)


def tract(bld, w, h, x0=0, y0=0, tid=0, step=STEP):
    """TractInfo whose minimum bounding box is pixels x0..x0+w-1, y0..y0+h-1 of the WCS."""
    wcs = PlateWcs(step=step)
    pts = [(x0 - .3, y0 - .3), (x0 + w - 1 + .3, y0 - .3), (x0 + w - 1 + .3, y0 + h - 1 + .3), (x0 - .3, y0 + h - 1 + .3)]
    vert = [wcs.pixelToSky(geom.Point2D(*p)) for p in pts]
    ctr = wcs.pixelToSky(geom.Point2D(x0 + (w - 1) / 2, y0 + (h - 1) / 2))
    return TractInfo(tid, bld, ctr, vert, 0 * geom.degrees, wcs)


def tiles(ctx, t, inner, minimum=None):
    """C05 on one tract; returns (nx, ny)."""
    ix, iy = inner
    bb = maps.box(t.getBBox())
    ctx.equal(bb.t[:2], (0, 0), "minimum corner of the tract box")
    ctx.equal(maps.box(t.bbox), bb, "bbox property")
    w, h = bb.dims()
    n = t.getNumPatches()
    nx, ny = int(n[0]), int(n[1])
    ctx.equal((n.x, n.y), (nx, ny), "num_patches x, y")
    ctx.equal(tuple(t.num_patches), (nx, ny), "num_patches property")
    ctx.check(nx > 0 and ny > 0, "num_patches is %r", n)
    ctx.equal((w, h), (nx * ix, ny * iy), "tract size for %dx%d patches of %dx%d", nx, ny, ix, iy)
    for dims in (t.getPatchInnerDimensions(), t.patch_inner_dimensions):
        ctx.equal((int(dims[0]), int(dims[1])), (ix, iy), "patch inner dimensions")
    if minimum:
        ctx.check(w >= minimum[0] and h >= minimum[1], "tract %dx%d is smaller than its minimum %r", w, h, minimum)
    owner = {}
    for p in t:
        i, j = (int(v) for v in p.getIndex())
        ctx.step("patch", i, j)
        b = maps.box(p.getInnerBBox())
        ctx.equal(b, maps.box(p.inner_bbox), "inner_bbox property of patch (%d, %d)", i, j)
        ctx.equal(b, maps.ref.Box.at(i * ix, j * iy, ix, iy), "inner box of patch (%d, %d)", i, j)
        ctx.check((i, j) not in owner, "patch (%d, %d) appears twice", i, j)
        owner[i, j] = b
    ctx.equal(set(owner), {(i, j) for i in range(nx) for j in range(ny)}, "patch indices")
    # every pixel in exactly one: counted on the pixels themselves where that is affordable
    if w * h <= 4000:
        count = {}
        for b in owner.values():
            for x in range(b.t[0], b.t[2] + 1):
                for y in range(b.t[1], b.t[3] + 1):
                    count[x, y] = count.get((x, y), 0) + 1
        ctx.check(len(count) == w * h and set(count.values()) == {1}, "pixels not in exactly one patch")
        ctx.check(all(0 <= x < w and 0 <= y < h for x, y in count), "patch pixels outside the tract")
    return nx, ny


# Tracts whose pixel coordinates or numbers of patches pass the powers of two at which narrower numbers end.
VAST = [(2 ** 24 + 12345, 9000), (9000, 2 ** 24 + 12345), (2 ** 26 + 1, 2 ** 25 - 1), (2 ** 30 - 77777, 2 ** 28 + 3), (123456789, 2 ** 30 - 99999)]
VAST_BUILDERS = [("legacy", (4000, 4000), 100), ("legacy", (4001, 3999), 4000), ("legacy", (3, 7), 1), ("cells", 150, 20, 1, 50), ("cells", 7, 3, 2, 5)]


def vast(ctx, b, w, h):
    """(tract, inner dimensions, border, patch indices worth a look) of a tract of w x h pixels."""
    if b[0] == "legacy":
        bld, inner, border = legacy(*b[1], b[2]), b[1], b[2]
    else:
        bld, inner, border = cells(*b[1:]), (b[1] * b[2],) * 2, b[3] * b[1] + b[4]
    t = tract(bld, w, h, -(w // 2), -(h // 2), step=100. / max(w, h))
    n = tuple(int(v) for v in t.getNumPatches())
    for k, size in enumerate((w, h)):
        ctx.check(0 <= n[k] - -(-size // inner[k]) <= 1, "%d patches of %d for %d pixels", n[k], inner[k], size)

    def at(k):
        out = {0, 1, n[k] // 3, n[k] // 2, n[k] - 2, n[k] - 1}
        for e in range(7, 32):
            out |= {2 ** e - 1, 2 ** e, 2 ** e + 1}
            out |= {2 ** e // inner[k] + d for d in (-1, 0, 1, 2)}
        return sorted(i for i in out if 0 <= i < n[k])
    xs, ys = at(0), at(1)
    pairs = {(i, j) for i in xs for j in (0, n[1] // 2, n[1] - 1)} | {(i, j) for j in ys for i in (0, n[0] // 2, n[0] - 1)}
    return t, inner, border, n, sorted(pairs)


def vasts(tier):
    for b in VAST_BUILDERS:
        for w, h in VAST:
            yield "vast %s %dx%d" % (b, w, h), (b, w, h)
