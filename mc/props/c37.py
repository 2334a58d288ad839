import math

ID = "C37"
RULE = ("state = (vector or angle pair, form, RA for poles); transitions = conversions compared with trigonometry; a trace = one vector or angle pair in every form")
BOUNDS = {"quick": "a lattice of directions (every 7.5 deg, all axes, and within 1e-3..1e-300 of the poles) x 7 lengths x 4 container types x 5 defaults; angle pairs on a 5 deg lattice; polygons of 150 boxes x integer/float boxes x 4 WCSs",
          "thorough": "the same every 2 deg, polygons of 600 boxes"}
ASSUMPTIONS = []
ORACLE = "Oracle: plain trigonometry."


def vectors(fine):
    from .. import ref
    st = 2.0 if fine else 7.5
    out = []
    n = int(180 / st)
    for i in range(n + 1):
        la = math.radians(-90 + i * st)
        for j in range(int(360 / st)):
            out.append(ref.vec(math.radians(j * st), la))
    for s in (1.0, -1.0):
        for e in (1e-3, 1e-8, 1e-16, 1e-100, 1e-300):
            for a in range(0, 360, 45):
                out.append((e * math.cos(math.radians(a)), e * math.sin(math.radians(a)), s))
        for e in (1e-3, 1e-200):
            for x, y in ((e, 0.0), (-e, 0.0), (0.0, e), (0.0, -e), (-e, -0.0)):
                out.append((x, y, s))
    for x in (1.0, -1.0):
        out += [(x, 0.0, 0.0), (0.0, x, 0.0), (x, 1e-12, 0.0), (x, -1e-12, 0.0), (x, -0.0, 0.0)]
    return out


def coord(ctx, fine):
    import numpy as np
    from lsst.skymap.detail import coordFromVec
    from .. import maps
    ref, geom = maps.ref, maps.geom
    defs = [None] + [geom.Angle(math.radians(a)) for a in (0.0, 90.0, 213.7, 359.999, 365.0, 1000.0, -0.25, -400.0)]
    forms = [list, tuple, np.array, lambda v: np.array(v, dtype=float)[::1]]
    for k, v in enumerate(vectors(fine)):
        ctx.begin("vector", v)
        for f in ((1.0, 2.5, 1e-3, 1e10, 1e-10, 1e200, 1e-200)[:7 if k % 7 == 0 else 2] if max(abs(v[0]), abs(v[1])) > 1e-90 else (1.0,)):
            w = tuple(f * x for x in v)
            for form in forms if k % 5 == 0 else forms[:1]:
                for d in defs if k % 3 == 0 or abs(v[2]) > .99 else defs[:2]:
                    ctx.step("coordFromVec", w, d)
                    c = coordFromVec(form(w)) if d is None else coordFromVec(form(w), defRA=d)
                    ctx.state(v, f, repr(d))
                    lon, lat = c.getLongitude().asRadians(), c.getLatitude().asRadians()
                    ctx.check(ref.sep(ref.vec(lon, lat), ref.unit(v) if max(abs(x) for x in v[:2]) > 1e-150 else (0, 0, v[2])) < 2e-8 * (1 if abs(v[2]) > .9 else 1e-4) + 1e-12,
                              "coordFromVec(%r) is (%r, %r) rad", w, lon, lat)
                    if math.hypot(v[0], v[1]) > 1e-14:
                        dl = (lon - math.atan2(v[1], v[0]) + math.pi) % (2 * math.pi) - math.pi
                        ctx.check(abs(dl) < 1e-6, "coordFromVec(%r) has longitude %r", w, lon)
        ctx.end(round(v[2], 2))
    # exactly at a pole the RA is the given one, and one is needed
    for z in (1.0, -1.0, 2.0, -3.0, 1e-5, 5e-324, -5e-324, 1e-310, -1e-310, -1e-200, 1e300, -1e300):
        for x, y in ((0.0, 0.0), (-0.0, 0.0), (0.0, -0.0), (1e-320, 0.0), (1e-310, -1e-310)):
            v = (x, y, z)
            ctx.begin("pole", v)
            ctx.step("without RA")
            ctx.raises(RuntimeError, lambda: coordFromVec(v), "coordFromVec(%r) without an RA" % (v,))
            for d in defs[1:]:
                ctx.step("with RA", d)
                for c in (coordFromVec(v, defRA=d), coordFromVec(np.array(v), d)):
                    ctx.check(abs((c.getLongitude().asRadians() - d.asRadians() + 1) % (2 * math.pi) - 1) < 4e-15, "RA at the pole %r is %r, expected %r", v, c.getLongitude(), d)
                    ctx.equal(c.getLatitude().asDegrees(), 90.0 if z > 0 else -90.0, "Dec at the pole %r", v)
                ctx.state(v, repr(d))
            ctx.end(z > 0)


def angles(ctx, fine):
    """HEALPix angles (theta, phi), with theta 0 at Dec -90 as this package numbers them."""
    from lsst.skymap import healpixSkyMap as hp
    from .. import maps
    st = 1 if fine else 5
    for th in range(0, 181, st):
        for ph in range(0, 360, st):
            theta, phi = math.radians(th), math.radians(ph + .25)
            ctx.begin("angles", th, ph)
            ctx.step("angToCoord")
            c = hp.angToCoord((theta, phi))
            ctx.check(abs(c.getLatitude().asRadians() - (theta - math.pi / 2)) < 1e-14 and abs(c.getLongitude().asRadians() - phi) < 1e-14,
                      "angToCoord((%r, %r)) is %s", theta, phi, c)
            ctx.step("coordToAng")
            b = hp.coordToAng(c)
            ctx.check(abs(b[0] - theta) < 1e-14 and abs(b[1] - phi) < 1e-14, "coordToAng(angToCoord(%r, %r)) is %r", theta, phi, b)
            c = maps.sp(phi, theta - math.pi / 2)
            b = hp.coordToAng(c)
            ctx.check(0 <= b[0] <= math.pi and 0 <= b[1] < 2 * math.pi, "coordToAng(%s) is %r", c, b)
            ctx.state(th, ph)
            ctx.end(th)


def polygons(ctx, fine):
    from lsst.skymap.detail import makeSkyPolygonFromBBox
    from .. import maps
    from .c12 import compare
    geom, ref = maps.geom, maps.ref
    wcss = [("plain", maps.discrete([77.0], [11.0], [0.4], scale=50.0).make()[0].getWcs()),
            ("rotated", maps.discrete([0.0], [-60.0], [0.4], scale=50.0, rot=25.0, proj="STG").make()[0].getWcs()),
            ("pole", maps.discrete([0.0], [90.0], [1.0], scale=50.0).make()[0].getWcs()),
            ("band", maps.equat(4).make()[0].getWcs())]
    for label, wcs in wcss:
        for x in (-20, 0, 3, 31) if not fine else range(-20, 40, 7):
            for y in (-7, 0, 12):
                for w, h in ((1, 1), (1, 5), (7, 2), (30, 30)):
                    b = geom.Box2I(geom.Point2I(x, y), geom.Extent2I(w, h))
                    ctx.begin(label, x, y, w, h)
                    mb = ref.Box.at(x, y, w, h)
                    ctx.step("integer box")
                    compare(ctx, lambda: makeSkyPolygonFromBBox(b, wcs), mb, wcs, "polygon of an integer box", 1e-9)
                    compare(ctx, lambda: makeSkyPolygonFromBBox(bbox=b, wcs=wcs), mb, wcs, "polygon of an integer box, by keyword", 1e-9)
                    ctx.step("float box")
                    compare(ctx, lambda: makeSkyPolygonFromBBox(geom.Box2D(b), wcs), mb, wcs, "polygon of a float box", 1e-9)
                    # a float box is taken as it is
                    f = geom.Box2D(geom.Point2D(x + .25, y - .125), geom.Point2D(x + w + .25, y + h + 1.5))
                    want = [(x + .25, y - .125), (x + w + .25, y - .125), (x + w + .25, y + h + 1.5), (x + .25, y + h + 1.5)]
                    got = [(v.x(), v.y(), v.z()) for v in makeSkyPolygonFromBBox(f, wcs).getVertices()]
                    for p in want:
                        v = maps.tov(wcs.pixelToSky(geom.Point2D(*p)))
                        ctx.check(min(ref.sep(v, g) for g in got) < 1e-9, "corner %r of a float box is not in its polygon", p)
                    ctx.equal(maps.box(b), mb, "the box after the calls")
                    ctx.state(label, x, y, w, h)
                    ctx.end((w, h))


def scenarios(tier):
    big = tier == "thorough"
    yield "vectors", coord, (big,)
    yield "angles", angles, (big,)
    yield "polygons", polygons, (big,)
