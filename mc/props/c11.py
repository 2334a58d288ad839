ID = "C11"
RULE = ("state = (map, tract, sky position); transitions = pixel positions and WCS queries compared with the projection model; a trace = one tract")
BOUNDS = {"quick": "every tract of 27 maps of all 5 classes, of 8 default or survey configurations, and 120 maps over rotation (13 values) x projection x class; 22 maps of pixel scales 0.000321 to 3600.5 arcsec; 80 maps of five tracts that lie 0 to .01 degrees from each other; reference position, 8 neighbours and 12 positions around each; first, middle and last patch and their cells",
          "thorough": "every tract of 245 + 300 maps; 60 positions each"}
ASSUMPTIONS = ["makeCdMatrix/makeSkyWcs of lsst.afw.geom as in the shim (compared with wcslib by tools/shim_conformance.py)"]


def tract(ctx, spec, t, npos):
    import math
    from .. import maps
    ref, geom = maps.ref, maps.geom
    lon, lat = maps.crval(spec, t)
    if spec.cls == "rings" and abs(lat) > ref.PI / 2 - 1e-9:
        lon = 0.0
    elif spec.cls == "discrete":
        lon, lat = (spec.opts[k][t.getId()] * maps.DEG for k in ("raList", "decList"))
    wcs = t.getWcs()
    P = ref.Proj(spec.proj, lon, lat, spec.scale, spec.rot)
    o = wcs.skyToPixel(maps.sp(lon, lat))
    ox, oy = o.getX(), o.getY()
    ctx.check(math.isfinite(ox) and math.isfinite(oy), "reference position has pixel %r", o)
    bb = maps.box(t.getBBox())
    size = max(bb.dims())
    # integer pixel grid: the reference pixel is a whole number of pixels from the tract origin
    ctx.check(abs(ox - round(ox)) < 1e-6 and abs(oy - round(oy)) < 1e-6, "reference pixel (%r, %r) is not a pixel center", ox, oy)
    d = spec.scale * size * .4
    for k in range(npos):
        ang = 2 * ref.PI * k / npos + .1
        for dist in ((spec.scale * 1.0, d) if k % 2 else (spec.scale * 3.0, d / 3)):
            v = ref.move(lon, lat, ang, dist)
            want = P.pix(v)
            if want is None:
                continue
            got = wcs.skyToPixel(maps.spv(v))
            ctx.state(t.getId(), k, dist)
            ctx.step("position", round(ang, 2), "%.2g" % dist)
            tol = 1e-6 * size + 1e-7
            ctx.check(abs(got.getX() - ox - want[0]) < tol and abs(got.getY() - oy - want[1]) < tol,
                      "%s tract %d: a position %.4g px away at bearing %.3f has pixel offset (%.6f, %.6f), expected (%.6f, %.6f)",
                      spec.cls, t.getId(), dist / spec.scale, ang, got.getX() - ox, got.getY() - oy, want[0], want[1])
            back = wcs.pixelToSky(geom.Point2D(ox + want[0], oy + want[1]))
            ctx.check(ref.sep(maps.tov(back), v) < 1e-9 + 1e-7 * spec.scale * size, "pixelToSky is not the inverse of skyToPixel")
    same(ctx, wcs, t.wcs, "wcs property of the tract")
    n = len(t)
    for i in sorted({0, n // 2, n - 1}):
        p = t[i]
        same(ctx, wcs, p.getWcs(), "WCS of patch %d" % i)
        same(ctx, wcs, p.wcs, "wcs property of patch %d" % i)
        c = len(p)
        for j in sorted({0, c // 2, c - 1}) if c else ():
            same(ctx, wcs, p[j].getWcs(), "WCS of cell %d of patch %d" % (j, i))
            same(ctx, wcs, p[j].wcs, "wcs property of cell %d of patch %d" % (j, i))


def same(ctx, a, b, what):
    from ..maps import geom
    ctx.step(what)
    if a is b:
        return
    for x, y in ((0, 0), (3, -2), (17.5, 40.25)):
        p, q = a.pixelToSky(geom.Point2D(x, y)), b.pixelToSky(geom.Point2D(x, y))
        ctx.check(p == q or p.separation(q).asRadians() < 1e-14, "%s differs from the tract's", what)


def amap(ctx, spec, npos):
    for t in spec.make():
        ctx.begin(spec, "tract", t.getId())
        tract(ctx, spec, t, npos)
        ctx.end()


def extra(tier):
    from .. import maps
    rots = [0.0, 10.0, 45.0, 89.0, 90.0, 91.0, 135.0, 180.0, 225.0, 270.0, 300.0, -10.0, -90.0]
    if tier == "thorough":
        rots += [360.0, 400.0, -200.0, 0.001, 60.0, 120.0]
    for rot in rots:
        for b in (maps.LEG, maps.CELL):
            for proj in ("TAN", "STG"):
                yield maps.discrete(*maps.DISC_A, rot=rot, proj=proj, builder=b)
                yield maps.dodeca(rot > 50, rot=rot, proj=proj, builder=b)
            yield maps.equat(4, (-3.0, 9.0), rot=rot, builder=b)
            if tier == "thorough":
                yield maps.rings(4, 33.0, rot=rot, builder=b)
                yield maps.healpix(0, rot=rot, builder=b)
                yield maps.equat(6, (-30.0, -9.0), rot=rot, builder=b, proj="TAN")


def close():
    """Tracts of one map whose centers are anything from a fraction of a pixel to minutes apart, and all of one position."""
    from .. import maps
    for gap in (0.0, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 4e-5, 1e-4, 1e-3, 1e-2):
        for ra, dec in ((10.0, 0.0), (359.9999, -45.0), (0.0, 89.99), (180.0, -89.0)):
            for b in (maps.LEG, maps.CELL):
                ras = [ra, ra, (ra + gap) % 360, ra, (ra + gap / 2) % 360]
                decs = [dec, dec + gap, dec, dec - gap, dec + gap / 2]
                yield maps.Spec("discrete", dict(raList=ras, decList=decs, radiusList=[.0005 * (1 + k % 2) for k in range(5)]),
                                dict(tractOverlap=0.0, pixelScale=.02, projection="TAN", rotation=0.0), b)


def scales():
    """Pixel scales from a third of a milliarcsecond to a degree, with many digits."""
    from .. import maps
    for scale in (.000321, .00123, .0123456, .19876543, .2, .33333, 1.0000321, 12.3456789, 99.99999, 777.123456789, 3600.54321):
        for proj, rot in (("TAN", 0.0), ("STG", 33.3333333)):
            r = scale * 31.7 / 3600
            yield maps.discrete([10.0, 359.99999, 0.0], [0.0, -45.678, 89.0], [r, r * .5, r * .3], ov=0.0, scale=scale, proj=proj, rot=rot, builder=maps.LEG0)


def scenarios(tier):
    from .. import maps
    for s in scales():
        yield "scale %r" % s, amap, (s, 8)
    for k, s in enumerate(close()):
        yield "close %d %r" % (k, s), amap, (s, 4)
    seen = set()
    for s in maps.menu(tier) + maps.real() + list(extra(tier)):
        if repr(s) not in seen:
            seen.add(repr(s))
            yield repr(s), amap, (s, 60 if tier == "thorough" else 12)
