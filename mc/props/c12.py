ID = "C12"
RULE = ("state = (map, tract, patch, cell, region kind, WCS); transitions = polygons compared vertex by vertex with the box corners seen through the WCS; a trace = one tract")
BOUNDS = {"quick": "every tract of 27 maps of all 5 classes; every patch of up to 40 tracts per map, every cell of 5 patches per tract; inner/outer x own/explicit WCS x getter/property; 60 explicit WCSs made and dropped in turn; small tracts",
          "thorough": "every tract of 237 maps; every patch of up to 200 tracts per map, every cell of 12 patches per tract"}
ASSUMPTIONS = ["lsst.sphgeom is the real library"]


def corners(bb, wcs):
    from .. import maps
    from ..ref import corners as cs
    out = []
    for x, y in cs(bb):
        s = wcs.pixelToSky(maps.geom.Point2D(x, y))
        out.append(maps.tov(s))
    return out


def compare(ctx, poly, bb, wcs, what, tol):
    """poly: function returning the polygon to judge."""
    from .. import ref
    import math
    want = corners(bb, wcs)
    if not all(math.isfinite(c) for v in want for c in v):
        return              # a corner outside the projection: there is no such polygon
    poly = poly()
    got = [(v.x(), v.y(), v.z()) for v in poly.getVertices()]
    ctx.equal(len(got), 4, "%s: number of vertices" % what)
    left = list(want)
    for v in got:
        k = min(range(len(left)), key=lambda i: ref.sep(left[i], v))
        d = ref.sep(left[k], v)
        ctx.check(math.isfinite(d) and d <= tol, "%s: vertex %r is %.3g rad from the nearest unmatched corner of %r", what, v, d, bb)
        left.pop(k)


def amap(ctx, spec, ntract, npatch):
    from .. import maps
    m = spec.make()
    other = maps.discrete([77.0], [11.0], [0.4], scale=50.0, rot=25.0).make()[0].getWcs()
    step = max(1, len(m) // ntract)
    for t in m:
        ctx.begin(spec, "tract", t.getId())
        wcs = t.getWcs()
        tol = max(1e-12, spec.scale * 1e-5)
        bb = maps.box(t.getBBox())
        ctx.state(t.getId())
        ctx.step("outer polygon of the tract")
        compare(ctx, lambda: t.getOuterSkyPolygon(), bb, wcs, "getOuterSkyPolygon of tract %d" % t.getId(), tol)
        compare(ctx, lambda: t.outer_sky_polygon, bb, wcs, "outer_sky_polygon of tract %d" % t.getId(), tol)
        if t.getId() % step == 0 or t.getId() == len(m) - 1:
            n = len(t)
            ks = {int(round(i * (n - 1) / (npatch - 1))) for i in range(npatch)}
            for k, p in enumerate(t):
                region(ctx, p, wcs, other, tol, "tract %d patch %d" % (t.getId(), k))
                if k in ks:
                    for c in p:
                        region(ctx, c, wcs, other, tol, "tract %d patch %d cell %r" % (t.getId(), k, tuple(c.getIndex())))
        ctx.end()


def region(ctx, p, wcs, other, tol, what):
    from .. import maps
    ib, ob = maps.box(p.getInnerBBox()), maps.box(p.getOuterBBox())
    ctx.state(what)
    ctx.step(what)
    compare(ctx, lambda: p.getInnerSkyPolygon(), ib, wcs, "inner polygon of " + what, tol)
    compare(ctx, lambda: p.getOuterSkyPolygon(), ob, wcs, "outer polygon of " + what, tol)
    compare(ctx, lambda: p.inner_sky_polygon, ib, wcs, "inner_sky_polygon of " + what, tol)
    compare(ctx, lambda: p.outer_sky_polygon, ob, wcs, "outer_sky_polygon of " + what, tol)
    compare(ctx, lambda: p.getInnerSkyPolygon(wcs), ib, wcs, "inner polygon with the tract WCS of " + what, tol)
    compare(ctx, lambda: p.getOuterSkyPolygon(wcs), ob, wcs, "outer polygon with the tract WCS of " + what, tol)
    if ob.t[2] - ob.t[0] < 2000:
        compare(ctx, lambda: p.getInnerSkyPolygon(other), ib, other, "inner polygon with an explicit WCS of " + what, 1e-9)
        compare(ctx, lambda: p.getOuterSkyPolygon(tractWcs=other), ob, other, "outer polygon with an explicit WCS of " + what, 1e-9)


def transient(ctx, spec, count):
    """Explicit WCSs that exist only for one call; each answer is about its own WCS."""
    import gc
    from .. import maps
    m = spec.make()
    deg = maps.geom.degrees
    from lsst.skymap.detail import WcsFactory
    fac = WcsFactory(maps.geom.Angle(30.0, maps.geom.arcseconds), "TAN")
    for t in m:
        p = t[len(t) - 1]
        regions = [("patch", p)] + ([("cell", p[len(p) - 1])] if len(p) > 1 else [])
        for what, q in regions:
            ib, ob = maps.box(q.getInnerBBox()), maps.box(q.getOuterBBox())
            for k in range(count):
                def new():
                    return fac.makeWcs(maps.geom.Point2D(0, 0), maps.geom.SpherePoint(3.0 * k * deg, (k % 7 - 3) * 10.0 * deg))
                ctx.begin(spec, "tract", t.getId(), what, k)
                ctx.state(t.getId(), what, k)
                ctx.step("polygons with a WCS made for the call")
                compare(ctx, lambda: q.getInnerSkyPolygon(new()), ib, new(), "inner polygon of a %s with the %d-th temporary WCS" % (what, k), 1e-9)
                compare(ctx, lambda: q.getOuterSkyPolygon(new()), ob, new(), "outer polygon of a %s with the %d-th temporary WCS" % (what, k), 1e-9)
                if k % 10 == 0:
                    compare(ctx, lambda: q.getInnerSkyPolygon(), ib, t.getWcs(), "inner polygon of a %s after %d temporary WCSs" % (what, k), max(1e-12, spec.scale * 1e-5))
                    gc.collect()
                ctx.end((what, k))


def small(ctx, kind):
    from .. import small as sm
    from .. import maps
    for px, py in ((1, 1), (2, 3), (4, 2)):
        for nb in (0, 1, 2):
            b, w, h = (sm.legacy(5, 3, 2 * nb), 5 * px, 3 * py) if kind == "legacy" else (sm.cells(2, 3, nb, 1), 6 * px, 6 * py)
            t = sm.tract(b, w, h, 20, -7)
            ctx.begin(kind, px, py, nb)
            wcs, other = t.getWcs(), sm.PlateWcs(5.0, -3.0)
            compare(ctx, lambda: t.getOuterSkyPolygon(), maps.box(t.getBBox()), wcs, "tract", 1e-12)
            for p in t:
                region(ctx, p, wcs, other, 1e-12, "%s %r patch %r" % (kind, (px, py, nb), tuple(p.getIndex())))
                for c in p:
                    region(ctx, c, wcs, other, 1e-12, "%s %r patch %r cell %r" % (kind, (px, py, nb), tuple(p.getIndex()), tuple(c.getIndex())))
            ctx.end((kind, px, py, nb))


def scenarios(tier):
    from .. import maps
    yield "small legacy", small, ("legacy",)
    yield "small cells", small, ("cells",)
    for s in (maps.discrete(*maps.DISC_A), maps.discrete(*maps.DISC_B, builder=maps.CELL)):
        yield "transient %s" % s, transient, (s, 400 if tier == "thorough" else 60)
    for s in maps.menu(tier):
        yield repr(s), amap, ((s, 200, 12) if tier == "thorough" else (s, 40, 5))
