ID = "C17"
RULE = ("state = (tract, WCS failure kind, pixel or sky position); transitions = contains and findPatch calls compared with the pixel model; a trace = one position")
BOUNDS = {"quick": "rows and columns of 40 patches of every size to 220 pixels, and 12 usual sizes; small tracts up to 4x3 patches: every pixel of the tract and of a 3-pixel frame at 3 sub-pixel positions; 4 maps of tracts of 15 milliarcseconds to 4 arcseconds: every pixel in and around; 27 maps: all patch corners and edges (+-0.3 pixel, also +-0.003 to +-0.00003 in the middle row and column, and with every other at the outermost) of up to 14 tracts, every tract center and pole seen from every such tract; 7 maps of 257 to 768 tracts or of large tracts; 8 default or survey maps and 3 with tracts of 66000 to 360000 pixels across; x 3 kinds of WCS failure; 25 tracts of up to 2^30 pixels a side, patches next to every power of two",
          "thorough": "patch sizes to 600; small tracts up to 6x5 patches; 237 maps, up to 80 tracts each"}
ASSUMPTIONS = ["positions within 1e-5 pixel of a pixel edge are not judged", "the WCS reports an unmappable position by nan, DomainError or RuntimeError"]
MODES = ("nan", "domain", "runtime")


def judge(ctx, t, coord, pix, what):
    """pix: (x, y) or None if the position has no pixel."""
    import math
    from .. import maps
    bb = maps.box(t.getBBox())
    ctx.step(what)
    inside = False
    if pix is not None:
        x, y = pix
        if min(abs((v + .5) - round(v + .5)) for v in pix) < 1e-5:
            return
        # the pixel x lies in is the nearest integer
        i, j = (int(math.floor(v + .5)) if abs(v) < 1e15 else None for v in pix)
        inside = i is not None and j is not None and bb.t[0] <= i <= bb.t[2] and bb.t[1] <= j <= bb.t[3]
    c = t.contains(coord)
    ctx.check(bool(c) == inside, "tract %r: contains(%s, pixel %r) is %r, tract box %r", t.getId(), what, pix, c, bb)
    if inside:
        p = t.findPatch(coord)
        b = maps.box(p.getInnerBBox())
        ctx.check(b.t[0] <= i <= b.t[2] and b.t[1] <= j <= b.t[3], "tract %r: findPatch(%s, pixel %r) is patch %r with inner box %r",
                  t.getId(), what, pix, tuple(p.getIndex()), b)
        ctx.equal(maps.describe_patch(p), maps.describe_patch(t[tuple(p.getIndex())]), "findPatch(%s) and patch of that index", what)
        ctx.end(tuple(p.getIndex()))
    else:
        ctx.raises(LookupError, lambda: t.findPatch(coord), "tract %r: findPatch(%s, pixel %r)" % (t.getId(), what, pix))
        ctx.end("outside" if pix else "unmappable")


def amap(ctx, spec, mode, ntract):
    import math
    from .. import maps
    ref = maps.ref
    m = spec.make()
    n = len(m)
    step = max(1, n // ntract)
    far = [c for t in m for c in [t.getCtrCoord()]]
    far = far[::max(1, n // 40)] + [maps.sp(0, ref.PI / 2), maps.sp(1, -ref.PI / 2), maps.sp(0, 0), maps.sp(3, .1)]
    far = [maps.tov(c) for c in far]
    far += [tuple(-a for a in v) for v in far]
    idx = sorted(set(range(0, n, step)) | {n - 1})
    try:
        for k in idx:
            t = m[k]
            bb = maps.box(t.getBBox())
            wcs = t.getWcs()
            ix, iy = spec.inner()
            xs = sorted({v + d for v in range(bb.t[0], bb.t[2] + 2, ix) for d in (-.8, -.2)} | {(bb.t[0] + bb.t[2]) / 2 + .1})
            ys = sorted({v + d for v in range(bb.t[1], bb.t[3] + 2, iy) for d in (-.8, -.2)} | {(bb.t[1] + bb.t[3]) / 2 + .1})
            if len(xs) * len(ys) > 500:
                xs = xs[:4] + xs[len(xs) // 2:len(xs) // 2 + 3] + xs[-4:]
                ys = ys[:4] + ys[len(ys) // 2:len(ys) // 2 + 3] + ys[-4:]
            # closer to the edges
            mid = [(bb.t[q] + bb.t[q + 2]) / 2 + .1 for q in (0, 1)]
            fine = (-.503, -.497, -.5004, -.4996, -.50003, -.49997)
            fines = [(v + d, mid[1]) for v in {round(a) for a in xs} for d in fine] + [(mid[0], v + d) for v in {round(a) for a in ys} for d in fine]
            near = (-.503, -.497, -.5004, -.4996)
            xs += [v + d for v in (bb.t[0], bb.t[2] + 1) for d in near]
            ys += [v + d for v in (bb.t[1], bb.t[3] + 1) for d in near]
            c = maps.tov(t.getCtrCoord())
            vecs = [(x, y) for x in xs for y in ys] + fines
            maps.afwgeom.FAIL_MODE = "nan"
            sky = [(wcs.pixelToSky(maps.geom.Point2D(x, y)), "pixel (%.5f, %.5f)" % (x, y)) for x, y in vecs]
            sky += [(maps.spv(v), "far %.5f %.5f" % ref.lonlat(v)) for v in far]
            anti = ref.lonlat(tuple(-a for a in c))
            for e in (0, 1e-12, 1e-7, 1e-4, 1e-3, .02):
                for b in range(4):
                    sky.append((maps.spv(ref.move(anti[0], anti[1], .3 + b * 1.6, e)), "antipode+%g/%d" % (e, b)))
                    lon, lat = ref.lonlat(c)
                    sky.append((maps.spv(ref.move(lon, lat, .3 + b * 1.6, ref.PI / 2 + e)), "horizon+%g/%d" % (e, b)))
                    sky.append((maps.spv(ref.move(lon, lat, .3 + b * 1.6, ref.PI / 2 - e)), "horizon-%g/%d" % (e, b)))
            pix = []
            for s, what in sky:
                p = wcs.skyToPixel(s)
                pix.append((p.getX(), p.getY()) if math.isfinite(p.getX()) and math.isfinite(p.getY()) else None)
            maps.afwgeom.FAIL_MODE = mode
            for (s, what), p in zip(sky, pix):
                if not math.isfinite(s.getLongitude().asRadians()):
                    continue
                ctx.begin(spec, mode, "tract", k)
                ctx.state(k, what)
                judge(ctx, t, s, p, what)
    finally:
        maps.afwgeom.FAIL_MODE = "nan"


def small(ctx, kind, px, py):
    from .. import maps
    from .. import small as sm
    for inner in ((3, 2), (1, 4), (5, 5)) if kind == "legacy" else ((2, 2), (1, 3)):
        b, ix, iy = (sm.legacy(inner[0], inner[1], 2),) + inner if kind == "legacy" else \
            (sm.cells(inner[0], inner[1], 1, 1), inner[0] * inner[1], inner[0] * inner[1])
        t = sm.tract(b, px * ix, py * iy, -6, 11)
        w, h = px * ix, py * iy
        for x in range(-3, w + 3):
            for y in range(-3, h + 3):
                for dx, dy in ((.01, -.02), (-.49, .49), (.49, -.49)):
                    ctx.begin(kind, px, py, inner)
                    ctx.state(inner, x, y, dx)
                    judge(ctx, t, t.getWcs().pixelToSky(maps.geom.Point2D(x + dx, y + dy)), (x + dx, y + dy), "pixel (%d%+g, %d%+g)" % (x, dx, y, dy))


def vast(ctx, b, w, h):
    from .. import maps, small as sm
    t, inner, border, n, pairs = sm.vast(ctx, b, w, h)
    wcs = t.getWcs()
    for i, j in pairs + [(-1, 0), (0, -1), n, (n[0], 0), (0, n[1])]:
        for fx, fy in ((.1, .1), (.5, .9), (.97, .03)):
            x, y = int((i + fx) * inner[0]) + .25, int((j + fy) * inner[1]) - .25
            ctx.begin("vast", b, w, h)
            ctx.state(b, w, h, i, j, fx)
            judge(ctx, t, wcs.pixelToSky(maps.geom.Point2D(x, y)), (x, y), "pixel (%r, %r)" % (x, y))



def tiny(ctx, spec, frame):
    """Tracts of arcseconds and milliarcseconds: every pixel of the tract and around it."""
    from .. import maps
    for t in spec.make():
        x0, y0, x1, y1 = maps.box(t.getBBox()).t
        wcs = t.getWcs()
        for x in range(x0 - frame, x1 + frame + 1):
            for y in range(y0 - frame, y1 + frame + 1):
                for dx, dy in ((.05, -.1), (-.45, .45), (.45, -.45)):
                    p = (x + dx, y + dy)
                    ctx.begin(spec, "tract", t.getId())
                    ctx.state(t.getId(), x, y, dx)
                    judge(ctx, t, wcs.pixelToSky(maps.geom.Point2D(*p)), p, "pixel (%r, %r)" % p)


def strips(ctx, sizes, count):
    """Rows of patches of every size: the first and last pixels of each patch."""
    from .. import maps, small as sm
    for s in sizes:
        t = sm.tract(sm.legacy(s, s + 1, 1), s * count, 2 * s + 2, -s * count // 2, -s, step=100. / (s * count))
        u = sm.tract(sm.legacy(s + 1, s, 1), 2 * s + 2, s * count, -s, -s * count // 2, step=100. / (s * count))
        for k in range(count):
            for x in (k * s - .3, k * s + .01, k * s + s - 1 + .3):
                ctx.begin("size", s)
                ctx.state(s, k, x)
                judge(ctx, t, t.getWcs().pixelToSky(maps.geom.Point2D(x, 3.2)), (x, 3.2), "column %r" % x)
                judge(ctx, u, u.getWcs().pixelToSky(maps.geom.Point2D(3.2, x)), (3.2, x), "row %r" % x)


def scenarios(tier):
    from .. import maps
    big = tier == "thorough"
    for kind in ("legacy", "cells"):
        for px in range(1, 7 if big else 5):
            for py in range(1, 6 if big else 4):
                yield "small %s %dx%d" % (kind, px, py), small, (kind, px, py)
    for s in maps.real() + maps.huge():
        for mode in MODES if big else ("nan",):
            yield "large %s %s" % (mode, s), amap, (s, mode, 12 if big else 3)
    for s in maps.many():
        yield "many %s" % s, amap, (s, "nan", 4)
    for scale, inner in ((.2, 3), (.2, 7), (.02, 5), (.003, 4)):
        r = scale * inner * 1.3 / 3600
        s = maps.discrete([5.0, 359.99999, 0.0], [0.0, -45.678, 89.0], [r, r * .5, r * .3], ov=0.0, scale=scale, builder=("legacy", dict(patchInnerDimensions=(inner, inner), patchBorder=1)))
        yield "tiny %s" % s, tiny, (s, 4)
    for s in maps.menu(tier):
        for mode in MODES:
            yield "%s %s" % (mode, s), amap, (s, mode, 80 if big else 14)
    for k in range(1, 601 if big else 221, 20):
        yield "strips of %d" % k, strips, (range(k, k + 20), 40)
    yield "strips of usual sizes", strips, ((400, 1000, 1024, 2000, 3000, 3400, 3999, 4000, 4001, 4096, 4100, 4200), 40)
    from .. import small as sm
    for name, args in sm.vasts(tier):
        yield name, vast, args
