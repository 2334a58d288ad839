ID = "C10"
RULE = ("state = (map, tract) or (minimum box, patch dimensions); transitions = extents and margins compared with the projected sky area; a trace = one tract")
BOUNDS = {"quick": "every tract of 27 maps of all 5 classes, of 8 default or survey configurations, plus 60 maps over overlap {0,0.5,4} x rotation x projection x builder; 5 tracts each of 96 maps of overlaps of .001 to 300 arcsec with pixels of .2 arcsec; 112 maps of overlaps wider than the tracts; 80 discrete maps of radii of 2e-6 to 44 degrees; small tracts with every minimum box 1..16 x 1..16 and inner 1..6 x 1..6",
          "thorough": "every tract of 245 + 180 maps; small tracts with every minimum box 1..30 x 1..30 and inner 1..9 x 1..9"}
ASSUMPTIONS = ["tract area by vertices is judged with circles of 98.5% of half the overlap (the code samples the circle at 24 bearings, which the documentation leaves open)"]


def margins(ctx, bb, need, inner, what):
    """bb: integer Box; need: (x0, y0, x1, y1) float pixel extent that must be held."""
    inner_need, full_need = need
    tol = 1e-3
    lo = (bb.t[0] - .5, bb.t[1] - .5)
    hi = (bb.t[2] + .5, bb.t[3] + .5)
    for k, ax in enumerate("xy"):
        ctx.step("axis", ax)
        ctx.check(lo[k] <= inner_need[k] + tol and hi[k] >= inner_need[k + 2] - tol,
                  "%s: tract %s range [%.3f, %.3f] does not hold the required [%.3f, %.3f]",
                  what, ax, lo[k], hi[k], inner_need[k], inner_need[k + 2])
        extra = (hi[k] - lo[k]) - (full_need[k + 2] - full_need[k])
        ctx.check(extra < inner[k] + 2, "%s: tract is %.3f pixels larger in %s than required (patch %d)", what, extra, ax, inner[k])
        mid = (hi[k] + lo[k]) / 2 - (full_need[k + 2] + full_need[k]) / 2
        ctx.check(abs(mid) <= 1.5 + 0.2 * (full_need[k + 2] - full_need[k] - inner_need[k + 2] + inner_need[k]),
                  "%s: required area is %.3f pixels off the middle of the tract in %s", what, mid, ax)


def extent(wcs, pts):
    from .. import maps
    xy = [wcs.skyToPixel(maps.spv(p)) for p in pts]
    xs, ys = [p.getX() for p in xy], [p.getY() for p in xy]
    return min(xs), min(ys), max(xs), max(ys)


def vertex_tract(ctx, spec, t):
    from .. import maps
    ref = maps.ref
    wcs = t.getWcs()
    need = []
    for f in (0.985, 1.0):
        pts = []
        for v in t.getVertexList():
            lon, lat = v.getLongitude().asRadians(), v.getLatitude().asRadians()
            if spec.overlap == 0:
                pts.append(ref.vec(lon, lat))
            else:
                pts += [ref.move(lon, lat, k * ref.PI / 90, f * spec.overlap / 2) for k in range(180)]
        need.append(extent(wcs, pts))
    if spec.cls == "equat" and spec.proj == "CEA":
        # the cut opposite the center is inside no tract of 3 or more; still skip tracts that reach it
        w = need[1][2] - need[1][0]
        if w * spec.scale > 2 * ref.PI * 0.95:
            return
    margins(ctx, maps.box(t.getBBox()), need, spec.inner(), "%s tract %d" % (spec.cls, t.getId()))


def explicit_tract(ctx, spec, t, radius):
    import math
    from .. import maps
    ref = maps.ref
    wcs = t.getWcs()
    c = t.getCtrCoord()
    lon, lat = c.getLongitude().asRadians(), c.getLatitude().asRadians()
    R = radius + spec.overlap
    what = "%s tract %d" % (spec.cls, t.getId())
    bb = maps.box(t.getBBox())
    # the points of the sky square that lie R along the four bearings
    e = extent(wcs, [ref.move(lon, lat, k * ref.PI / 2, R) for k in range(4)])
    margins(ctx, bb, (e, e), spec.inner(), what)
    # the whole square of half-size R
    half = (math.tan(R) if spec.proj == "TAN" else 2 * math.tan(R / 2)) / spec.scale
    p = wcs.skyToPixel(c)
    sq = (p.getX() - half, p.getY() - half, p.getX() + half, p.getY() + half)
    rot = spec.common.get("rotation", 0.0)
    inside = all(bb.t[k] - .5 <= sq[k] + 1e-3 and bb.t[k + 2] + .5 >= sq[k + 2] - 1e-3 for k in (0, 1))
    ctx.check(inside, "%s (rotation %g): tract %r does not hold the square of half-size radius + overlap: %s", what, rot, bb,
              tuple(round(v, 2) for v in sq), sig=None if rot % 90 == 0 else "explicit-tract-square-rotated-%g" % rot)


def whole(ctx, t, inner, what):
    from .. import maps
    n = t.getNumPatches()
    ctx.equal(maps.box(t.getBBox()).dims(), (int(n[0]) * inner[0], int(n[1]) * inner[1]), "size of %s of %rx%r patches of %rx%r", what, n[0], n[1], *inner)


def amap(ctx, spec, few=False):
    m = spec.make()
    lay = spec.layout() if spec.cls == "rings" else None
    for t in (m[i] for i in sorted({0, 1, len(m) // 3, len(m) // 2, len(m) - 1} & set(range(len(m))))) if few else m:
        ctx.begin(spec, "tract", t.getId())
        ctx.state(t.getId())
        whole(ctx, t, spec.inner(), "%s tract %d" % (spec.cls, t.getId()))
        ctx.check(abs(t.getTractOverlap().asRadians() - spec.overlap) < 1e-12, "tract overlap is %r", t.getTractOverlap())
        ctx.check(abs(t.tract_overlap.asRadians() - spec.overlap) < 1e-12, "tract overlap is %r", t.tract_overlap)
        if spec.cls == "discrete":
            explicit_tract(ctx, spec, t, spec.opts["radiusList"][t.getId()] * 3.141592653589793 / 180)
        elif lay is not None:
            explicit_tract(ctx, spec, t, lay.h / 2)
        else:
            vertex_tract(ctx, spec, t)
        ctx.end(tuple(t.getNumPatches()))


def small(ctx, ix, iy, n):
    from .. import small as sm
    from .. import maps
    b = sm.legacy(ix, iy, 1)
    for w in range(1, n + 1):
        for h in range(1, n + 1):
            for x0, y0 in ((0, 0), (-4, 9)):
                ctx.begin("min box", w, h, "at", x0, y0, "patch", ix, iy)
                ctx.state(w, h, x0)
                t = sm.tract(b, w, h, x0, y0)
                o = t.getWcs()
                need = (x0 - .3 + o.x0, y0 - .3 + o.y0, x0 + w - .7 + o.x0, y0 + h - .7 + o.y0)
                bb = maps.box(t.getBBox())
                whole(ctx, t, (ix, iy), "tract")
                for k, size, inner in ((0, w, ix), (1, h, iy)):
                    ctx.step("axis", k)
                    left = need[k] + .3 - bb.t[k]
                    right = bb.t[k + 2] - (need[k + 2] - .3)
                    ctx.check(left > -1e-6 and right > -1e-6, "tract %r does not hold the minimum box %r", bb, need)
                    ctx.check(left + right < inner - .5, "tract %r is a whole patch larger than %r", bb, need)
                    ctx.check(abs(left - right) < 1.5, "minimum box %r is not centered in %r", need, bb)
                ctx.end((w, h, ix, iy))


def extra(tier):
    from .. import maps
    big = tier == "thorough"
    for rot in (77.0, -135.0, 30.0, 20.0, -100.0, 90.0, -90.0, 180.0):
        yield maps.discrete(*maps.DISC_B, rot=rot, scale=97.0)
    yield maps.discrete(*maps.DISC_A, rot=77.0, scale=45.0, ov=0.33)
    yield maps.rings(4, rot=-45.0)
    for ov in (0.0, 0.5, 4.0):
        for rot in ((0.0, 90.0, 20.0, -135.0, 180.0, 270.0) if big else (0.0, 20.0)):
            for b in (maps.LEG, maps.LEG2) + ((maps.CELL2,) if big else ()):
                yield maps.dodeca(False, ov=ov, rot=rot, builder=b, npix=70)
                yield maps.dodeca(True, ov=ov, rot=rot, builder=b, npix=70, proj="TAN")
                yield maps.equat(5, (-4.0, 30.0), ov=ov, rot=rot, builder=b)
                yield maps.healpix(0, True, ov=ov, rot=rot, builder=b)
                yield maps.discrete(*maps.DISC_A, ov=ov, rot=rot, builder=b, scale=80.0)


def fine(tier):
    """Overlaps of arcseconds (or of half the sky) and pixels that are much smaller."""
    from .. import maps
    AS = 1 / 3600.
    for ov in (.001 * AS, .1 * AS, AS, 9 * AS, 11 * AS, 59 * AS, 61 * AS, 5 * 60 * AS):
        big = dict(patchInnerDimensions=(7, 5), patchBorder=10)
        for b in (("legacy", big), ("cells", dict(cellInnerDimensions=(3, 3), cellBorder=1, numCellsPerPatchInner=4, numCellsInPatchBorder=1))):
            c = dict(tractOverlap=ov, pixelScale=.2, rotation=0.0)
            yield maps.Spec("dodeca", dict(withTractsOnPoles=False), dict(c, projection="STG"), b)
            yield maps.Spec("healpix", dict(log2NSide=3, nest=False), dict(c, projection="STG", rotation=45.0), b)
            yield maps.Spec("healpix", dict(log2NSide=9, nest=True), dict(c, projection="TAN"), b)
            yield maps.Spec("equat", dict(numTracts=12, decRange=(-1.0, 2.0)), dict(c, projection="TAN"), b)
            yield maps.Spec("rings", dict(numRings=60, raStart=10.0), dict(c, projection="TAN"), b)
            yield maps.Spec("discrete", dict(raList=[10.0, 200.0], decList=[-5.0, 70.0], radiusList=[.001, .2]), dict(c, projection="TAN"), b)
    # overlaps that are wider than the tracts, the rings, the band or the HEALPix pixels
    for ov in (6.0, 11.0, 25.0, 53.0):
        for b in (("legacy", dict(patchInnerDimensions=(7, 5), patchBorder=3)), ("cells", dict(cellInnerDimensions=(3, 3), cellBorder=1, numCellsPerPatchInner=4, numCellsInPatchBorder=1))):
            for proj in ("STG", "TAN"):
                c = dict(tractOverlap=ov, pixelScale=3600.0, projection=proj, rotation=0.0)
                yield maps.Spec("healpix", dict(log2NSide=4, nest=False), dict(c, rotation=45.0), b)
                yield maps.Spec("healpix", dict(log2NSide=5, nest=True), dict(c, rotation=45.0), b)
                yield maps.Spec("rings", dict(numRings=40, raStart=10.0), c, b)
                yield maps.Spec("rings", dict(numRings=17, raStart=0.0), c, b)
                yield maps.Spec("equat", dict(numTracts=30, decRange=(-.5, .5)), c, b)
                yield maps.Spec("equat", dict(numTracts=18, decRange=(1.0, 4.0)), c, b)
                yield maps.Spec("discrete", dict(raList=[10.0, 200.0], decList=[-5.0, 70.0], radiusList=[.1, 3.0]), c, b)
    # tracts from a few milliarcseconds to a good part of the sky
    for k, r in enumerate((2e-6, 1e-5, 1e-4, 2.5e-4, 3e-3, .05, .7, 4.0, 20.0, 44.0)):
        for proj in ("TAN", "STG"):
            for b in (("legacy", dict(patchInnerDimensions=(7, 5), patchBorder=3)),
                      ("cells", dict(cellInnerDimensions=(3, 3), cellBorder=1, numCellsPerPatchInner=4, numCellsInPatchBorder=1))):
                for ov in (0.0, r / 10):
                    yield maps.Spec("discrete", dict(raList=[10.0, 359.999], decList=[-5.0, 70.0], radiusList=[r, r * 1.3]),
                                    dict(tractOverlap=ov, pixelScale=r * 3600 / 60, rotation=0.0, projection=proj), b)


def scenarios(tier):
    from .. import maps
    big = tier == "thorough"
    m, n = (9, 30) if big else (6, 16)
    for ix in range(1, m + 1):
        for iy in range(1, m + 1):
            yield "small %dx%d" % (ix, iy), small, (ix, iy, n)
    seen = set()
    for s in maps.menu(tier) + maps.real() + list(extra(tier)):
        if repr(s) not in seen:
            seen.add(repr(s))
            yield repr(s), amap, (s,)
    for s in fine(tier):
        yield "fine %r" % s, amap, (s, True)
