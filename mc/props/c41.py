ID = "C41"
RULE = ("state = (scale, rotation, flip, projection, reference pixel, reference position); transitions = WCSs made by the factory, compared with the projection model at positions around the reference; "
        "a trace = one factory with all WCSs made from it, in two orders")
BOUNDS = {"quick": "5 scales x 20 rotations x 2 flips x 3 projections x 5 reference pixels x 11 reference positions (CEA: 4 on the equator); 8 directions x 3 distances each; arguments by position, by name and left out",
          "thorough": "8 scales x 47 rotations x 2 flips x 3 projections x 9 reference pixels x 23 reference positions"}
ASSUMPTIONS = ["makeCdMatrix/makeSkyWcs of lsst.afw.geom as in the shim (compared with wcslib by tools/shim_conformance.py)"]
ORACLE = "Oracle: ref.Proj, mirrored in x when flipped."


def check(ctx, w, model, flip, crpix, lon, lat, scale, what):
    from .. import maps
    ref, geom = maps.ref, maps.geom
    ctx.step(what)
    o = w.skyToPixel(maps.sp(lon, lat))
    ctx.check(abs(o.getX() - crpix[0]) < 1e-6 and abs(o.getY() - crpix[1]) < 1e-6, "%s: reference position has pixel %r, expected %r", what, (o.getX(), o.getY()), crpix)
    back = w.pixelToSky(geom.Point2D(*crpix))
    ctx.check(ref.sep(maps.tov(back), ref.vec(lon, lat)) < 1e-10, "%s: reference pixel is at %r", what, back)
    for k in range(8):
        for px in (1.0, 30.0, min(4000.0, .3 / scale)):
            v = ref.move(lon, lat, k * ref.PI / 4 + .05, px * scale)
            want = model.pix(v)
            got = w.skyToPixel(maps.spv(v))
            dx, dy = (-want[0] if flip else want[0]), want[1]
            tol = 1e-6 * max(1.0, px) + 1e-6
            ctx.check(abs(got.getX() - crpix[0] - dx) < tol and abs(got.getY() - crpix[1] - dy) < tol,
                      "%s: a position %g pixels away has pixel offset (%.6f, %.6f), expected (%.6f, %.6f)", what, px, got.getX() - crpix[0], got.getY() - crpix[1], dx, dy)


def factory(ctx, sc, rots, proj, crpixs, crvals):
    import math
    from .. import maps
    from lsst.skymap.detail import WcsFactory
    ref, geom = maps.ref, maps.geom
    scale = sc / 3600 * maps.DEG
    ang = sc * geom.arcseconds
    for rot in rots:
        for flip in (False, True):
            forms = [lambda: WcsFactory(ang, proj, rot * geom.degrees, flip),
                     lambda: WcsFactory(pixelScale=ang, projection=proj, rotation=math.radians(rot) * geom.radians, flipX=flip)]
            if not flip:
                forms.append(lambda: WcsFactory(ang, proj, rotation=rot * geom.degrees))
            if rot == 0 and not flip:
                forms.append(lambda: WcsFactory(ang, proj))
            for f, form in enumerate(forms):
                fac = form()
                ctx.begin(sc, rot, flip, proj, f)
                made = []
                for a, (lon, lat) in enumerate(crvals):
                    for b, c in enumerate(crpixs):
                        if f and (a + b) % 3:
                            continue
                        ctx.state(sc, rot, flip, proj, c, lon, lat)
                        args = (geom.Point2D(*c), maps.sp(lon, lat))
                        w = fac.makeWcs(*args) if b % 2 else fac.makeWcs(crPixPos=args[0], crValCoord=args[1])
                        m = ref.Proj(proj, lon, lat, scale, rot * maps.DEG)
                        made.append((w, m, c, lon, lat))
                        what = "%s %g\" rotation %g%s at pixel %r, (%.4f, %.4f)" % (proj, sc, rot, " flipped" if flip else "", c, lon, lat)
                        check(ctx, w, m, flip, c, lon, lat, scale, what)
                for w, m, c, lon, lat in made[::7]:
                    check(ctx, w, m, flip, c, lon, lat, scale, "after making others: %g, %g" % (lon, lat))
                ctx.end((sc, rot, flip, proj, f))


def scenarios(tier):
    from .. import maps
    big = tier == "thorough"
    D = maps.DEG
    scales = [.000321, .05, .2003001, 20.0, 1000.0] + ([.333, 1.0, 160.0] if big else [])
    rots = [0, 1, 30, 45, 60, 89.5, 90, 135, 180, 200, 270, 359, -1, -45, -90, -170, 33.3333333, -122.0004321, .00071, 179.99954]
    if big:
        rots += list(range(10, 360, 13)) + [0.001]
    pix = [(0, 0), (10.5, -3.25), (-200, 7), (12345, 6789), (0.5, 0.5)] + ([(1, 1), (-.5, 0), (3, 100000), (-1e5, -1e5)] if big else [])
    vals = [(0, 0), (10, 20), (359.999, -.001), (180, 45), (123.4, -89), (250, 89.9), (0, 90), (0, -90), (90, -30), (270, 60), (45, 1e-6)]
    if big:
        vals += [(lo, la) for lo in (33, 171, 299) for la in (-70, -10, 33, 80)]
    vals = [(a * D, b * D) for a, b in vals]
    cea = [(0.0, 0.0), (45 * D, 0.0), (200.5 * D, 0.0), (359.99 * D, 0.0)]
    for sc in scales:
        for proj in ("TAN", "STG", "CEA"):
            for i in range(0, len(rots), 4):
                yield "%s %g %d" % (proj, sc, i), factory, (sc, rots[i:i + 4], proj, pix, cea if proj == "CEA" else vals)
