ID = "C15"
RULE = ("state = (numRings, raStart, tract or position); transitions = ring indices, centers, ranges and regions compared with the layout model; "
        "a trace = one tract, or one position located in the regions")
BOUNDS = {"quick": "tract counts of every numRings 1..160, both versions; every numRings 1..24, 45 and 120 x raStart {0, 0.25, 123.4, 359.999}; every tract; 8-13 positions per tract located in the regions of all tracts (numRings <= 10)",
          "thorough": "tract counts of numRings 1..240; every numRings 1..60 and 120 x 8 raStart; positions located for numRings <= 16"}
ASSUMPTIONS = ["where the circumference is a whole number of ring heights, rounding decides between two counts of tracts: on the equator (even "
               "numRings) the released code's count is required, because another one would renumber the tracts of existing maps; in the few "
               "other rings where it happens (60 degrees for numRings 8, 14, ...) either count is accepted"]
# Even numRings for which 2 pi/(pi/(numRings + 1)) is just below 2(numRings + 1) in double precision.
ROUNDED_DOWN = (24, 40, 62, 94, 124, 192, 234)


def amap(ctx, n, ra0, locate):
    import math
    from .. import lookup, maps
    ref = maps.ref
    spec = maps.rings(n, ra0, ov=0.5, npix=30)
    m = spec.make()
    lay = lookup.adopt(spec, m)
    ctx.begin("numRings", n, "raStart", ra0)
    ctx.equal(len(m), lay.total, "number of tracts")
    tab = lay.table()
    for i, (r, t) in enumerate(tab):
        ctx.state(i)
        ctx.step("tract", i)
        ctx.equal(tuple(int(v) for v in m.getRingIndices(i)), (r, t), "ring indices of tract %d", i)
        c = maps.tov(m[i].getCtrCoord())
        ctx.check(ref.sep(c, ref.vec(*lay.center(r, t))) < 1e-9, "center of tract %d (ring %d, %d) is %r, expected %r rad", i, r, t,
                  ref.lonlat(c), lay.center(r, t))
        a0, a1, d0, d1 = (v.asRadians() for v in m.getRaDecRange(i))
        w0, w1, e0, e1 = lay.rarange(r, t)
        ctx.check(abs(d0 - e0) < 1e-9 and abs(d1 - e1) < 1e-9, "Dec range of tract %d is (%r, %r), expected (%r, %r)", i, d0, d1, e0, e1)
        if r in (-1, n):
            ctx.check(abs(a0) < 1e-9 and abs(a1 - 2 * math.pi) < 1e-9, "RA range of cap %d is (%r, %r)", i, a0, a1)
        else:
            for a, w in ((a0, w0), (a1, w1)):
                d = (a - w) % (2 * math.pi)
                ctx.check(min(d, 2 * math.pi - d) < 1e-9, "RA range of tract %d is (%r, %r), expected (%r, %r)", i, a0, a1, w0, w1)
                ctx.check(-1e-12 <= a < 2 * math.pi + 1e-12, "RA %r of tract %d is not in [0, 2 pi)", a, i)
        b = m[i].getInnerSkyRegion()
        lon, lat = b.getLon(), b.getLat()
        ctx.check(abs(lat.getA().asRadians() - e0) < 1e-9 and abs(lat.getB().asRadians() - e1) < 1e-9, "inner region %r of tract %d", b, i)
        ctx.check(abs(lon.getSize().asRadians() - (w1 - w0)) < 1e-8, "RA extent of the inner region %r of tract %d (expected %.10f)", b, i, w1 - w0)
        d = (lon.getCenter().asRadians() - (w0 + w1) / 2) % (2 * math.pi)
        if r not in (-1, n):
            ctx.check(min(d, 2 * math.pi - d) < 1e-9, "inner region %r of tract %d is not centered", b, i)
        ctx.check(m[i].inner_sky_region == b, "inner_sky_region property differs from getInnerSkyRegion")
        ctx.end((n, r, t))
    for i in (-1, -2, lay.total, lay.total + 1, 2 * lay.total):
        ctx.step("ring indices", i)
        ctx.raises(IndexError, lambda: m.getRingIndices(i), "getRingIndices(%d) of %d tracts" % (i, lay.total))
    if locate:
        from lsst.sphgeom import LonLat, NormalizedAngle, Angle
        regions = [t.getInnerSkyRegion() for t in m]
        for lon, lat, r, t in maps.rings_positions(lay, True):
            if abs(lat) > math.pi / 2 - 1e-9:
                continue
            ctx.begin("numRings", n, "raStart", ra0)
            ctx.step("locate", lon, lat)
            ctx.state(lon, lat)
            ll = LonLat(NormalizedAngle(lon), Angle(lat))
            got = [i for i, b in enumerate(regions) if b.contains(ll)]
            ctx.equal(got, lay.index_of(r, t), "tracts whose inner region holds (%.10f, %.10f) rad", lon, lat)
            ctx.end(got[0])


def counts(ctx, ns):
    from .. import lookup, maps
    for n in ns:
        for version in (0, 1):
            spec = maps.rings(n, 0.0, ov=0.5, npix=30)
            spec.version = version
            m = spec.make()
            lay = lookup.adopt(spec, m)
            ctx.begin("numRings", n, "version", version)
            ctx.state(n, version)
            ctx.step("count", n)
            ctx.equal(len(m), 2 + sum(lay.nums), "number of tracts for numRings=%d", n)
            if n % 2 == 0:
                ctx.equal(list(lay.nums[n // 2 - 1:n // 2 + 1]), [2 * (n + 1) + (n not in ROUNDED_DOWN)] * 2,
                          "tracts in the equatorial rings for numRings=%d", n)
            ctx.end((n, version, tuple(lay.nums)))


def scenarios(tier):
    big = tier == "thorough"
    top = 240 if big else 160
    for k in range(1, top + 1, 20):
        yield "counts %d..%d" % (k, k + 19), counts, (list(range(k, min(k + 19, top) + 1)),)
    for n in list(range(1, 61 if big else 25)) + ([120] if big else [45, 120]):
        for ra0 in ((0.0, 0.25, 123.4, 359.999, 180.0, 1e-9, 45.0, 300.1) if big else (0.0, 0.25, 123.4, 359.999)):
            if n == 120 and ra0 not in (0.0, 123.4):
                continue
            yield "numRings %d raStart %g" % (n, ra0), amap, (n, ra0, n <= (16 if big else 10))
