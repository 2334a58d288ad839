ID = "C13"
RULE = ("state = (map, position); transitions = findTract calls compared with the layout model (rings), the pixel (HEALPix) or the nearest center; "
        "a trace = one position queried in every representation")
BOUNDS = {"quick": "27 small maps, 7 maps of 257 to 768 tracts or of large tracts, 8 default or survey maps, and rings maps with numRings 1..24 and 120 x raStart {0,0.25,77.7,359.999}; HEALPix maps to log2NSide 9 at pixels next to poles and base-pixel boundaries; positions: centers, both sides (2e-9 rad) of every boundary, corners, poles, RA 0/360, grid; RA also +-360 deg",
          "thorough": "237 + 8 maps, HEALPix to log2NSide 12, numRings 1..60 and 120 x 8 raStart; 3x denser positions"}
ASSUMPTIONS = ["positions closer than 2e-9 rad to a boundary are not judged"]


def amap(ctx, spec, fine):
    import math
    from .. import lookup, maps
    spec = lookup.spec_opts(spec)
    m = spec.make()
    for k, (lon, lat, want) in enumerate(lookup.owners(spec, m, fine)):
        ctx.begin(spec)
        ctx.state(round(lon, 9), round(lat, 9))
        for dl in ((0, 2 * math.pi, -2 * math.pi, 4 * math.pi) if k % 5 == 0 else (0,)):
            ctx.step("findTract", "%.9f" % (lon + dl), "%.9f" % lat)
            t = m.findTract(maps.sp(lon + dl, lat))
            i = t.getId()
            ctx.check(i in want, "findTract(ra=%.10f, dec=%.10f rad) is tract %r, expected %r", lon + dl, lat, i, sorted(want))
            ctx.check(t is m[i] or t.getId() == m[i].getId(), "findTract returned another tract object")
        ctx.end(i)


def resolved(ctx, order, nest):
    """A HEALPix map of high resolution: the centers of pixels at the poles, along every ring boundary and the base-pixel corners."""
    import hpgeom
    import math
    from .. import maps
    s = maps.healpix(order, nest, npix=12)
    m = s.make()
    nside = 2 ** order
    n = 12 * nside * nside
    ctx.equal(len(m), n, "number of tracts")
    ring = set()
    for r in sorted({1, 2, 3, nside - 1, nside, nside + 1, 2 * nside, 3 * nside, 3 * nside + 1, 4 * nside - 3, 4 * nside - 2, 4 * nside - 1} & set(range(1, 4 * nside))):
        k = 4 * min(r, nside, 4 * nside - r)           # pixels of the ring
        first = 2 * r * (r - 1) if r <= nside else 2 * nside * (nside - 1) + (r - nside) * 4 * nside
        if r > 3 * nside:
            first = n - 2 * (4 * nside - r) * (4 * nside - r + 1)
        ring |= {first, first + 1, first + k // 4, first + k // 2, first + k - 1}
    ctx.check(all(0 <= i < n for i in ring), "pixel numbers of the model")
    ids = {int(hpgeom.ring_to_nest(nside, i)) for i in ring} if nest else ring
    for i in sorted(ids):
        ctx.begin(s)
        ctx.step("center of", i)
        ctx.state(i)
        t = m[i]
        ctx.equal(int(t.getId()), i, "ID of tract %d", i)
        c = t.getCtrCoord()
        ctx.equal(int(m.findTract(c).getId()), i, "tract found at the center %s of tract %d", c, i)
        ctx.equal(list(m.findTractIdArray([c.getLongitude().asRadians()], [c.getLatitude().asRadians()])), [i], "findTractIdArray at the center of tract %d", i)
        ctx.end(i)
    # the package counts colatitude from the south pole
    polar = {-1: range(4), 1: range(n - 4, n)}
    for lat in (math.pi / 2, -math.pi / 2):
        for lon in (0.0, .1, 1.5, 1.6, 3.2, 4.8, 6.2):
            ctx.begin(s)
            ctx.step("pole", lat, lon)
            got = int(m.findTract(maps.sp(lon, lat)).getId())
            want = [int(hpgeom.ring_to_nest(nside, i)) if nest else i for i in polar[1 if lat > 0 else -1]]
            ctx.check(got in want, "tract at the pole %r is %d, expected one of %r", lat, got, want)
            ctx.end(got)


def centers(ctx, spec, stride):
    """The center of every tract of a map that divides the sky is found in that tract."""
    m = spec.make()
    n = len(m)
    for i in sorted(set(range(0, n, stride)) | {0, 1, n - 2, n - 1}):
        if not 0 <= i < n:
            continue
        ctx.begin(spec)
        ctx.step("center of", i)
        t = m[i]
        got = m.findTract(t.getCtrCoord())
        ctx.equal(int(got.getId()), i, "tract found at the center %s of tract %d", t.getCtrCoord(), i)
        ctx.state(i)
        ctx.end(i)


def scenarios(tier):
    from .. import maps
    big = tier == "thorough"
    seen, done = set(), []
    lst = [s for s in maps.menu(tier) + maps.real() if s.version != 0]
    for n in range(1, 61 if big else 25):
        for ra0 in ((0.0, 0.25, 77.7, 359.999, 180.0, 90.0, 1e-9, 271.3) if big else (0.0, 0.25, 77.7, 359.999)):
            lst.append(maps.rings(n, ra0, ov=1.0))
    lst.append(maps.rings(120, 0.0, ov=0.1))
    lst += maps.many()
    for s in lst:
        if repr(s) not in seen:
            seen.add(repr(s))
            yield repr(s), amap, (s, big)
    for s in lst:
        if s.cls in ("rings", "healpix", "dodeca", "equat") and s.version is None and s not in done:
            done.append(s)
            yield "centers %r" % s, centers, (s, 1)
    for k in range(5, 13 if big else 10):
        for nest in (False, True):
            yield "resolved %d %s" % (k, nest), resolved, (k, nest)
    for k in range(5 if big else 4):
        for nest in (False, True):
            s = maps.healpix(k, nest, npix=40)
            yield "centers %r" % s, centers, (s, 1)
