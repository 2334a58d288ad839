import math

ID = "C34"
RULE = ("state = (map, tract, position); transitions = the inner region of a tract compared vertex by vertex with its vertex list, and membership of a position compared with half-space arithmetic, findTract and contains; "
        "a trace = one tract with all its positions")
BOUNDS = {"quick": "every tract (at most 120 per map) of 35 maps of all classes; positions: center, both sides (1e-6 rad) of every vertex and edge, and the positions of C13 within reach",
          "thorough": "every tract (at most 400 per map) of 245 maps, denser positions"}
ASSUMPTIONS = ["positions closer than 2e-7 rad to an edge are not judged"]
ORACLE = "Oracle: half-space arithmetic on the documented vertices (C31 decides the vertices themselves), and findTract (C13)."
EDGE = 2e-7


def ordered(ref, verts, ctr):
    """Vertices in order around ctr, counterclockwise seen from outside."""
    c = ref.unit(ctr)
    a = min(verts, key=lambda v: abs(ref.dot(v, c)))
    e = ref.unit(tuple(x - ref.dot(a, c) * y for x, y in zip(a, c)))
    f = ref.cross(c, e)
    return sorted(verts, key=lambda v: math.atan2(ref.dot(v, f), ref.dot(v, e)))


def inside(ref, poly, v):
    """+1 inside, -1 outside, 0 too close to an edge to say."""
    n = len(poly)
    d = []
    for k in range(n):
        x = ref.cross(poly[k], poly[(k + 1) % n])
        r = ref.norm(x)
        if r < 1e-12:
            continue
        d.append(math.asin(max(-1.0, min(1.0, ref.dot(x, v) / r))))
    m = min(d)
    return 0 if abs(m) < EDGE else (1 if m > 0 else -1)


def contains(sphgeom, region, v):
    return bool(region.contains(sphgeom.UnitVector3d(*v)))


def amap(ctx, spec, ntract, fine):
    import lsst.sphgeom as sphgeom
    from .. import lookup, maps
    ref = maps.ref
    spec = lookup.spec_opts(spec)
    m = spec.make()
    owners = lookup.owners(spec, m, fine) if spec.cls in ("dodeca", "rings") else []
    pts = lookup.sky_points(spec, m, fine)[1] if spec.cls not in ("rings",) and len(m) <= 200 else []
    step = max(1, -(-len(m) // ntract))
    for i in sorted(set(range(0, len(m), step)) | {len(m) - 1}) if len(m) else []:
        t = m[i]
        ctx.begin(spec, "tract", i)
        ctr = maps.tov(t.getCtrCoord())
        verts = [maps.tov(v) for v in t.getVertexList()]
        ctx.check(len(verts) >= 3, "tract %d has %d vertices", i, len(verts))
        for k, v in enumerate(t.getVertexList()):
            ctx.step("vertex", k)
            if all(math.isfinite(x) for x in verts[k]):
                ctx.check(t.contains(v), "vertex %d of tract %d is not in the tract", k, i)
        if not all(math.isfinite(x) for v in verts for x in v):
            ctx.end()
            continue
        ctx.step("inner region")
        region = t.getInnerSkyRegion()
        ctx.check(t.inner_sky_region == region, "inner_sky_region of tract %d differs from getInnerSkyRegion", i)
        ctx.check(contains(sphgeom, region, ctr), "the inner region of tract %d does not hold its center", i)
        # the deprecated polygon form, and the region where the map has no RA/Dec ranges
        polys = [("getInnerSkyPolygon", t.getInnerSkyPolygon()), ("inner_sky_polygon", t.inner_sky_polygon)]
        if spec.cls != "rings":
            polys.append(("getInnerSkyRegion", region))
        hull = ordered(ref, verts, ctr)
        simple = all(ref.dot(v, ctr) > 0 for v in verts) and \
            all(ref.dot(ref.cross(hull[k], hull[(k + 1) % len(hull)]), hull[(k + 2) % len(hull)]) > 1e-12 for k in range(len(hull)))
        for what, p in polys:
            got = [(v.x(), v.y(), v.z()) for v in p.getVertices()]
            ctx.step(what)
            for v in got:
                ctx.check(min(ref.sep(v, w) for w in verts) < 1e-9, "%s of tract %d has a vertex that the tract has not", what, i)
            if simple:
                ctx.equal(len(got), len(verts), "%s of tract %d: number of vertices", what, i)
                for w in verts:
                    ctx.check(min(ref.sep(v, w) for v in got) < 1e-9, "%s of tract %d misses a vertex", what, i)
        cand = [ctr]
        for v in verts:
            lo, la = ref.lonlat(v)
            cand += lookup.around(lo, la, 1e-6)[::2]
        for k in range(len(hull)):
            a, b = hull[k], hull[(k + 1) % len(hull)]
            mid = ref.unit(tuple(x + y for x, y in zip(a, b)))
            for s in (1e-6, -1e-6, .3, -.1):
                cand.append(ref.unit(tuple(x + s * (y - x) for x, y in zip(mid, ctr))))
        if simple:
            for v in cand + pts:
                want = inside(ref, hull, v)
                if want:
                    ctx.state(i, v)
                    ctx.step("position", "%.7f %.7f" % ref.lonlat(v))
                    for what, p in polys[::2]:
                        ctx.check(contains(sphgeom, p, v) == (want > 0), "%s of tract %d and position %r: contains is %r", what, i, ref.lonlat(v), want < 0)
        if owners:
            # positions belong to the region of the tract findTract gives, and to no other
            for lon, lat, ids in owners:
                if len(ids) != 1 or (spec.cls == "rings" and spec.version == 0):
                    continue
                v = ref.vec(lon, lat)
                ctx.state(i, lon, lat)
                ctx.step("owner", "%.7f %.7f" % (lon, lat))
                got = contains(sphgeom, region, v)
                ctx.check(got == (i in ids), "the inner region of tract %d says %r for (%.9f, %.9f rad), which is in tract %r", i, got, lon, lat, sorted(ids))
        ctx.end((spec.cls, len(verts)))


def scenarios(tier):
    from .. import maps
    big = tier == "thorough"
    seen = set()
    for s in maps.menu(tier) + maps.real() + [maps.healpix(3, True, npix=30), maps.healpix(3, False, npix=30), maps.equat(12, (-2.0, 2.0)), maps.rings(12, 7.0, npix=25)]:
        if repr(s) not in seen:
            seen.add(repr(s))
            yield repr(s), amap, (s, 400 if big else 120, big)
