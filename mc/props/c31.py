import math

ID = "C31"
RULE = ("state = (configuration, tract); transitions = center, vertices, overlap and ID of a tract compared with positions computed from the configuration alone; a trace = one map with all of its tracts")
BOUNDS = {"quick": "every tract of: 9 discrete lists of 0-12 tracts in every rotation of the list and one of 310 tracts, equatorial maps of 257 and 300 and of 3-13 tracts x 7 declination ranges, both dodecahedra, HEALPix log2NSide 0-4 in both orderings, 8 default maps, each x 2 builders and 5 overlaps",
          "thorough": "equatorial maps of 3-120 tracts x 15 declination ranges, HEALPix log2NSide 0-6, discrete maps of an 18 x 37 lattice of positions"}
ASSUMPTIONS = ["tract centers and vertices within 1e-9 rad (discrete: 1e-11) of the documented position are the documented position"]
TOL = 1e-9


def vec(c):
    from .. import maps
    return maps.tov(c)


def near(ctx, got, lon, lat, what, *args, tol=TOL):
    from .. import ref
    d = ref.sep(vec(got), ref.vec(lon, lat))
    ctx.check(d < tol, "%s is %.10f,%.10f deg, expected %.10f,%.10f", what % args, got.getLongitude().asDegrees(), got.getLatitude().asDegrees(), math.degrees(lon), math.degrees(lat))


def ring_around(ctx, verts, want, what):
    """The vertices are the expected ones, in order around the region (either way, from anywhere)."""
    from .. import ref
    n = len(want)
    ctx.equal(len(verts), n, "number of vertices of %s", what)
    got = [vec(v) for v in verts]
    idx = []
    for g in got:
        m = [k for k in range(n) if ref.sep(g, want[k]) < 1e-8 and k not in idx]
        ctx.check(bool(m), "vertex %r of %s is not expected", ref.lonlat(g), what)
        idx.append(m[0])
    ok = any([(s * k + o) % n for k in range(n)] == idx for s in (1, -1) for o in range(n))
    # coinciding vertices (at a pole) may appear in any order
    if not ok and len({tuple(round(x, 7) for x in w) for w in want}) == n:
        ctx.fail("the vertices of %s are not listed around it: %r" % (what, idx))


def common(ctx, spec, t, i):
    ctx.equal(int(t.getId()), i, "ID of tract %d", i)
    ctx.equal(int(t.tract_id), i, "tract_id of tract %d", i)
    for o in (t.getTractOverlap(), t.tract_overlap):
        ctx.check(abs(o.asRadians() - spec.overlap) < 1e-13, "overlap of tract %d is %r deg", i, o.asDegrees())
    ctx.check(vec(t.ctr_coord) == vec(t.getCtrCoord()), "ctr_coord of tract %d", i)
    ctx.check([vec(v) for v in t.vertex_list] == [vec(v) for v in t.getVertexList()], "vertex_list of tract %d", i)


def discrete(ctx, spec):
    from .. import maps
    m = spec.make()
    o = spec.opts
    ctx.begin(spec)
    ctx.equal(len(m), len(o["raList"]), "number of tracts")
    for i in range(len(m)):
        t = m[i]
        ctx.step("tract", i)
        near(ctx, t.getCtrCoord(), o["raList"][i] * maps.DEG, o["decList"][i] * maps.DEG, "center of tract %d", i, tol=1e-11)
        common(ctx, spec, t, i)
        # the tract is the square that holds the circle of its own radius around it
        bb = maps.box(t.getBBox())
        w, h = bb.dims()
        ix, iy = spec.inner()
        c = t.getWcs().skyToPixel(t.getCtrCoord())
        r = (o["radiusList"][i] * maps.DEG + spec.overlap) / spec.scale
        if spec.rot == 0:
            ctx.check(r * .98 - 2 < c.getX() - bb.t[0] < r * 1.1 + ix + 2 and r * .98 - 2 < bb.t[3] - c.getY() < r * 1.1 + iy + 2,
                      "tract %d of %dx%d pixels around %r does not fit a radius of %.2f pixels", i, w, h, c, r)
        ctx.state(i)
    ctx.end(len(m))


def equat(ctx, spec):
    from .. import maps, ref
    m = spec.make()
    n = spec.opts.get("numTracts", 4)
    d0, d1 = (x * maps.DEG for x in spec.opts.get("decRange", (-1.25, 1.25)))
    ctx.begin(spec)
    ctx.equal(len(m), n, "number of tracts")
    w = 2 * math.pi / n
    for i in range(n):
        t = m[i]
        ctx.step("tract", i)
        near(ctx, t.getCtrCoord(), (i + .5) * w, (d0 + d1) / 2, "center of tract %d", i)
        ring_around(ctx, t.getVertexList(), [ref.vec(i * w, d0), ref.vec((i + 1) * w, d0), ref.vec((i + 1) * w, d1), ref.vec(i * w, d1)], "tract %d" % i)
        common(ctx, spec, t, i)
        ctx.state(i)
    ctx.end(n)


def dodeca(ctx, spec):
    from . import c27
    from .. import maps, ref  # noqa: F401
    poles = spec.opts.get("withTractsOnPoles", False)
    faces, nb, trip, vert = c27.vecs(poles)
    m = spec.make()
    ctx.begin(spec)
    ctx.equal(len(m), 12, "number of tracts")
    ctx.equal(m.getWithTractsOnPoles(), poles, "getWithTractsOnPoles")
    for i in range(12):
        t = m[i]
        ctx.step("tract", i)
        near(ctx, t.getCtrCoord(), *ref.lonlat(faces[i]), "center of tract %d", i)
        ids = [k for k in range(20) if i in trip[k]]
        # in order around the face
        e = ref.unit(tuple(a - ref.dot(vert[ids[0]], faces[i]) * b for a, b in zip(vert[ids[0]], faces[i])))
        f = ref.cross(faces[i], e)
        ids.sort(key=lambda k: math.atan2(ref.dot(vert[k], f), ref.dot(vert[k], e)))
        ring_around(ctx, t.getVertexList(), [vert[k] for k in ids], "tract %d" % i)
        common(ctx, spec, t, i)
        ctx.state(i)
    ctx.end(poles)


# ---- HEALPix, from Gorski et al. 2005, independent of any library
JR = (2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4)
JP = (1, 3, 5, 7, 0, 2, 4, 6, 1, 3, 5, 7)


def face_to_sky(f, x, y):
    """Position (z, phi) of fractional coordinates 0..1 on a base pixel, north up."""
    jr = JR[f] - x - y
    if jr < 1:
        nr = jr
        z = 1 - nr * nr / 3.0
    elif jr > 3:
        nr = 4 - jr
        z = nr * nr / 3.0 - 1
    else:
        nr = 1.0
        z = (2 - jr) * 2.0 / 3.0
    t = JP[f] * nr + x - y
    if t < 0:
        t += 8
    if t >= 8:
        t -= 8
    phi = 0.0 if nr < 1e-15 else (math.pi / 4 * t) / nr
    return z, phi


def pixels(nside, nest):
    """[(face, ix, iy)] in pixel order."""
    allpix = []
    for f in range(12):
        for ix in range(nside):
            for iy in range(nside):
                if nest:
                    k, b = f * nside * nside, 0
                    while (1 << b) < nside:
                        k += (((ix >> b) & 1) << (2 * b)) | (((iy >> b) & 1) << (2 * b + 1))
                        b += 1
                    key = (k,)
                else:
                    z, phi = face_to_sky(f, (ix + .5) / nside, (iy + .5) / nside)
                    key = (-round(z, 9), phi % (2 * math.pi))
                allpix.append((key, f, ix, iy))
    allpix.sort()
    return [p[1:] for p in allpix]


def healpix(ctx, spec):
    from .. import ref
    m = spec.make()
    nside = 1 << spec.opts.get("log2NSide", 0)
    pix = pixels(nside, spec.opts.get("nest", False))
    ctx.begin(spec)
    ctx.equal(len(m), 12 * nside * nside, "number of tracts")

    def sky(f, x, y):
        z, phi = face_to_sky(f, x / nside, y / nside)
        return phi, -math.asin(max(-1.0, min(1.0, z)))      # north and south exchanged
    for i, (f, ix, iy) in enumerate(pix):
        t = m[i]
        ctx.step("tract", i)
        near(ctx, t.getCtrCoord(), *sky(f, ix + .5, iy + .5), "center of tract %d", i)
        ring_around(ctx, t.getVertexList(), [ref.vec(*sky(f, ix + a, iy + b)) for a, b in ((1, 1), (0, 1), (0, 0), (1, 0))], "tract %d" % i)
        common(ctx, spec, t, i)
        ctx.state(i)
    ctx.end(len(m))


FUNCS = dict(discrete=discrete, equat=equat, dodeca=dodeca, healpix=healpix)


def specs(tier):
    from .. import maps
    big = tier == "thorough"
    ovs = (0.0, 0.05, 1.0, 3.5, 12.0)
    A = maps.DISC_A
    k = 0
    for rot in range(len(A[0])):
        for perm in (1, -1):
            q = [list(a[rot:] + a[:rot])[::perm] for a in A]
            k += 1
            yield maps.discrete(*q, ov=ovs[k % 5], builder=(maps.LEG, maps.CELL0)[k % 2], proj=("TAN", "STG")[k % 2])
    for n in (0, 1, 2):
        yield maps.discrete(*[a[:n] for a in A])
    yield maps.discrete([10.0] * 4, [20.0] * 4, [.1, .2, .1, .4], rot=45.0)
    yield maps.discrete([-10.0, 370.0, 725.5], [20.0, -20.0, 0.0], [.1, .2, .1])
    # many decimals
    yield maps.discrete([5.12345678901, 359.99999998765, 1e-9, 200.00000001234], [1.23456789012, -45.67890123456, 1.5e-8, 80.98765432101],
                        [.0123456789, .1000012345, .0500000777, .02], ov=.0012345678, scale=1.23456789)
    yield maps.equat(7, (1.23456789012, 2.34567890123), ov=.123456789, rot=.0123456789, npix=60)
    la = [(lo, d) for d in range(-85, 90, 10) for lo in range(0, 361, 10)]
    la = la if big else la[::5]
    for j in range(0, len(la), 40):
        s = la[j:j + 40]
        yield maps.discrete([float(a) for a, _ in s], [float(b) for _, b in s], [.1 + .01 * (i % 7) for i in range(len(s))], ov=ovs[j // 40 % 3])
    for s in maps.many():
        if s.cls != "rings":
            yield s
    ranges = [(-1.25, 1.25), (0.0, 2.0), (-10.0, -3.0), (-60.0, 60.0), (30.0, 31.0), (-5.0, 45.0), (1e-3, .5)]
    if big:
        ranges += [(-80.0, -79.0), (70.0, 80.0), (-.1, .1), (10.0, 20.0), (-33.3, 1.7), (-1.0, 60.0), (-89.0, 0.0), (5.0, 5.25)]
    for n in (range(3, 121) if big else range(3, 14)):
        for j, r in enumerate(ranges):
            yield maps.equat(n, r, ov=ovs[(n + j) % 4], npix=60, builder=(maps.LEG, maps.CELL2)[(n + j) % 2], rot=(0.0, 15.0)[j % 2])
    for poles in (False, True):
        for ov in ovs:
            for b in (maps.LEG, maps.CELL):
                yield maps.dodeca(poles, ov=ov, builder=b, proj="STG" if b is maps.LEG else "TAN", rot=ov)
    for l2 in range(7 if big else 5):
        for nest in (False, True):
            for ov in (ovs if l2 < 3 else ovs[1:2]):
                yield maps.healpix(l2, nest, ov=ov, npix=20, builder=maps.LEG0 if nest else maps.CELL)
    for s in maps.real():
        if s.cls != "rings":
            yield s


def scenarios(tier):
    seen = set()
    for s in specs(tier):
        if repr(s) not in seen:
            seen.add(repr(s))
            yield "%s" % s, FUNCS[s.cls], (s,)
