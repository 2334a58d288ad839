ID = "C14"
RULE = ("state = (map, position, input form); transitions = array elements compared with findTract; a trace = one call of findTractIdArray")
BOUNDS = {"quick": "27 small maps, 8 default or survey maps, and rings maps with numRings 1..16 x both versions x raStart {0,0.25,359.999}; all positions of C13; rings and HEALPix maps of 36000 to 74000 tracts at about 200 positions; scalar, list, tuple, array, strided, read-only, length 0 and 1; radians and degrees; RA shifted by -360, 0 and +360 deg; pairs of positions 4e-12 to 1e-8 rad apart on both sides of up to 12 boundaries of 21 maps; 9 maps with arrays of 83 sizes up to 100001 and 11 forms of arrays (byte orders, object, masked, buffers, one object for both); 31 maps at whole degrees (every 30 or 11) and radians in scalars, lists and arrays of 12 integer and float types",
          "thorough": "237 + 8 maps, numRings 1..40 x both versions x 6 raStart; 3x denser positions"}
ASSUMPTIONS = ["positions closer than 2e-9 rad (2e-12 for pairs on both sides of one) to a boundary are not judged"]


def amap(ctx, spec, fine):
    import math
    import numpy as np
    from .. import lookup, maps
    spec = lookup.spec_opts(spec)
    m = spec.make()
    pos = [(lo, la) for lo, la, want in lookup.owners(spec, m, fine) if len(want) < 2]
    ctx.begin(spec)
    ra0 = np.array([p[0] for p in pos])
    dec0 = np.array([p[1] for p in pos])
    want = [m.findTract(maps.sp(lo, la)).getId() for lo, la in pos]
    for i, (lo, la) in enumerate(pos):
        ctx.state(round(lo, 9), round(la, 9))

    def ask(what, ra, dec, exp, **kw):
        ctx.step(what, kw, "n=%d" % len(exp))
        ctx.transitions += max(0, len(exp) - 1)
        got = m.findTractIdArray(ra, dec, **kw)
        ctx.equal(len(got), len(exp), "%s: length of the result" % what)
        for k, (g, e) in enumerate(zip(got, exp)):
            if int(g) != e:
                ctx.fail("%s %r: element %d (ra=%.10f dec=%.10f rad) is %r, findTract gives %d" % (
                    what, kw, k, pos[k][0] if len(exp) == len(pos) else math.nan,
                    pos[k][1] if len(exp) == len(pos) else math.nan, g, e))
        ctx.end((what, repr(kw)))

    for shift in (0, -2 * math.pi, 2 * math.pi):
        ra, dec = ra0 + shift, dec0.copy()
        a, d = ra.copy(), dec.copy()
        ask("array shift %g" % shift, a, d, want)
        ctx.check((a == ra).all() and (d == dec).all(), "findTractIdArray modified its input (radians)")
        a, d = np.rad2deg(ra), np.clip(np.rad2deg(dec), -90, 90)
        b, e = a.copy(), d.copy()
        ask("array shift %g" % shift, a, d, want, degrees=True)
        ctx.check((a == b).all() and (d == e).all(), "findTractIdArray modified its input (degrees)")
    ask("list", [float(v) for v in ra0], [float(v) for v in dec0], want)
    ask("tuple", tuple(float(v) for v in ra0), tuple(float(v) for v in dec0), want, degrees=False)
    ask("degrees list", [math.degrees(v) for v in ra0], [max(-90, min(90, math.degrees(v))) for v in dec0], want, degrees=True)
    big = np.full((len(pos), 3), 7.0)
    big[:, 1] = ra0
    small = np.full(2 * len(pos), -1.0)
    small[::2] = dec0
    ask("strided", big[:, 1], small[::2], want)
    ro, do = ra0.copy(), dec0.copy()
    ro.flags.writeable = do.flags.writeable = False
    ask("read-only", ro, do, want)
    ask("reversed", ra0[::-1], dec0[::-1], want[::-1])
    ask("empty array", np.array([]), np.array([]), [])
    ask("empty list", [], [], [])
    ask("empty degrees", np.array([]), np.array([]), [], degrees=True)
    step = max(1, len(pos) // 150)
    for k in list(range(0, len(pos), step)) + [len(pos) - 1]:
        lo, la, e = float(ra0[k]), float(dec0[k]), [want[k]]
        dl, da = math.degrees(lo), max(-90.0, min(90.0, math.degrees(la)))
        ask("scalar", lo, la, e)
        ask("scalar", dl, da, e, degrees=True)
        ask("numpy scalar", np.float64(lo), np.float64(la), e)
        ask("length 1", [lo], [la], e)
        ask("length 1", np.array([dl]), (da,), e, degrees=True)


def many(ctx, spec):
    """Maps of more tracts than a short integer counts; only a few of them are generated."""
    import numpy as np
    from .. import maps
    ref = maps.ref
    m = spec.make()
    n = len(m)
    pos = []
    if spec.cls == "rings":
        lay = spec.layout()
        ctx.check(lay.total == n or any(len(a) > 1 for a in lay.allowed), "%d tracts, expected %d", n, lay.total)
        for r in sorted({0, 1, lay.n // 5, lay.n // 3, lay.n // 2 - 1, lay.n // 2, lay.n // 2 + 1, 2 * lay.n // 3, 4 * lay.n // 5, lay.n - 2, lay.n - 1}):
            k = lay.nums[r]
            for t in sorted({0, 1, k // 3, k // 2, k - 2, k - 1}):
                w = 2 * ref.PI / k
                for f, g in ((0, 0), (.31, .2), (-.44, -.4)):
                    pos.append(((lay.ra0 + (t + f) * w) % (2 * ref.PI), lay.h * (r + 1 + g) - ref.PI / 2))
        pos += [(1.0, -ref.PI / 2), (2.0, ref.PI / 2)]
    else:
        pos = [(lo, la) for lo in (.1, 1.7, 3.3, 5.9) for la in (-1.5, -.9, -.3, .05, .4, 1.1, 1.5)]
    ctx.begin(spec, n)
    want = [int(m.findTract(maps.sp(lo, la)).getId()) for lo, la in pos]
    for (lo, la), i in zip(pos, want):
        ctx.step("position", round(lo, 6), round(la, 6), "tract", i)
        ctx.state(lo, la)
    ra, dec = [p[0] for p in pos], [p[1] for p in pos]
    for what, a, d, kw in (("lists", ra, dec, {}), ("arrays", np.array(ra), np.array(dec), {}), ("degrees", np.rad2deg(ra), np.rad2deg(dec), dict(degrees=True))):
        got = m.findTractIdArray(a, d, **kw)
        ctx.equal([int(g) for g in got], want, "%s: IDs in a map of %d tracts", what, n)
        ctx.end(what)
    for k in range(0, len(pos), 7):
        ctx.equal([int(g) for g in m.findTractIdArray(ra[k], dec[k])], [want[k]], "scalar in a map of %d tracts", n)


def types(ctx, spec, step):
    """Whole degrees and radians in arrays and scalars of every numeric type that holds them."""
    import numpy as np
    from .. import maps
    geom = maps.geom
    m = spec.make()
    kinds = [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64, np.float16, np.float32, np.float64, np.longdouble]
    e = 1e-6
    for deg, ras, decs in ((True, range(-360, 720, step), range(-90, 91, step)), (False, range(-6, 13), range(-1, 2))):
        unit = geom.degrees if deg else geom.radians
        f = maps.DEG if deg else 1.0
        pos = []
        for r in ras:
            for d in decs:
                near = {int(m.findTract(geom.SpherePoint(geom.Angle(r * f + dx), geom.Angle(max(-maps.math.pi / 2, min(maps.math.pi / 2, d * f + dy))))).getId())
                        for dx, dy in ((0, 0), (e, e), (-e, e), (e, -e), (-e, -e))}
                if len(near) == 1:
                    pos.append((r, d, near.pop()))
        ctx.check(len(pos) > 20, "only %d positions away from boundaries", len(pos))
        ctx.begin(spec, "degrees" if deg else "radians", len(pos))
        for k in kinds:
            lo, hi = (np.iinfo(k).min, np.iinfo(k).max) if issubclass(k, np.integer) else (-2048, 2048)
            p = [q for q in pos if lo <= q[0] <= hi and lo <= q[1] <= hi]
            want = [q[2] for q in p]
            ra, dec = np.array([q[0] for q in p], dtype=k), np.array([q[1] for q in p], dtype=k)
            a, d = ra.copy(), dec.copy()
            ctx.step("array", k.__name__, len(p))
            ctx.state(deg, k.__name__)
            got = m.findTractIdArray(ra, dec, degrees=deg)
            ctx.equal([int(g) for g in got], want, "IDs for %d positions in %s arrays", len(p), k.__name__)
            ctx.check((a == ra).all() and (d == dec).all() and ra.dtype == dec.dtype == k, "findTractIdArray modified its input")
            got = m.findTractIdArray(list(ra), [int(v) for v in dec], degrees=deg)
            ctx.equal([int(g) for g in got], want, "IDs for %d positions in lists of %s and int", len(p), k.__name__)
            for q in p[::max(1, len(p) // 5)]:
                got = m.findTractIdArray(k(q[0]), k(q[1]), degrees=deg)
                ctx.equal([int(g) for g in got], [q[2]], "ID for the %s scalars %r", k.__name__, q[:2])
                got = m.findTractIdArray(k(q[0]), float(q[1]), degrees=deg)
                ctx.equal([int(g) for g in got], [q[2]], "ID for the %s and float scalars %r", k.__name__, q[:2])
                got = m.findTractIdArray(q[0], q[1], degrees=deg)
                ctx.equal([int(g) for g in got], [q[2]], "ID for the int scalars %r", q[:2])
            ctx.end((deg, k.__name__))


def long(ctx, spec, sizes):
    """Arrays of many sizes, and forms of arrays: blocks, byte orders, masks and shared objects."""
    import array
    import numpy as np
    from .. import maps
    m = spec.make()
    pos = [((.37 * i + .011) % (2 * maps.math.pi), maps.math.asin(-.97 + 1.94 * ((i * .6180339887) % 1))) for i in range(211)]
    want = np.array([int(m.findTract(maps.sp(lo, la)).getId()) for lo, la in pos])
    ra1, dec1 = np.array(pos).T.copy()
    ctx.begin(spec)
    for n in sizes:
        k = np.arange(n) % len(pos)
        for kw, f in (({}, 1.0), (dict(degrees=True), 180 / maps.math.pi)):
            ctx.step("array of", n, kw)
            ctx.state(n, repr(kw))
            got = np.asarray(m.findTractIdArray(ra1[k] * f, dec1[k] * f, **kw))
            ctx.equal(got.shape, (n,), "shape of the result")
            ctx.transitions += n
            bad = np.nonzero(got != want[k])[0]
            ctx.check(not len(bad), "array of %d: %d elements differ from findTract, first %r", n, len(bad), bad[:1])
            ctx.end((n, repr(kw)))
    for kw, f in (({}, 1.0), (dict(degrees=True), 180 / maps.math.pi)):
        ra, dec = ra1 * f, dec1 * f
        same = dec1.copy()
        for what, a, d, e in (("big-endian", ra.astype(">f8"), dec.astype(">f8"), want), ("little-endian", ra.astype("<f8"), dec.astype("<f8"), want),
                              ("byte orders mixed", ra.astype(">f8"), dec, want), ("array.array", array.array("d", ra), array.array("d", dec), want),
                              ("masked array without masked elements", np.ma.MaskedArray(ra), np.ma.MaskedArray(dec), want),
                              ("array and list", ra, list(dec), want), ("list and tuple", list(ra), tuple(dec), want), ("objects", ra.astype(object), dec.astype(object), want),
                              ("memory views", memoryview(ra), memoryview(dec), want), ("subclass", ra.view(np.recarray), dec.view(np.recarray), want),
                              ("one object for both", same * f, None, None)):
            ctx.begin(spec, what)
            ctx.step(what, kw)
            ctx.state(what, repr(kw))
            if d is None:
                d = a
                e = np.array([int(m.findTract(maps.sp(float(x) / f, float(x) / f)).getId()) for x in a])
                before = a.copy()
            got = np.asarray(m.findTractIdArray(a, d, **kw))
            ctx.equal([int(g) for g in got], [int(x) for x in e], "IDs from %s", what)
            if d is a:
                ctx.check((a == before).all(), "findTractIdArray modified its input")
            ctx.end((what, repr(kw)))


def close(ctx, spec, pairs):
    """Arrays of pairs of positions that lie less than a millionth of an arcsecond apart on both sides of a boundary."""
    import numpy as np
    from .. import maps
    geom = maps.geom
    spec = maps_opts(spec)
    m = spec.make()
    n = len(m)

    def own(p):
        return int(m.findTract(geom.SpherePoint(p[0], p[1], geom.radians)).getId())
    lines = []
    for k in range(pairs):
        a, b = m[k * n // pairs].getCtrCoord(), m[(k * n // pairs + 1 + k % 3) % n].getCtrCoord()
        lines.append(tuple((c.getLongitude().asRadians(), max(-1.5, min(1.5, c.getLatitude().asRadians() + .003))) for c in (a, b)))
    out = []
    for lo, hi in lines:
        i, j = own(lo), own(hi)
        if i == j:
            continue
        for _ in range(60):
            mid = tuple((x + y) / 2 for x, y in zip(lo, hi))
            if own(mid) == i:
                lo = mid
            else:
                hi = mid
        # along the Dec or RA, whichever leads across the boundary
        for axis in (0, 1):
            for e in (2e-12, 3e-11, 4e-10, 6e-9):
                p, q = list(lo), list(lo)
                p[axis] -= e
                q[axis] += e
                if not all(own((r[0] + dx, r[1] + dy)) == own(r) for r in (p, q) for dx, dy in ((1e-13, 0), (-1e-13, 0), (0, 1e-13), (0, -1e-13))):
                    continue
                if own(p) != own(q):
                    out += [tuple(p), tuple(q)]
    ctx.begin(spec)
    ctx.check(len(out) >= 2 or n < 2, "no boundaries found between the tracts of %r", spec)
    want = [own(p) for p in out]
    for order in ([0, 1], [1, 0]):
        idx = [k + d for k in range(0, len(out), 2) for d in order]
        for what, ra, dec, kw in (("radians", [out[k][0] for k in idx], [out[k][1] for k in idx], {}),
                                  ("degrees", np.rad2deg([out[k][0] for k in idx]), np.rad2deg([out[k][1] for k in idx]), dict(degrees=True))):
            ctx.step(what, "pairs in order", order)
            ctx.transitions += len(idx)
            got = m.findTractIdArray(ra, dec, **kw)
            for k, g in zip(idx, got):
                ctx.state(out[k])
                ctx.check(int(g) == want[k], "%s: position (%r, %r) rad next to a boundary is in tract %r, findTract gives %r", what, out[k][0], out[k][1], int(g), want[k])
            ctx.end((what, tuple(order)))


def maps_opts(spec):
    from .. import lookup
    return lookup.spec_opts(spec)


def scenarios(tier):
    from .. import maps as mc
    for s in [mc.dodeca(False), mc.dodeca(True), mc.equat(4), mc.equat(9), mc.discrete(*mc.DISC_A), mc.discrete(*mc.DISC_B), mc.healpix(0), mc.healpix(1, True), mc.healpix(2),
              mc.rings(3), mc.rings(9, 77.7), mc.rings(20, 13.7), mc.rings(20, 13.7, version=0)] + [s for s in mc.real()]:
        yield "close %s" % s, close, (s, 12 if tier == "quick" else 60)
    from .. import maps as ml
    sizes = list(range(0, 34)) + [63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 2049, 4096, 4097, 8193, 10000, 10001, 16385, 32769, 65535, 65536, 65537, 100001]
    slow = sizes[:45]
    if tier == "thorough":
        sizes = list(range(0, 300)) + sizes[40:] + [131073, 262145, 500001, 1000001]
        slow = list(range(0, 130)) + [255, 256, 257, 1000, 1001, 1024, 1025, 4097]
    for s in (ml.rings(3), ml.rings(20, 13.7), ml.rings(20, 13.7, version=0), ml.healpix(0), ml.healpix(3, True, ov=.05), ml.healpix(2, False, ov=.05)):
        yield "long %s" % s, long, (s, sizes)
    for s in (ml.dodeca(False), ml.equat(4), ml.discrete(*ml.DISC_B)):
        yield "long %s" % s, long, (s, slow)
    from .. import maps as mt
    for s in mt.menu("quick"):
        yield "types %s" % s, types, (s, 30 if tier == "quick" else 7)
    for s in (mt.rings(20), mt.rings(47, 77.7), mt.rings(20, version=0), mt.healpix(3, True)):
        yield "more types %s" % s, types, (s, 11 if tier == "quick" else 5)
    from .. import maps as mp
    for n in (165, 240) if tier == "quick" else (113, 165, 240, 330, 500):
        for v in (0, 1):
            yield "many rings %d v%d" % (n, v), many, (mp.rings(n, 33.0, ov=.05, version=v),)
    yield "many healpix", many, (mp.healpix(6, True, ov=.05),)
    from .. import maps
    big = tier == "thorough"
    seen = set()
    lst = maps.menu(tier) + maps.real()
    for n in range(1, 41 if big else 17):
        for ra0 in ((0.0, 0.25, 359.999, 180.0, 77.7, 1e-9) if big else (0.0, 0.25, 359.999)):
            for v in (0, 1):
                lst.append(maps.rings(n, ra0, ov=1.0, version=v))
    for s in lst:
        if repr(s) not in seen:
            seen.add(repr(s))
            yield repr(s), amap, (s, big)
