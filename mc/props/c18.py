ID = "C18"
RULE = ("state = (tract, WCS failure kind, pixel bounding box of the positions); transitions = findPatchList calls compared with the set of patches "
        "whose inner box grown by the border meets that box; a trace = one list of positions")
BOUNDS = {"quick": "rows and columns of 24 patches of every size to 180 pixels, and 12 usual sizes, with and without border, ends 0.2 to 0.00003 pixel from the edge of a pixel; small tracts (legacy and cells builders, 4 borders): all rectangles over a 1-pixel lattice from border+3 pixels outside the tract, 4 orders of two corners; "
                   "lists of 28 lengths from 3 to 1001 with the extreme position at up to 17 places; 27 maps, 10 tracts each: all pairs of 16 positions in, around and far off the tract (including unmappable and huge ones), single ones and the empty list, x 3 kinds of WCS failure; the same on 4 tracts of 8 default and survey maps; small regions next to every power of two of 25 tracts of up to 2^30 pixels a side",
          "thorough": "patch sizes to 400; larger small tracts; 237 maps, up to 30 tracts each, 24 positions"}
ASSUMPTIONS = ["positions within 1e-5 pixel of a pixel edge are not judged", "the WCS reports an unmappable position by nan, DomainError or RuntimeError"]
MODES = ("nan", "domain", "runtime")


def near_edge(v):
    return abs(v) < 1e9 and abs((v + .5) - round(v + .5)) < 1e-5


class Grid:
    """Inner boxes of a tract's patches, grown by the border."""

    def __init__(self, ctx, t, border):
        from .. import maps
        self.t, self.ctx = t, ctx
        self.boxes = {}
        for p in t:
            self.boxes[tuple(int(v) for v in p.getIndex())] = maps.box(p.getInnerBBox()).grown(border)
        self.seen = {}

    @classmethod
    def big(cls, ctx, t, spec):
        """For full-size tracts: the boxes from the documented patch grid."""
        from .. import maps
        g = cls.__new__(cls)
        g.t, g.ctx, g.seen = t, ctx, {}
        (ix, iy), b = spec.inner(), spec.border()
        nx, ny = (int(v) for v in t.getNumPatches())

        def ran(lo, hi, inner, n):
            """Patches i with i*inner - b <= hi and (i+1)*inner - 1 + b >= lo."""
            return range(int(max(0, (lo - b) // inner)), int(min(n - 1, (hi + b) // inner)) + 1)

        def expected(pix):
            import math
            if not pix:
                return set()
            x = ran(math.floor(min(p[0] for p in pix) + .5), math.ceil(max(p[0] for p in pix) - .5), ix, nx)
            y = ran(math.floor(min(p[1] for p in pix) + .5), math.ceil(max(p[1] for p in pix) - .5), iy, ny)
            if len(x) * len(y) > 1500:
                return None
            return {(i, j) for i in x for j in y}
        g.expected = expected
        return g

    def expected(self, pix):
        import math
        from .. import maps
        if not pix:
            return set()
        b = maps.ref.Box(math.floor(min(p[0] for p in pix) + .5), math.floor(min(p[1] for p in pix) + .5),
                         math.ceil(max(p[0] for p in pix) - .5), math.ceil(max(p[1] for p in pix) - .5))
        key = b.t
        if key not in self.seen:
            self.seen[key] = {i for i, g in self.boxes.items() if g.meets(b)}
        return self.seen[key]

    def judge(self, coords, pix, what):
        from .. import maps
        ctx = self.ctx
        pix = [p for p in pix if p is not None]
        if any(near_edge(v) for p in pix for v in p):
            return
        ctx.begin("tract", self.t.getId(), what)
        ctx.step("findPatchList", what)
        want = self.expected(pix)
        if want is None:
            return
        res = list(self.t.findPatchList(coords))
        got = [tuple(int(v) for v in p.getIndex()) for p in res]
        ctx.check(len(set(got)) == len(got), "tract %r: findPatchList(%s) lists a patch twice: %r", self.t.getId(), what, got)
        ctx.check(set(got) == want, "tract %r %r: findPatchList(%s, pixels %r) is %r, expected %r", self.t.getId(), self.t.getBBox(),
                  what, pix, sorted(got), sorted(want))
        for p, i in zip(res, got):
            if i not in self.seen:
                self.seen[i] = True
                ctx.equal(maps.describe_patch(p), maps.describe_patch(self.t[i]), "patch %r of findPatchList and by index", i)
        ctx.state(self.t.getId(), tuple(sorted(pix)) if len(pix) < 3 else what)
        ctx.end(tuple(sorted(got)))


def small(ctx, kind, par, px, py, step):
    from .. import maps
    from .. import small as sm
    if kind == "legacy":
        ix, iy, b = par
        bld = sm.legacy(ix, iy, b)
    else:
        c, n, nb, cb = par
        ix = iy = c * n
        b = nb * c + cb
        bld = sm.cells(c, n, nb, cb)
    t = sm.tract(bld, px * ix, py * iy, 7, -5)
    g = Grid(ctx, t, b)
    w, h = px * ix, py * iy
    wcs = t.getWcs()
    xs = [x + .2 for x in range(-(b + 3), w + b + 3, step)]
    ys = [y - .3 for y in range(-(b + 3), h + b + 3, step)]
    sky = {(x, y): wcs.pixelToSky(maps.geom.Point2D(x, y)) for x in xs for y in ys}
    g.judge([], [], "empty list")
    n = 0
    for i, x0 in enumerate(xs):
        for x1 in xs[i:]:
            for j, y0 in enumerate(ys):
                for y1 in ys[j:]:
                    cs = [(x0, y0), (x1, y1), (x0, y1), (x1, y0)]
                    orders = [(0, 1), (1, 0), (2, 3), (3, 2)] if n % 7 == 0 else [((0, 1), (1, 0), (2, 3), (3, 2))[n % 4]]
                    n += 1
                    if (x0, y0) == (x1, y1):
                        orders = [(0,)]
                    for o in orders:
                        ps = [cs[k] for k in o]
                        g.judge([sky[p] for p in ps], ps, ps)
    # every triple of a coarse lattice: the box of more than two positions
    pts = [(x, y) for x in xs[::max(1, len(xs) // 4)] for y in ys[::max(1, len(ys) // 3)]]
    for a in pts:
        for c in pts:
            for d in pts[::2]:
                g.judge([sky[a], sky[c], sky[d]], [a, c, d], (a, c, d))


def amap(ctx, spec, mode, ntract, fine, big=False):
    import math
    from .. import maps
    ref, geom = maps.ref, maps.geom
    m = spec.make()
    n = len(m)
    try:
        for k in sorted(set(range(0, n, max(1, n // ntract))) | {n - 1}):
            maps.afwgeom.FAIL_MODE = "nan"
            t = m[k]
            g = Grid.big(ctx, t, spec) if big else Grid(ctx, t, spec.border())
            bb = maps.box(t.getBBox())
            wcs = t.getWcs()
            w, h = bb.dims()
            b = spec.border()
            pts = [(1.2, .7), (w / 2 + .21, h / 2 - .13), (w - 1.3, h - 1.8), (-1.3, h * .4 + .13), (w * .3 + .21, h + .7),
                   (-b - .9, -b - .9), (-b - 1.9, h / 3 + .13), (w + b - 1.2, h + b - 1.2), (w + b + .8, 1.2), (w * .7 + .21, -b - 4.3)]
            if fine:
                pts += [(w * .5 + .21, -.8), (w * .77 + .21, h * .1 + .13), (w + 2.2, -2.2), (w * .21 + .13, h - 2.8)]
            sky = [(wcs.pixelToSky(geom.Point2D(x, y)), (x, y), "pixel (%.1f, %.1f)" % (x, y)) for x, y in pts]
            sky = [s for s in sky if math.isfinite(s[0].getLongitude().asRadians())]
            lon, lat = maps.crval(spec, t)
            c = ref.vec(lon, lat)
            alon, alat = ref.lonlat(tuple(-a for a in c))
            far = [(maps.sp(alon, alat), "antipode")]
            for e in (1e-7, 1e-3) + ((1e-12, .1) if fine else ()):
                far.append((maps.spv(ref.move(alon, alat, .3 + 7 * e, e)), "antipode+%g" % e))
            for e in (1e-9, -1e-9, -1e-3, .01) + ((1e-3, -1e-6) if fine else ()):
                far.append((maps.spv(ref.move(lon, lat, 1.1 + 200 * e, ref.PI / 2 + e)), "horizon%+g" % e))
            if spec.proj == "CEA":
                far = [(maps.sp(lon + 3.0, .3), "far side"), (maps.sp(lon - 3.0, -1.5), "far side, south"), (maps.sp(0, ref.PI / 2), "pole")]
            for s, what in far:
                p = wcs.skyToPixel(s)
                p = (p.getX(), p.getY()) if math.isfinite(p.getX()) and math.isfinite(p.getY()) else None
                sky.append((s, p, what))
            maps.afwgeom.FAIL_MODE = mode
            # what the WCS says about the pixel: round trip differences are below the edge tolerance
            g.judge([], [], "empty list")
            for i, (a, p, wa) in enumerate(sky):
                g.judge([a], [p], wa)
                for j, (e, q, we) in enumerate(sky):
                    g.judge([a, e], [p, q], wa + " + " + we)
            un = [s for s in sky if s[1] is None]
            for a, p, wa in un[:2]:
                for i in range(len(sky) - 2):
                    trip = [sky[i], (a, p, wa), sky[i + 1], (a, p, wa), sky[i + 2]]
                    g.judge([s[0] for s in trip], [s[1] for s in trip], " + ".join(s[2] for s in trip))
    finally:
        maps.afwgeom.FAIL_MODE = "nan"


def long(ctx, par, sizes):
    """Long lists, the one position that makes the region larger at every kind of place in them."""
    from .. import maps
    from .. import small as sm
    ix, iy, b = par
    px, py = 7, 6
    t = sm.tract(sm.legacy(ix, iy, b), px * ix, py * iy, 7, -5)
    g = Grid(ctx, t, b)
    wcs = t.getWcs()
    w, h = px * ix, py * iy
    sky = lambda x, y: wcs.pixelToSky(maps.geom.Point2D(x, y))  # noqa: E731
    inner = [(w / 2 + .2 + .01 * i, h / 2 - .3 + .013 * j) for i in range(4) for j in range(3)]
    inner = [(p, sky(*p)) for p in inner]
    out = [(x, y) for x in (.2, w / 2 + .2, w - .8) for y in (-.3, h / 2 + .2, h - 1.3)] + [(-b - 3.2, h / 2 + .2), (w / 2 + .2, h + b + 3.3)]
    out = [(p, sky(*p)) for p in out]
    for n in sizes:
        fill = [inner[i * i % len(inner)] for i in range(n - 1)]
        for k in sorted({0, 1, n // 3, n // 2, n - 2, n - 1, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 999, 1000} & set(range(n))):
            for o in out:
                lst = fill[:k] + [o] + fill[k:]
                g.judge([s for _, s in lst], sorted({p for p, _ in lst}), "%d positions, of which number %d is %r" % (n, k, o[0]))
        # growing regions: every position makes it larger
        lst = [((w / 2 + .2 + (w / 2 - 1.2) * i / n), h / 2 + .2 - (h / 2 - 1.3) * i / n) for i in range(n)]
        g.judge([sky(*p) for p in lst], lst, "%d positions, each further out" % n)
        g.judge(tuple(sky(*p) for p in lst[::-1]), lst, "tuple of %d positions, each further in" % n)


def vast(ctx, b, w, h):
    """Small and thin regions in tracts of millions of pixels a side."""
    from .. import maps
    from .. import small as sm
    t, inner, border, n, pairs = sm.vast(ctx, b, w, h)

    class Spec:
        inner = staticmethod(lambda: t_inner)
        border = staticmethod(lambda: t_border)
    t_inner, t_border = inner, border
    g = Grid.big(ctx, t, Spec)
    wcs = t.getWcs()
    for i, j in pairs + [(-1, 0), (0, -1), n]:
        x, y = int((i + .4) * inner[0]) + .25, int((j + .6) * inner[1]) - .25
        for dx, dy in ((0, 0), (inner[0], 0), (0, 2 * inner[1]), (-inner[0], inner[1]), (-1e10, 0), (0, 1e9)):
            q = (x + dx, y + dy)
            lst = [(x, y), q] if dx or dy else [q]
            if max(abs(q[0]), abs(q[1])) * 100. / max(w, h) > 85:
                continue                      # off the sky
            g.judge([wcs.pixelToSky(maps.geom.Point2D(*p)) for p in lst], lst, "%s %dx%d: %r" % (b, w, h, lst))


def strips(ctx, sizes, count):
    """Rows of patches of every size: regions that just reach or just miss each patch."""
    from .. import maps
    from .. import small as sm

    class Spec:
        pass
    for n in sizes:
        for b in (0, 3):
            t = sm.tract(sm.legacy(n, n + 1, b), n * count, 2 * n + 2, -n * count // 2, -n, step=100. / (n * count))
            u = sm.tract(sm.legacy(n + 1, n, b), 2 * n + 2, n * count, -n, -n * count // 2, step=100. / (n * count))
            Spec.border = staticmethod(lambda: b)
            Spec.inner = staticmethod(lambda: (n, n + 1))
            g = Grid.big(ctx, t, Spec)
            Spec.inner = staticmethod(lambda: (n + 1, n))
            f = Grid.big(ctx, u, Spec)
            for k in range(1, count):
                ends = [(k * n - n / 2 + .3, k * n - b - 1 + .3), (k * n - n / 2 + .3, k * n - b - .2), (k * n + b - .3, k * n + n / 2 + .3), (k * n - 1 + b + .2, k * n + n / 2 + .3)]
                if k % 6 == 1 or k == count - 1:
                    # just short of and just beyond the edge of a pixel
                    for e in (.003, .0004, .00003):
                        for z in (-e, e):
                            ends += [(k * n - n / 2 + .3, k * n - b - .5 + z), (k * n + b - .5 + z, k * n + n / 2 + .3), (k * n - .5 + z, k * n - .5 + z)]
                for lo, hi in ends:
                    for grid, pts in ((g, [(lo, 3.2), (hi, 3.3)]), (f, [(3.3, hi), (3.2, lo)])):
                        grid.judge([grid.t.getWcs().pixelToSky(maps.geom.Point2D(*q)) for q in pts], pts, "size %d border %d: %r" % (n, b, pts))


def scenarios(tier):
    for par in ((3, 2, 0), (4, 5, 1), (2, 3, 3)):
        for i in range(4):
            sizes = (3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 24, 25, 32, 33, 50, 64, 65, 100, 101, 128, 129, 200, 256, 257, 300) + ((999, 1000, 1001, 1025, 2000, 4097) if tier != "quick" else (1001,))
            yield "long %r part %d" % (par, i), long, (par, sizes[i::4])
    from .. import maps
    big = tier == "thorough"
    for ix, iy in ((3, 2), (1, 4), (5, 3)):
        for b in (0, 1, 2, 4):
            for px, py in ((1, 1), (3, 2)) + (((2, 4), (4, 3)) if big else ()):
                if big or ix * px + iy * py + 4 * b < 26:
                    yield "small legacy %dx%d border %d %dx%d patches" % (ix, iy, b, px, py), small, ("legacy", (ix, iy, b), px, py, 1)
    for c, n, nb, cb in ((2, 2, 1, 1), (1, 3, 0, 2), (3, 1, 2, 0)) + (((2, 2, 0, 0), (2, 3, 1, 2)) if big else ()):
        for px, py in ((1, 1), (2, 2)) + (((3, 2),) if big else ()):
            yield "small cells %d %d %d %d %dx%d patches" % (c, n, nb, cb, px, py), small, ("cells", (c, n, nb, cb), px, py, 1)
    for s in maps.menu(tier):
        for mode in MODES:
            yield "%s %s" % (mode, s), amap, (s, mode, 30 if big else 8, big)
    for s in maps.real():
        for mode in MODES:
            yield "real %s %s" % (mode, s), amap, (s, mode, 12 if big else 3, big, True)
    for k in range(1, 401 if big else 181, 20):
        yield "strips of %d" % k, strips, (range(k, k + 20), 24)
    yield "strips of usual sizes", strips, ((400, 1000, 1024, 2000, 3000, 3400, 3999, 4000, 4001, 4096, 4100, 4200), 24)
    from .. import small as sm
    for name, args in sm.vasts(tier):
        yield name, vast, args
