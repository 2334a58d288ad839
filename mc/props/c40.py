"""Tract builders as objects of their own: set up for one area after another."""
ID = "C40"
RULE = ("state = (builder, area it was last set up for, tracts made with it so far); transitions = setting up for an area, asking for patches and indices, making a tract, each compared with the model of the area last set up; "
        "a trace = one sequence of operations")
BOUNDS = {"quick": "6 builders of both kinds; every minimum area of 1..13 x 1..13 pixels at 5 positions; all sequences of 4 operations out of 4 areas, 3 queries and 2 ways of making a tract, on one builder, "
                   "and all sequences of 4 area set-ups and queries on two builders made from the same configuration",
          "thorough": "10 builders; areas of 1..30 x 1..30 pixels at 9 positions; sequences of 5 operations"}
ASSUMPTIONS = []
ORACLE = "Oracle: integer lattice arithmetic."

BUILDERS = [("legacy", (3, 5), 1), ("legacy", (4, 4), 0), ("legacy", (1, 6), 9), ("cells", 2, 2, 1, 1), ("cells", 3, 1, 0, 2), ("cells", 1, 5, 2, 0)]
MORE = [("legacy", (7, 2), 3), ("legacy", (1, 1), 2), ("cells", 4, 3, 1, 3), ("cells", 5, 1, 1, 0)]
AREAS = [(0, 0, 7, 11), (-9, 4, 1, 1), (100, -37, 16, 3), (2, 2, 12, 12)]


class Model:
    def __init__(self, b):
        self.b = b
        if b[0] == "legacy":
            self.inner, self.border, self.ncell = b[1], b[2], 0
        else:
            _, c, n, nb, cb = b
            self.inner, self.border, self.ncell = (n * c, n * c), nb * c + cb, n + 2 * nb
        self.n = None

    def setup(self, w, h):
        self.n = tuple(-(-v // i) for v, i in zip((w, h), self.inner))
        return self.n

    def boxes(self, i, j):
        from ..ref import Box
        ix, iy = self.inner
        inner = Box.at(i * ix, j * iy, ix, iy)
        outer = inner.grown(self.border)
        if self.b[0] == "legacy":
            outer = outer.clipped(Box.at(0, 0, self.n[0] * ix, self.n[1] * iy))
        return inner, outer


def make(b):
    from .. import small
    return small.legacy(*b[1], b[2]) if b[0] == "legacy" else small.cells(b[1], b[2], b[3], b[4])


def setup(ctx, bld, mod, area, as_double):
    """setupPatches, its answer against the model."""
    from .. import maps, small
    geom = maps.geom
    x, y, w, h = area
    arg = geom.Box2I(geom.Point2I(x, y), geom.Extent2I(w, h))
    if as_double:
        arg = geom.Box2D(geom.Point2D(x - .4, y - .4), geom.Point2D(x + w - .6, y + h - .6))
    before = str(arg)
    box, num = bld.setupPatches(arg, small.PlateWcs())
    ctx.equal(str(arg), before, "the area given to setupPatches")
    nx, ny = mod.setup(w, h)
    ctx.equal((int(num[0]), int(num[1]), int(num.x), int(num.y)), (nx, ny, nx, ny), "patches for an area of %dx%d", w, h)
    got = maps.box(box)
    ctx.equal(got.dims(), (nx * mod.inner[0], ny * mod.inner[1]), "final area for %dx%d", w, h)
    ctx.check(maps.ref.Box.at(x, y, w, h).inside(got), "final area %r does not hold %r", got, area)
    for k in (0, 1):
        shift = (got.t[k] + got.t[k + 2]) - (2 * area[k] + area[k + 2] - 1)
        ctx.check(abs(shift) <= 2, "center moved by %g pixels: %r for %r", shift / 2, got, area)
    return got


def ask(ctx, bld, mod, wcs, which):
    from .. import maps
    from lsst.skymap.detail import Index2D
    nx, ny = mod.n
    ctx.equal(tuple(int(v) for v in bld.getPatchInnerDimensions()), tuple(mod.inner), "getPatchInnerDimensions")
    ctx.equal(int(bld.getPatchBorder()), mod.border, "getPatchBorder")
    idx = [(i, j) for j in range(ny) for i in range(nx)]
    if which == "corners":
        idx = [idx[0], idx[nx - 1], idx[-nx], idx[-1]]
    for i, j in idx:
        s = j * nx + i
        inner, outer = mod.boxes(i, j)
        forms = [Index2D(i, j), (i, j), s] if which != "numbers" else [s]
        for f in forms:
            p = bld.getPatchInfo(f, wcs)
            ctx.equal((maps.box(p.getInnerBBox()), maps.box(p.getOuterBBox())), (inner, outer), "boxes of patch %r", f)
            ctx.equal((tuple(int(v) for v in p.getIndex()), int(p.getSequentialIndex())), ((i, j), s), "index of patch %r", f)
            ctx.equal(int(p.getNumCells()[0]), mod.ncell, "cells of patch %r", f)
            ctx.check(p.getWcs() is wcs or p.getWcs() == wcs, "WCS of patch %r", f)
            ctx.equal(int(bld.getSequentialPatchIndex(p)), s, "getSequentialPatchIndex of patch %r", f)
        ctx.equal(int(bld.getSequentialPatchIndexFromPair((i, j))), s, "getSequentialPatchIndexFromPair(%r)", (i, j))
        ctx.equal(tuple(int(v) for v in bld.getPatchIndexPair(s)), (i, j), "getPatchIndexPair(%d)", s)
    for bad in ((nx, 0), (0, ny), (-1, 0), (0, -1), nx * ny, -1):
        ctx.raises(IndexError, lambda bad=bad: bld.getPatchInfo(bad, wcs), "patch %r of %dx%d" % (bad, nx, ny))


def areas(ctx, b, n, offs):
    bld, mod = make(b), Model(b)
    from .. import small
    wcs = small.PlateWcs()
    for w in range(1, n + 1):
        for h in range(1, n + 1):
            ctx.begin(b, w, h)
            for k, (x, y) in enumerate(offs):
                ctx.step("area", x, y, w, h)
                ctx.state(b, x, y, w, h)
                setup(ctx, bld, mod, (x, y, w, h), (w + h + k) % 2 == 1)
            ask(ctx, bld, mod, wcs, "all" if w * h < 40 else "corners")
            ctx.end((b, w, h))


def check_tract(ctx, t, mod, n, what):
    from .. import maps
    m = Model(mod.b)
    m.n = n
    ctx.equal(tuple(int(v) for v in t.getNumPatches()), n, "patches of %s", what)
    for i, j in {(0, 0), (n[0] - 1, n[1] - 1), (0, n[1] - 1), (n[0] - 1, 0)}:
        p = t[i, j]
        ctx.equal((maps.box(p.getInnerBBox()), maps.box(p.getOuterBBox())), m.boxes(i, j), "boxes of patch (%d, %d) of %s", i, j, what)
        ctx.equal(int(p.getSequentialIndex()), j * n[0] + i, "number of patch (%d, %d) of %s", i, j, what)
        ctx.equal(tuple(int(v) for v in t.getPatchIndexPair(j * n[0] + i)), (i, j), "getPatchIndexPair of %s", what)
    ctx.raises(IndexError, lambda: t[n[0], 0], "patch beyond the last column of %s" % what)
    ctx.raises(IndexError, lambda: t[0, n[1]], "patch beyond the last row of %s" % what)


def sequences(ctx, b, depth, part, parts):
    """All histories on one builder. A tract made with it keeps its own patches."""
    import itertools
    from .. import small
    wcs = small.PlateWcs()
    ops = [("setup", i) for i in range(len(AREAS))] + [("ask", w) for w in ("all", "numbers", "dims")] + [("tract", 0), ("tract", 2)]
    for seq in itertools.islice(itertools.product(ops, repeat=depth), part, None, parts):
        bld, mod = make(b), Model(b)
        known = False                  # do we know which area the builder is set up for?
        fresh = True
        tracts = []
        ctx.begin(b)
        for op, arg in seq:
            ctx.step(op, arg)
            if op == "setup":
                setup(ctx, bld, mod, AREAS[arg], len(tracts) % 2 == 1)
                known, fresh = True, False
            elif op == "tract":
                x, y, w, h = AREAS[arg]
                t = small.tract(bld, w, h, x, y, len(tracts))
                n = t.getNumPatches()
                tracts.append((t, Model(b).setup(w, h)))
                ctx.equal(tuple(int(v) for v in n), tracts[-1][1], "patches of a tract of %dx%d", w, h)
                known, fresh = False, False
            elif arg == "dims":
                ctx.equal(tuple(int(v) for v in bld.getPatchInnerDimensions()), tuple(mod.inner), "getPatchInnerDimensions")
                ctx.equal(int(bld.getPatchBorder()), mod.border, "getPatchBorder")
            elif known:
                ask(ctx, bld, mod, wcs, "corners" if arg == "all" else arg)
            elif fresh:
                for f in (0, (0, 0)):
                    ctx.raises(Exception, lambda f=f: bld.getPatchInfo(f, wcs), "patch %r of a builder not set up" % (f,))
            for k, (t, n) in enumerate(tracts):
                check_tract(ctx, t, mod, n, "tract %d" % k)
        ctx.state(b, seq)
        ctx.end(seq)


def two(ctx, b, depth):
    """Two builders from one configuration do not know of each other."""
    import itertools
    from .. import small
    wcs = small.PlateWcs()
    ops = [(k, a) for k in (0, 1) for a in (0, 1, 2, "corners")]
    for seq in itertools.product(ops, repeat=depth):
        first = make(b)
        blds, mods = [first, type(first)(first.config)], [Model(b), Model(b)]
        ctx.begin(b, "two builders")
        for k, a in seq:
            ctx.step(k, a)
            if a != "corners":
                setup(ctx, blds[k], mods[k], AREAS[a], False)
            for bl, mo in zip(blds, mods):
                if mo.n:
                    ask(ctx, bl, mo, wcs, "corners")
        ctx.state("two", b, seq)
        ctx.end(seq)


def scenarios(tier):
    big = tier == "thorough"
    offs = [(0, 0), (-7, 3), (1, -1), (40, 41), (-300, -301)] + ([(5, 6), (-2, -2), (13, 0), (0, -13)] if big else [])
    for b in BUILDERS + (MORE if big else []):
        yield "areas %r" % (b,), areas, (b, 30 if big else 13, offs)
        k = 8 if big else 1
        for i in range(k):
            yield "sequences %r %d" % (b, i), sequences, (b, 5 if big else 4, i, k)
        yield "two %r" % (b,), two, (b, 4 if big else 3)
