ID = "C09"
RULE = ("state = (n, index form, index); transitions = lookups and conversions compared with the row-major model; a trace = one patch with every index form")
BOUNDS = {"quick": "n from 1 to 9, 17, 21 and 22 cells (inner 1..5 x border 0..2), first, middle and last patch of a 3x2 tract; every index from -n-2 to n+2 and -2n*n..2n*n, 7 forms; cells of patches of 1-6 x 1-6 cells looked up in each other; cells about every power of two in patches of 127 to 40000 cells across; 4 grids with indices of the 8 numpy integer types; legacy patches; cell maps; every interleaving of two iterations over 1 and 4 cells",
          "thorough": "n from 1 to 14 (inner 1..8 x border 0..3), every patch of a 3x2 tract; same ranges; 6 grids with the 8 numpy integer types; cell maps of the thorough menu; the same interleavings"}
ASSUMPTIONS = []


def forms(ctx, p, n):
    import numpy as np
    from .. import maps
    from lsst.skymap import Index2D
    order = [(i, j) for j in range(n) for i in range(n)]
    ctx.equal(len(p), n * n, "len")
    seen, ref = [], {}
    for cell in p:
        seen.append(tuple(int(v) for v in cell.getIndex()))
        ref[seen[-1]] = maps.describe_cell(cell)
    ctx.equal(seen, order, "iteration order")
    ctx.equal(len(set(d[4:] for d in ref.values())), n * n, "distinct cell boxes")
    for s, ij in enumerate(order):
        ctx.state(n, s)
        ctx.step("cell", s, ij)
        pair = p.getCellIndexPair(s)
        ctx.equal((int(pair[0]), int(pair[1]), int(pair.x), int(pair.y)), ij + ij, "getCellIndexPair(%d)", s)
        for f in (ij, list(ij), Index2D(*ij)):
            ctx.equal(int(p.getSequentialCellIndexFromPair(f)), s, "getSequentialCellIndexFromPair(%r)", f)
        c0 = p[ij]
        ctx.equal(int(p.getSequentialCellIndex(c0)), s, "getSequentialCellIndex of cell %r", ij)
        ctx.equal((int(c0.getSequentialIndex()), int(c0.sequential_index)), (s, s), "sequential index of cell %r", ij)
        ctx.equal(tuple(c0.index), ij, "index property")
        for f in (ij, list(ij), Index2D(*ij), Index2D(y=ij[1], x=ij[0]), s, np.int64(s), (np.int32(ij[0]), np.int32(ij[1]))):
            for how, get in (("[]", p.__getitem__), ("getCellInfo", p.getCellInfo)):
                ctx.step(how, f)
                ctx.equal(maps.describe_cell(get(f)), ref[ij], "cell from %s(%r)", how, f)
        ctx.check(p[ij] == p[s] and not (p[ij] != p[s]), "cells %r and %d compare unequal", ij, s)
    bad = [(i, j) for i in range(-n - 2, n + 3) for j in range(-n - 2, n + 3) if not (0 <= i < n and 0 <= j < n)]
    for ij in bad:
        ctx.state(n, "bad", ij)
        for f in (ij, Index2D(*ij)):
            ctx.step("bad", f)
            ctx.raises(IndexError, lambda: p[f], "subscript %r of %d x %d cells" % (f, n, n))
            ctx.raises(IndexError, lambda: p.getCellInfo(f), "getCellInfo(%r) of %d x %d cells" % (f, n, n))
            ctx.raises(IndexError, lambda: p.getSequentialCellIndexFromPair(f), "getSequentialCellIndexFromPair(%r), n=%d" % (f, n))
    for s in [k for k in range(-2 * n * n - 2, 2 * n * n + 3) if not 0 <= k < n * n] + [10 ** 6, -10 ** 6]:
        ctx.state(n, "bad", s)
        ctx.step("bad", s)
        ctx.raises(IndexError, lambda: p[s], "subscript %r of %d x %d cells" % (s, n, n))
        ctx.raises(IndexError, lambda: p.getCellInfo(s), "getCellInfo(%r) of %d x %d cells" % (s, n, n))
        ctx.raises(IndexError, lambda: p.getCellIndexPair(s), "getCellIndexPair(%r), n=%d" % (s, n))


def small(ctx, per, nbs, every):
    from .. import small as sm
    for nb in nbs:
        t = sm.tract(sm.cells(2, per, nb, 1), 3 * 2 * per, 2 * 2 * per)
        for k in range(6) if every else (0, 3, 5):
            ctx.begin("per patch", per, "border", nb, "patch", k)
            forms(ctx, t[k], per + 2 * nb)
            # a cell of another patch with the same index is another cell
            ctx.check(k == 0 or t[k][0] != t[0][0], "first cells of patches 0 and %d compare equal", k)
            ctx.end((per, nb, k))


def kinds(ctx, size, per, nb):
    """Indices of every numpy integer type that can hold them."""
    import numpy as np
    from .. import maps, small as sm
    from .c07 import KINDS
    from lsst.skymap import Index2D
    t = sm.tract(sm.cells(size, per, nb, 1), 2 * size * per, 2 * size * per)
    n = per + 2 * nb
    for p in (t[0], t[3]):
        for s in range(n * n):
            j, i = divmod(s, n)
            want = maps.describe_cell(p[i, j])
            ctx.equal(tuple(int(v) for v in p[i, j].getIndex()), (i, j), "index of cell %r", (i, j))
            for k in KINDS:
                ty = getattr(np, k)
                ctx.state(n, s, k)
                for pair in ((ty(i), ty(j)), [ty(i), j], (i, ty(j)), Index2D(ty(i), ty(j))) if max(i, j) <= np.iinfo(ty).max else ():
                    ctx.step(k, i, j)
                    ctx.equal(maps.describe_cell(p.getCellInfo(pair)), want, "cell from the %s pair %r", k, (i, j))
                    ctx.equal(int(p.getSequentialCellIndexFromPair(pair)), s, "getSequentialCellIndexFromPair of the %s pair %r", k, (i, j))
                if s <= np.iinfo(ty).max:
                    ctx.step(k, s)
                    ctx.equal(maps.describe_cell(p[ty(s)]), want, "cell from the %s %d", k, s)
                    ctx.equal(tuple(int(v) for v in p.getCellIndexPair(ty(s))), (i, j), "getCellIndexPair of the %s %d", k, s)
        ctx.begin(size, per, nb)
        ctx.end((size, per, nb, tuple(p.getIndex())))


def legacy(ctx, ix, iy):
    from .. import small as sm
    t = sm.tract(sm.legacy(ix, iy, 1), 2 * ix, 2 * iy)
    nocells(ctx, t)
    ctx.end((ix, iy))


def nocells(ctx, t):
    from lsst.skymap import Index2D
    for p in t:
        ctx.state(tuple(p.getIndex()))
        ctx.step("legacy patch", tuple(p.getIndex()))
        ctx.equal(len(p), 0, "len of a patch without cells")
        ctx.equal(list(p), [], "cells of a patch without cells")
        ctx.equal(tuple(p.getNumCells()), (0, 0), "number of cells")
        ctx.equal(tuple(int(v) for v in p.getCellInnerDimensions()), (0, 0), "cell inner dimensions of a patch without cells")
        ctx.equal(int(p.getCellBorder()), 0, "cell border of a patch without cells")
        for f in (0, 1, -1, 100, (0, 0), (1, 0), (-1, -1), Index2D(0, 0)):
            ctx.step("cell", f)
            ctx.raises(IndexError, lambda: p[f], "subscript %r of a patch without cells" % (f,))
            ctx.raises(IndexError, lambda: p.getCellInfo(f), "getCellInfo(%r) of a patch without cells" % (f,))
            if isinstance(f, int):
                ctx.raises(IndexError, lambda: p.getCellIndexPair(f), "getCellIndexPair(%r) of a patch without cells" % (f,))
            else:
                ctx.raises(IndexError, lambda: p.getSequentialCellIndexFromPair(f),
                           "getSequentialCellIndexFromPair(%r) of a patch without cells" % (f,))


def foreign(ctx, sizes):
    """getSequentialCellIndex goes by the index of the cell it is given, whatever patch that came from."""
    from .. import small as sm
    patches = {n: sm.tract(sm.cells(2, n, 0, 1), 2 * n, 2 * n)[0] for n in sizes}
    for n, p in patches.items():
        for k, q in patches.items():
            ctx.begin("cells of", k, "in a patch of", n)
            for c in q:
                i, j = (int(v) for v in c.getIndex())
                ctx.state(n, k, i, j)
                ctx.step("cell", i, j)
                if i < n and j < n:
                    ctx.equal(int(p.getSequentialCellIndex(c)), j * n + i, "sequential index of cell %r", (i, j))
                else:
                    ctx.raises(IndexError, lambda: p.getSequentialCellIndex(c), "sequential index of cell %r in %d x %d cells" % ((i, j), n, n))
            ctx.end((n, k))


def vast(ctx, n):
    """Patches with very many cells across: the cells about every power of two and about the edges."""
    from .. import small as sm
    from lsst.skymap import Index2D
    if n <= 1000:
        p = sm.tract(sm.cells(1, n, 0, 1), n, n)[0]
    else:
        from lsst.geom import Box2I, Extent2I, Point2I
        from lsst.skymap.patchInfo import PatchInfo
        b = Box2I(Point2I(0, 0), Extent2I(n, n))
        p = PatchInfo(Index2D(0, 0), b, b, 0, sm.PlateWcs(), cellInnerDimensions=(1, 1), cellBorder=0, numCellsPerPatchInner=n, numCellsInPatchBorder=0)
    ctx.equal((len(p), tuple(int(v) for v in p.getNumCells())), (n * n, (n, n)), "number of cells")
    at = sorted({v for e in range(0, 17) for v in (2 ** e - 1, 2 ** e, 2 ** e + 1) if v < n} | {0, n // 2, n - 2, n - 1})
    for j in at:
        ctx.begin("cells across", n, "row", j)
        for i in at:
            s = j * n + i
            ctx.state(n, i, j)
            ctx.step("cell", i, j)
            ctx.equal(tuple(int(v) for v in p.getCellIndexPair(s)), (i, j), "getCellIndexPair(%d)", s)
            ctx.equal(int(p.getSequentialCellIndexFromPair((i, j))), s, "getSequentialCellIndexFromPair(%r)", (i, j))
            ctx.equal(int(p.getSequentialCellIndexFromPair(Index2D(i, j))), s, "getSequentialCellIndexFromPair(%r)", (i, j))
            for c in (p[s], p[i, j], p.getCellInfo(Index2D(i, j))):
                ctx.equal((tuple(int(v) for v in c.getIndex()), int(c.getSequentialIndex()), int(p.getSequentialCellIndex(c))), ((i, j), s, s), "cell %r", (i, j))
                ctx.equal((c.getInnerBBox().getMinX(), c.getInnerBBox().getMinY()), (i, j), "corner of cell %r", (i, j))
        ctx.end((n, j))
    for s in (n * n, n * n + 1, -1, -n * n, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64):
        if not 0 <= s < n * n:
            ctx.raises(IndexError, lambda: p[s], "subscript %d" % s)
            ctx.raises(IndexError, lambda: p.getCellIndexPair(s), "getCellIndexPair(%d)" % s)
    for v in (n, n + 1, -1, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 64):
        for ij in ((v, 0), (0, v), (v, v), (v, n - 1)):
            ctx.raises(IndexError, lambda: p[ij], "subscript %r" % (ij,))
            ctx.raises(IndexError, lambda: p.getSequentialCellIndexFromPair(ij), "getSequentialCellIndexFromPair(%r)" % (ij,))


def amap(ctx, spec):
    m = spec.make()
    for i in sorted({0, len(m) // 2, len(m) - 1}):
        t = m[i]
        ctx.begin(spec, "tract", i)
        if spec.builder[0] == "legacy":
            nocells(ctx, t)
        else:
            b = spec.builder[1]
            for k in sorted({0, len(t) // 2, len(t) - 1}):
                forms(ctx, t[k], b["numCellsPerPatchInner"] + 2 * b["numCellsInPatchBorder"])
        ctx.end(i)


def iterations(ctx):
    from .. import maps, small as sm
    from .c07 import interleave
    for per, ring in ((1, 0), (2, 0)):
        p = sm.tract(sm.cells(2, per, ring, 1), 4 * per, 4 * per)[0]
        ctx.check(len(p) == per * per, "number of cells")
        interleave(ctx, p, per * per, maps.describe_cell, "the cells of a patch")


def scenarios(tier):
    from .. import maps
    big = tier == "thorough"
    for per in range(1, 9 if big else 6):
        yield "per patch %d" % per, small, (per, range(4 if big else 3), big)
    for per, nb in ((17, 0), (20, 1), (11, 5)):
        yield "per patch %d border %d" % (per, nb), small, (per, (nb,), big)
    for size, per, nb in [(2, 3, 1), (50, 14, 1), (700, 4, 2), (1, 17, 0)] + [(150, 20, 1), (3000, 2, 3)] * big:
        yield "integer types, %d px, %d per patch, border %d" % (size, per, nb), kinds, (size, per, nb)
    for ix in range(1, 4):
        for iy in range(1, 4):
            yield "legacy %dx%d" % (ix, iy), legacy, (ix, iy)
    for s in maps.menu(tier):
        yield repr(s), amap, (s,)
    for n in (127, 128, 129, 255, 256, 257, 300, 1000, 32767, 32768, 40000):
        yield "%d cells across" % n, vast, (n,)
    yield "cells of other patches", foreign, (range(1, 13 if big else 7),)
    yield "interleaved iterations", iterations, ()
