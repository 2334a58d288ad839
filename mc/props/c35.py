import itertools

ID = "C35"
RULE = ("state = (patch or cell, patch or cell); transitions = comparisons (== and !=, both ways) compared with equality of the documented geometry; a trace = one object against all others")
BOUNDS = {"quick": "all pairs of 3 x 3 x 4 x 5 directly built patches and 72 cells differing in any set of fields, and of 288 patches and 72 cells with indices, boxes and counts beyond 256; cells and patches whose boxes differ in one corner or by one shift; all pairs of patches and cells (up to 60 per tract) across tracts and builders of 27 maps, and against the same map built again; patches and cells against each other and 26 other kinds of object",
          "thorough": "the same with 237 maps and up to 150 patches and cells per tract"}
ASSUMPTIONS = []
ORACLE = "Oracle: equality of (index, inner box, outer box) and, for patches, (number of cells, cell border)."


def key(p):
    from .. import maps
    k = (tuple(int(i) for i in p.getIndex()), maps.box(p.getInnerBBox()).t, maps.box(p.getOuterBBox()).t)
    if hasattr(p, "getNumCells"):
        k += (tuple(int(i) for i in p.getNumCells()), int(p.getCellBorder()))
    return k


def compare(ctx, objs):
    """objs: [(label, object, key)]"""
    for la, a, ka in objs:
        ctx.begin("object", la)
        n = 0
        for lb, b, kb in objs:
            ctx.step("against", lb)
            same = ka == kb
            n += same
            ctx.check((a == b) is same or bool(a == b) == same, "%s == %s is %r although the geometry is %s", la, lb, a == b, "the same" if same else "different")
            ctx.check(bool(a != b) == (not same), "%s != %s is %r although the geometry is %s", la, lb, a != b, "the same" if same else "different")
        ctx.state(la)
        ctx.end(n)


def patches(ctx, wcs_too):
    from lsst.geom import Box2I, Extent2I, Point2I
    from lsst.skymap.detail import Index2D
    from lsst.skymap.patchInfo import PatchInfo
    from .. import small
    w1, w2 = small.PlateWcs(), small.PlateWcs(5.0, 7.0)

    def box(x, y, w, h):
        return Box2I(Point2I(x, y), Extent2I(w, h))
    objs = []
    cellopts = [dict(), dict(cellInnerDimensions=(5, 5), cellBorder=2, numCellsPerPatchInner=4, numCellsInPatchBorder=0),
                dict(cellInnerDimensions=(5, 5), cellBorder=1, numCellsPerPatchInner=4, numCellsInPatchBorder=0),
                dict(cellInnerDimensions=(5, 5), cellBorder=1, numCellsPerPatchInner=4, numCellsInPatchBorder=1),
                dict(cellInnerDimensions=(5, 5), cellBorder=2, numCellsPerPatchInner=2, numCellsInPatchBorder=0)]
    for (ix, inner, outer, (c, o)) in itertools.product(((0, 0), (1, 0), (0, 1)), ((0, 0, 20, 20), (20, 0, 20, 20), (0, 20, 20, 20)), (0, 3, 6, 1), enumerate(cellopts)):
        b = box(*inner)
        ob = box(*inner)
        ob.grow(outer)
        objs.append(("patch%r inner%r +%d cells%d" % (ix, inner, outer, c), PatchInfo(Index2D(*ix), b, ob, ix[0] + 2 * ix[1], w1, **o)))
    if wcs_too:
        # the WCS and the sequential index are not compared
        for k in (0, 7, 50):
            la, p = objs[k]
            objs.append((la + " elsewhere", PatchInfo(p.getIndex(), p.getInnerBBox(), p.getOuterBBox(), 99, w2, **cellopts[k % 5])))
    compare(ctx, [(la, p, key(p)) for la, p in objs])


def cells(ctx):
    from lsst.geom import Box2I, Extent2I, Point2I
    from lsst.skymap.cellInfo import CellInfo
    from lsst.skymap.detail import Index2D
    from .. import small
    w1, w2 = small.PlateWcs(), small.PlateWcs(5.0, 7.0)
    objs = []
    for ix, x, y, d, g, w in itertools.product(((0, 0), (1, 0), (0, 1)), (0, 5), (0, -5), (5, 6), (0, 2, 3), (w1, w2)):
        b = Box2I(Point2I(x, y), Extent2I(d, d))
        ob = Box2I(b)
        ob.grow(g)
        c = CellInfo(Index2D(*ix), b, ob, x + y + d, w)
        objs.append(("cell%r at (%d, %d) of %d +%d %s" % (ix, x, y, d, g, "second WCS" if w is w2 else ""), c, key(c)))
    compare(ctx, objs)


def shifted(ctx):
    """Inner boxes that are not in the middle of the outer ones: each corner of either box differs alone."""
    from lsst.geom import Box2I, Point2I
    from lsst.skymap.cellInfo import CellInfo
    from lsst.skymap.detail import Index2D
    from lsst.skymap.patchInfo import PatchInfo
    from .. import small
    w = small.PlateWcs()

    def box(t):
        return Box2I(Point2I(*t[:2]), Point2I(*t[2:]))
    boxes = [((10, 10, 19, 19), (0, 0, 29, 29))]
    for k in range(4):
        for d in (1, -1, 2):
            for which in (0, 1):
                b = [list(boxes[0][0]), list(boxes[0][1])]
                b[which][k] += d
                boxes.append(tuple(tuple(v) for v in b))
    for dx, dy in ((1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (1, -1), (5, 5), (-10, 0), (10, 10)):
        for which in (0, 1, 2):
            if which != 1 or max(abs(dx), abs(dy)) < 10:
                boxes.append(tuple(tuple(v + (dx, dy)[i % 2] * (which in (j, 2)) for i, v in enumerate(q)) for j, q in enumerate(boxes[0])))
    cells, patches = [], []
    for i, o in boxes:
        for ix in ((0, 0), (1, 0)):
            c = CellInfo(Index2D(*ix), box(i), box(o), 7, w)
            cells.append(("cell %r %r %r" % (ix, i, o), c, key(c)))
            try:
                p = PatchInfo(Index2D(*ix), box(i), box(o), 7, w)
            except RuntimeError:
                continue
            patches.append(("patch %r %r %r" % (ix, i, o), p, key(p)))
    compare(ctx, cells)
    compare(ctx, patches)


def big(ctx):
    """Large indices, boxes and cell counts, equal ones made separately."""
    from lsst.geom import Box2I, Extent2I, Point2I
    from lsst.skymap.cellInfo import CellInfo
    from lsst.skymap.detail import Index2D
    from lsst.skymap.patchInfo import PatchInfo
    from .. import small
    w = small.PlateWcs()

    def box(x, y, n, g):
        b = Box2I(Point2I(int(str(x)), int(str(y))), Extent2I(n, n))
        o = Box2I(b)
        o.grow(int(str(g)))
        return b, o
    ps, cs = [], []
    for copy in (0, 1):
        for ix in ((300, 0), (0, 300), (300, 300), (301, 300), (300, 301), (256, 257), (257, 256), (70000, 5), (44, 44)):
            for x, y, g in ((30000, 30000, 100), (30000, 30001, 100), (30000, 30000, 356), (-30000, 30000, 100)):
                i = Index2D(*(int(str(v)) for v in ix))
                b, o = box(x, y, 3000, g)
                for opts in (dict(), dict(cellInnerDimensions=(3, 3), cellBorder=int("300"), numCellsPerPatchInner=1000, numCellsInPatchBorder=0),
                             dict(cellInnerDimensions=(3, 3), cellBorder=int("556"), numCellsPerPatchInner=1000, numCellsInPatchBorder=0),
                             dict(cellInnerDimensions=(6, 6), cellBorder=int("300"), numCellsPerPatchInner=500, numCellsInPatchBorder=0)):
                    p = PatchInfo(i, b, o, int(str(ix[0] + 400 * ix[1])), w, **opts)
                    ps.append(("patch %r at %d %d +%d %r copy %d" % (ix, x, y, g, sorted(opts.values(), key=repr), copy), p, key(p)))
                c = CellInfo(i, b, o, int(str(ix[0] + 400 * ix[1])), w)
                cs.append(("cell %r at %d %d +%d copy %d" % (ix, x, y, g, copy), c, key(c)))
    compare(ctx, ps)
    compare(ctx, cs)


def foreign(ctx):
    """Patches and cells against everything that is neither, in both directions, and against each other."""
    from lsst.geom import Box2I, Extent2I, Point2I
    from lsst.skymap.cellInfo import CellInfo
    from lsst.skymap.detail import Index2D
    from lsst.skymap.patchInfo import PatchInfo
    from .. import small
    w = small.PlateWcs()

    class Always:
        def __eq__(self, other):
            return True

        def __ne__(self, other):
            return False

    class Looks:
        """Has an index and boxes but is no patch and no cell."""
        def __init__(self, p):
            self.getIndex, self.getInnerBBox, self.getOuterBBox = p.getIndex, p.getInnerBBox, p.getOuterBBox

    class SubPatch(PatchInfo):
        pass

    class SubCell(CellInfo):
        pass

    for ix, g in itertools.product(((0, 0), (1, 2)), (0, 3)):
        b = Box2I(Point2I(5 * ix[0], 0), Extent2I(5, 5))
        ob = Box2I(b)
        ob.grow(g)
        pa = (Index2D(*ix), b, ob, 0, w)
        p, c = PatchInfo(*pa), CellInfo(*pa)
        for o, cls, sub, other in ((p, PatchInfo, SubPatch, c), (c, CellInfo, SubCell, p)):
            ctx.begin(cls.__name__, ix, g)
            alien = (None, 0, 1.5, "", "x", b"", (), [], {}, set(), ix, tuple(ix), Index2D(*ix), b, w, object(), cls, type, NotImplemented,
                     Ellipsis, Looks(o), other, (o,), [o], True, float("nan"), lambda: None)
            for a in alien:
                ctx.step("against", type(a).__name__)
                ctx.equal(bool(o == a), False, "%s == %r", cls.__name__, a)
                ctx.equal(bool(a == o), False, "%r == %s", a, cls.__name__)
                ctx.equal(bool(o != a), True, "%s != %r", cls.__name__, a)
                ctx.equal(bool(a != o), True, "%r != %s", a, cls.__name__)
                ctx.state(cls.__name__, ix, g, type(a).__name__, repr(a)[:20])
            ctx.step("in a list of other things")
            ctx.equal(o in list(alien), False, "%s in a list of other things", cls.__name__)
            ctx.equal(o in list(alien) + [cls(*pa)], True, "%s in a list that has it", cls.__name__)
            ctx.equal(list(alien).count(o), 0, "count of %s", cls.__name__)
            s = sub(*pa)
            ctx.step("subclass")
            ctx.check(o == s and s == o and not o != s and not s != o, "%s differs from an instance of a subclass", cls.__name__)
            ctx.step("object that equals everything")
            ctx.check(Always() == o, "left operand decides")
            ctx.end(cls.__name__)


def amap(ctx, spec, limit):
    m, again = spec.make(), spec.make()
    objs, cs = [], []
    ids = sorted({0, len(m) // 3, len(m) // 2, len(m) - 1})
    for i in ids:
        for mm, what in ((m, ""), (again, " again")):
            t = mm[i]
            n = len(t)
            for k in range(0, n, max(1, n // (limit // 8))):
                p = t[k]
                objs.append(("tract %d patch %d%s" % (i, k, what), p, key(p)))
                if len(cs) < limit * 3 and k % 3 == 0:
                    nc = len(p)
                    for j in range(0, nc, max(1, nc // 6)):
                        c = p[j]
                        cs.append(("tract %d patch %d cell %d%s" % (i, k, j, what), c, key(c)))
    compare(ctx, objs)
    compare(ctx, cs)


def scenarios(tier):
    from .. import maps
    yield "patches", patches, (True,)
    yield "cells", cells, ()
    yield "big", big, ()
    yield "shifted", shifted, ()
    yield "anything else", foreign, ()
    for s in maps.menu(tier):
        yield repr(s), amap, (s, 150 if tier == "thorough" else 60)
