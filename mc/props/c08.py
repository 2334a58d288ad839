ID = "C08"
RULE = ("state = (cell size, cells per patch, border cells, cell border, patch, cell); transitions = cells compared with the global cell lattice; "
        "a trace = one patch with all its cells, or one pair of adjacent patches")
BOUNDS = {"quick": "cell 1..4, cells per patch 1..4, border cells 0..2, cell border 0..3 and 7, tracts of 1x1, 2x3 and 3x2 patches, every patch, cell and adjacent pair; cells of up to 300 pixels, up to 60 cells per patch side, borders of up to 17 cells and 299 pixels, a tract of 1400 patches; 10 tracts of up to 2^30 pixels a side, patches next to every power of two; cell maps of the menu",
          "thorough": "cell 1..6, cells per patch 1..6, border cells 0..3, cell border 0..6 and 11, tracts up to 3x4; cell maps of the thorough menu"}
ASSUMPTIONS = ["lsst.geom box arithmetic as in the shim"]


def one(ctx, t, c, per, nb, cb):
    from .. import maps
    B = maps.ref.Box
    n = per + 2 * nb
    table = {}
    for p in t:
        pij = tuple(int(v) for v in p.getIndex())
        ctx.begin("cells", c, "per patch", per, "border cells", nb, "cell border", cb, "patch", pij)
        ctx.equal(tuple(int(v) for v in p.getNumCells()), (n, n), "number of cells")
        ctx.equal(tuple(p.num_cells), (n, n), "num_cells property")
        ctx.equal(int(p.getCellBorder()), cb, "cell border")
        ctx.equal(int(p.cell_border), cb, "cell_border property")
        for d in (p.getCellInnerDimensions(), p.cell_inner_dimensions):
            ctx.equal((int(d[0]), int(d[1])), (c, c), "cell inner dimensions")
        inner, outer = maps.box(p.getInnerBBox()), maps.box(p.getOuterBBox())
        ctx.equal(len(p), n * n, "len(patch)")
        got = {}
        for cell in p:
            ij = tuple(int(v) for v in cell.getIndex())
            ctx.state(pij, ij)
            ctx.step("cell", ij)
            ib, ob = maps.box(cell.getInnerBBox()), maps.box(cell.getOuterBBox())
            want = B.at(inner.t[0] + (ij[0] - nb) * c, inner.t[1] + (ij[1] - nb) * c, c, c)
            ctx.equal(ib, want, "inner box of cell %r of patch %r", ij, pij)
            ctx.equal(ob, want.grown(cb), "outer box of cell %r of patch %r", ij, pij)
            ctx.equal((maps.box(cell.inner_bbox), maps.box(cell.outer_bbox)), (ib, ob), "box properties of cell %r", ij)
            ctx.check(ob.inside(outer), "outer box %r of cell %r not in the patch outer box %r", ob, ij, outer)
            ctx.check(ij not in got, "cell %r twice", ij)
            got[ij] = (ib, ob)
        ctx.equal(set(got), {(i, j) for i in range(n) for j in range(n)}, "cell indices")
        if (n * c) ** 2 <= 2500:
            count = {}
            for b, _ in got.values():
                for x in range(b.t[0], b.t[2] + 1):
                    for y in range(b.t[1], b.t[3] + 1):
                        count[x, y] = count.get((x, y), 0) + 1
            g = inner.grown(nb * c)
            ctx.check(set(count) == {(x, y) for x in range(g.t[0], g.t[2] + 1) for y in range(g.t[1], g.t[3] + 1)}
                      and set(count.values()) == {1}, "cells do not tile the inner box grown by %d cells", nb)
        table[pij] = got
        ctx.end((c, per, nb, cb, pij))
    for (i, j), got in table.items():
        for di, dj in ((1, 0), (0, 1), (1, 1), (1, -1)):
            other = table.get((i + di, j + dj))
            if other is None:
                continue
            ctx.begin("adjacent", (i, j), (i + di, j + dj))
            for (a, b), boxes in got.items():
                k = (a - di * per, b - dj * per)
                if k in other:
                    ctx.step("shared cell", (a, b), k)
                    ctx.equal(other[k], boxes, "boxes of the shared cell %r/%r", (a, b), k)
            ctx.end((c, per, nb, cb, i, j, di, dj))


def small(ctx, c, per, nbs, cbs, shapes):
    from .. import small as sm
    for nb in nbs:
        for cb in cbs:
            for px, py in shapes:
                t = sm.tract(sm.cells(c, per, nb, cb), px * c * per, py * c * per)
                one(ctx, t, c, per, nb, cb)


def amap(ctx, spec):
    b = spec.builder[1]
    for t in spec.make():
        if t.getId() > 12 and t.getId() % 5:
            continue
        one(ctx, t, b["cellInnerDimensions"][0], b["numCellsPerPatchInner"], b["numCellsInPatchBorder"], b["cellBorder"])


def vast(ctx, b, w, h):
    from .. import maps, small as sm
    B = maps.ref.Box
    ctx.begin("vast", b, w, h)
    t, inner, border, n, pairs = sm.vast(ctx, b, w, h)
    _, c, per, nb, cb = b
    k = per + 2 * nb
    for i, j in pairs:
        p = t[i, j]
        for a, e in {(0, 0), (k - 1, 0), (0, k - 1), (k - 1, k - 1), (k // 2, k // 2), (nb, per + nb - 1)}:
            cell = p.getCellInfo((a, e))
            ctx.step("patch", i, j, "cell", a, e)
            ctx.state(b, w, h, i, j, a, e)
            want = B.at(i * inner[0] + (a - nb) * c, j * inner[1] + (e - nb) * c, c, c)
            ctx.equal(maps.box(cell.getInnerBBox()), want, "inner box of cell %r of patch %r", (a, e), (i, j))
            ctx.equal(maps.box(cell.getOuterBBox()), want.grown(cb), "outer box of cell %r of patch %r", (a, e), (i, j))
    ctx.end((b, w, h))



def scenarios(tier):
    from .. import maps
    for c, per, nb, cb in ((150, 20, 1, 50), (1, 60, 3, 1), (300, 3, 2, 299), (7, 40, 10, 20), (2, 17, 17, 40)):
        yield "large cells %d %d %d %d" % (c, per, nb, cb), small, (c, per, (nb,), (cb,), [(1, 1), (2, 2)])
    yield "many patches", small, (2, 2, (1,), (1,), [(70, 20)] if tier == "quick" else [(300, 40)])
    big = tier == "thorough"
    m = 7 if big else 5
    nbs = range(0, 4 if big else 3)
    cbs = (list(range(7)) + [11]) if big else [0, 1, 2, 3, 7]
    shapes = [(1, 1), (2, 3), (3, 2)] + ([(3, 4), (1, 4)] if big else [])
    for c in range(1, m):
        for per in range(1, m):
            yield "cells %d of %d" % (per, c), small, (c, per, nbs, cbs, shapes)
    for s in maps.menu(tier):
        if s.builder[0] == "cells":
            yield repr(s), amap, (s,)
    from .. import small as sm
    for name, args in sm.vasts(tier):
        if args[0][0] == "cells":
            yield name, vast, args
