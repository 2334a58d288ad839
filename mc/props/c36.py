ID = "C36"
RULE = ("state = (map, tract, patch, cell, accessor); transitions = the property read, compared with its getter and with the model, and an assignment to it, which must fail and change nothing; a trace = one object with all of its accessors")
BOUNDS = {"quick": "all 29 accessor pairs of tracts, patches and cells on 40 maps of all classes: every tract up to 24 per map, 6 patches each, 5 cells each, and directly built objects",
          "thorough": "the same on 250 maps with up to 200 tracts, 12 patches and 9 cells each"}
ASSUMPTIONS = []
ORACLE = "Oracle: the getter, whose value the other properties decide."

TRACT = [("bbox", "getBBox"), ("ctr_coord", "getCtrCoord"), ("tract_id", "getId"), ("num_patches", "getNumPatches"),
         ("patch_border", "getPatchBorder"), ("patch_inner_dimensions", "getPatchInnerDimensions"), ("tract_overlap", "getTractOverlap"),
         ("vertex_list", "getVertexList"), ("inner_sky_region", "getInnerSkyRegion"), ("outer_sky_polygon", "getOuterSkyPolygon"), ("wcs", "getWcs")]
PATCH = [("index", "getIndex"), ("sequential_index", "getSequentialIndex"), ("wcs", "getWcs"), ("inner_bbox", "getInnerBBox"),
         ("outer_bbox", "getOuterBBox"), ("inner_sky_polygon", "getInnerSkyPolygon"), ("outer_sky_polygon", "getOuterSkyPolygon"),
         ("num_cells", "getNumCells"), ("cell_border", "getCellBorder"), ("cell_inner_dimensions", "getCellInnerDimensions")]
CELL = PATCH[:7]


def pairs(ctx, o, lst, what):
    """Properties and getters of one object."""
    before = {}
    for prop, getter in lst:
        try:
            want = getattr(o, getter)()
        except Exception:
            continue                     # a corner that has no position on the sky
        if "nan" in repr(want):
            continue
        got = getattr(o, prop)
        ctx.step(what, prop)
        ctx.state(what, prop)
        if prop in ("vertex_list",):
            got, want = [str(v) for v in got], [str(v) for v in want]
        if prop == "wcs":
            ctx.check(got is want or got == want, "%s: %s is not %s()", what, prop, getter)
        else:
            ctx.check(got == want, "%s: %s is %r, %s() is %r", what, prop, got, getter, want)
        ctx.check(type(got) is type(want), "%s: %s is a %s, %s() a %s", what, prop, type(got).__name__, getter, type(want).__name__)
        before[prop] = repr(want) if prop not in ("wcs",) else id(want)
        try:
            setattr(o, prop, got)
        except AttributeError:
            pass
        else:
            ctx.fail("%s: %s can be assigned to" % (what, prop))
    for prop, getter in lst:
        if prop in before:
            now = getattr(o, getter)()
            now = [str(v) for v in now] if prop == "vertex_list" else now
            ctx.equal(repr(now) if prop != "wcs" else id(now), before[prop], "%s: %s() after the assignments", what, getter)


def index(ctx, ix, x, y, what):
    """Indices are (x, y) named pairs that compare as plain tuples."""
    from lsst.skymap.detail import Index2D
    ctx.check(isinstance(ix, Index2D), "%s is a %s, not an Index2D", what, type(ix).__name__)
    ctx.equal((ix.x, ix.y), (x, y), "x and y of %s", what)
    ctx.equal((ix[0], ix[1]), (x, y), "items of %s", what)
    ctx.equal(tuple(ix), (x, y), "%s as a tuple", what)
    ctx.check(ix == (x, y), "%s does not equal the pair (%d, %d)", what, x, y)


def amap(ctx, spec, nt, np_, nc):
    m = spec.make()
    for i in sorted({int(round(k * (len(m) - 1) / max(1, nt - 1))) for k in range(nt)}):
        t = m[i]
        ctx.begin(spec, "tract", i)
        pairs(ctx, t, TRACT, "tract %d" % i)
        ctx.equal(int(t.tract_id), i, "tract_id")
        nx, ny = (int(v) for v in t.getNumPatches())
        index(ctx, t.getNumPatches(), nx, ny, "num_patches of tract %d" % i)
        ctx.end("tract")
        n = len(t)
        for s in sorted({int(round(k * (n - 1) / max(1, np_ - 1))) for k in range(np_)}):
            # objects may differ by the route that made them
            for p, how in ((t[s], "by number"), (t[s % nx, s // nx], "by pair")):
                what = "tract %d patch %d %s" % (i, s, how)
                ctx.begin(spec, what)
                pairs(ctx, p, PATCH, what)
                index(ctx, p.getIndex(), s % nx, s // nx, "index of " + what)
                ctx.equal(int(p.sequential_index), s, "sequential_index of %s", what)
                k = len(p)
                c = p.getNumCells()
                index(ctx, c, int(c[0]), int(c[1]), "num_cells of " + what)
                ctx.equal(int(c[0]) * int(c[1]), k, "number of cells of %s", what)
                index(ctx, t.getPatchIndexPair(s), s % nx, s // nx, "getPatchIndexPair(%d)" % s)
                ctx.end("patch")
                for j in sorted({int(round(q * (k - 1) / max(1, nc - 1))) for q in range(nc)}) if k else ():
                    w = int(c[0])
                    for cell in (p[j], p[j % w, j // w]):
                        what2 = what + " cell %d" % j
                        pairs(ctx, cell, CELL, what2)
                        index(ctx, cell.getIndex(), j % w, j // w, "index of " + what2)
                        ctx.equal(int(cell.sequential_index), j, "sequential_index of %s", what2)
                        ctx.end("cell")


def scenarios(tier):
    from .. import maps
    for per, ring, size, border in ((1, 0, 20, 3), (1, 0, 20, 0), (1, 1, 20, 3), (2, 0, 11, 11), (2, 0, 13, 2), (1, 2, 9, 12), (3, 0, 7, 1), (5, 4, 4, 0)):
        b = ("cells", dict(cellInnerDimensions=(size, size), cellBorder=border, numCellsPerPatchInner=per, numCellsInPatchBorder=ring))
        s = maps.discrete(*maps.DISC_A, builder=b)
        yield repr(s), amap, ((s, 200, 12, 9) if tier == "thorough" else (s, 24, 6, 5))
    for size, border in (((1, 1), 0), ((1, 9), 2), ((9, 1), 0), ((40, 40), 0), ((400, 300), 5)):
        s = maps.discrete([10.0], [20.0], [.3], builder=("legacy", dict(patchInnerDimensions=size, patchBorder=border)))
        yield repr(s), amap, ((s, 200, 12, 9) if tier == "thorough" else (s, 24, 6, 5))
    for s in maps.menu(tier) + maps.uneven():
        yield repr(s), amap, ((s, 200, 12, 9) if tier == "thorough" else (s, 24, 6, 5))
