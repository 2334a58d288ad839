ID = "C33"
RULE = ("state = (kind of configuration, values); transitions = assignment, validation and construction with these values, with the outcome (accepted or refused) compared with the documented constraint; "
        "a trace = one combination of values decided")
BOUNDS = {"quick": "discrete lists of all lengths 0-4 (125 combinations, by assignment and from a file), cell dimensions 1-5 squared under both selections of the builder and with 1 and 2 cells per patch, numRings -3..12, raStart at 26 values at and around the bounds, projections of length 0-5, "
                   "patch and cell outer boxes: all boxes in a 4-pixel range against all inner boxes, cellInnerDimensions of 0-4 values and of other types, rings versions -2..3, every option of every class with 3-5 values of its type and up to 8 of other types and lengths, and None",
          "thorough": "lists to length 7, cell dimensions to 12, numRings to 60, boxes in a 5-pixel range"}
ASSUMPTIONS = []


def decide(ctx, label, valid, f, excs):
    ctx.step(label)
    try:
        r = f()
    except excs as e:
        ctx.check(not valid, "%s: refused with %s (%s)", label, type(e).__name__, e)
        return None
    ctx.check(valid, "%s: accepted", label)
    return r


def discrete(ctx, n):
    import itertools
    import os
    import tempfile
    from .. import maps
    tmp = tempfile.mkdtemp()
    for a, b, c in itertools.product(range(n + 1), repeat=3):
        valid = a == b == c
        ras, decs, rads = [10.0 + i for i in range(a)], [-5.0 + i for i in range(b)], [.1] * c
        for order in (0, 1, 2):
            for file in (False, True):
                ctx.begin("discrete", a, b, c)

                def f():
                    cfg = maps.DiscreteSkyMap.ConfigClass()
                    w = [("raList", ras), ("decList", decs), ("radiusList", rads)]
                    w = w[order:] + w[:order]
                    if file:
                        p = os.path.join(tmp, "c.py")
                        with open(p, "w") as g:
                            for k, v in w:
                                g.write("config.%s = %r\n" % (k, v))
                        cfg.load(p)
                    else:
                        for k, v in w:
                            setattr(cfg, k, v)
                    cfg.pixelScale = 100.0
                    cfg.validate()
                    return maps.DiscreteSkyMap(cfg)
                m = decide(ctx, "%d RAs, %d Decs, %d radii" % (a, b, c), valid, f, (ValueError,))
                if m is not None:
                    ctx.equal(len(m), a, "number of tracts")
                    ctx.equal(len([t for t in m]), a, "tracts")
                ctx.state("discrete", a, b, c)
                ctx.end((a, b, c))


def cells(ctx, n):
    from .. import maps
    for cls in ("rings", "discrete", "dodeca", "equat", "healpix"):
        for x in range(1, n + 1):
            for y in range(1, n + 1):
                for selected, per in (("cells", None), ("legacy", None), ("cells", 1), ("cells", 2)):
                    ctx.begin(cls, selected, per)

                    def f():
                        cfg = maps.CLASSES[cls].ConfigClass()
                        if cls == "rings":
                            cfg.numRings = 3
                        cfg.tractBuilder["cells"].cellInnerDimensions = (x, y)
                        cfg.tractBuilder.name = selected
                        if per:
                            cfg.tractBuilder["cells"].numCellsPerPatchInner = per
                            cfg.tractBuilder["cells"].numCellsInPatchBorder = cfg.tractBuilder["cells"].cellBorder = per - 1
                        cfg.validate()
                        return cfg
                    valid = x == y or selected == "legacy"
                    c = decide(ctx, "cells of %dx%d pixels, %s selected, %s per patch" % (x, y, selected, per or "default"), valid, f, (ValueError,))
                    if c is not None and selected == "cells":
                        ctx.equal(tuple(c.tractBuilder.active.cellInnerDimensions), (x, y), "cellInnerDimensions")
                    ctx.state("cells", cls, x, y, selected, per)
                    ctx.end((x, y, selected))
        for k in range(5):
            if k != 2:
                ctx.begin(cls, "cellInnerDimensions of length %d" % k)

                def g():
                    cfg = maps.CLASSES[cls].ConfigClass()
                    if cls == "rings":
                        cfg.numRings = 3
                    cfg.tractBuilder.name = "cells"
                    cfg.tractBuilder["cells"].cellInnerDimensions = (5,) * k
                    cfg.validate()
                decide(ctx, "cellInnerDimensions of %d numbers" % k, False, g, (Exception,))
                ctx.end(k)


def ringscfg(ctx, top):
    import math
    from .. import maps
    for n in range(-3, top):
        ctx.begin("rings")

        def f():
            cfg = maps.RingsSkyMap.ConfigClass()
            cfg.numRings = n
            cfg.validate()
            return maps.RingsSkyMap(cfg)
        m = decide(ctx, "numRings=%d" % n, n > 0, f, (ValueError,))
        if m is not None:
            ctx.check(len(m) > n + 2, "%d rings hold only %d tracts", n, len(m))
        ctx.state("numRings", n)
        ctx.end(n)
    ctx.begin("rings without numRings")

    def unset():
        cfg = maps.RingsSkyMap.ConfigClass()
        cfg.validate()
        return maps.RingsSkyMap(cfg)
    decide(ctx, "no numRings", False, unset, (Exception,))
    ctx.end("unset")
    vals = [-720.0, -360.0, -180.0, -1.0, -.5, -1e-9, -5e-324, 0.0, 5e-324, 1e-9, .5, 1.0, 90.0, 180.0, 270.5, 359.0,
            359.999999, math.nextafter(360.0, 0), 360.0, math.nextafter(360.0, 400), 360.5, 361.0, 720.0,
            math.inf, -math.inf, math.nan]
    for v in vals:
        ctx.begin("rings")

        def f():
            cfg = maps.RingsSkyMap.ConfigClass()
            cfg.numRings = 3
            cfg.raStart = v
            cfg.validate()
            return maps.RingsSkyMap(cfg)
        m = decide(ctx, "raStart=%r" % v, 0 <= v < 360, f, (ValueError,))
        if m is not None:
            from .. import ref
            d = ref.sep(maps.tov(m[1].getCtrCoord()), ref.vec(v * maps.DEG, -maps.math.pi / 4))
            ctx.check(d < 1e-9, "first tract of raStart=%r is centered at %r", v, m[1].getCtrCoord())
        ctx.state("raStart", v)
        ctx.end(v)
    for v in range(-2, 4):
        ctx.begin("rings")

        def f():
            cfg = maps.RingsSkyMap.ConfigClass()
            cfg.numRings = 3
            return maps.RingsSkyMap(cfg, version=v)
        m = decide(ctx, "version=%d" % v, v in (0, 1), f, (Exception,))
        ctx.state("version", v)
        ctx.end(v)


def opt(cfg, path):
    """Object and attribute of the option named like tractBuilder/legacy/patchBorder."""
    *way, last = path.split("/")
    o = cfg
    for w in way:
        o = o[w] if w in ("legacy", "cells") else getattr(o, w)
    return o, last


FLOAT = ([0, 1, 0.0, .25, 3.5], ["x", "1.0", [1.0], (1.0,), {}, 1j])
INT = ([1, 2, 7], ["x", "1", 1.5, 2.0, [1], (1,), {}, 1j])
BOOL = ([True, False], ["x", "True", 0.5, [True], {}])
STR = (["TAN", "STG"], [3, 1.5, ["TAN"], {}, b"TAN"])
PAIR = ([[5, 5], (7, 7), [1, 1]], [[], [5], [5, 5, 5], [5] * 4, (5, 5.5), ("a", "b"), [5, "b"], 5, "ab"])
RANGE = ([[-1.0, 1.0], (0.0, 2.5), [-1, 1]], [[], [1.0], [-1.0, 0.0, 1.0], [0.0] * 4, ("a", "b"), [0.0, "b"], 5.0, "ab"])
COMMON = {"tractOverlap": FLOAT, "pixelScale": FLOAT, "rotation": FLOAT, "projection": STR,
          "tractBuilder/legacy/patchInnerDimensions": PAIR, "tractBuilder/legacy/patchBorder": INT, "patchInnerDimensions": PAIR, "patchBorder": INT,
          "tractBuilder/cells/cellInnerDimensions": PAIR, "tractBuilder/cells/cellBorder": INT,
          "tractBuilder/cells/numCellsPerPatchInner": INT, "tractBuilder/cells/numCellsInPatchBorder": INT}
OPTIONS = dict(rings=dict(COMMON, numRings=INT, raStart=FLOAT), dodeca=dict(COMMON, withTractsOnPoles=BOOL), equat=dict(COMMON, numTracts=INT, decRange=RANGE),
               healpix=dict(COMMON, log2NSide=INT, nest=BOOL),
               discrete=dict(COMMON, raList=([[], [1.0], [1, 2.5]], [3.0, ["a"], [1j], [[1.0]]]), decList=([[], [1.0], [1, 2.5]], [3.0, ["a"], [1j], [[1.0]]]),
                             radiusList=([[], [1.0], [1, 2.5]], [3.0, ["a"], [1j], [[1.0]]])))
BUILDERS = (["legacy", "cells"], ["", "Legacy", "cell", "rings", 3, 1.5])


def options(ctx, cls):
    """Every option of the class with values of the right and of wrong types and lengths."""
    from .. import maps

    def fresh():
        cfg = maps.CLASSES[cls].ConfigClass()
        if cls == "rings":
            cfg.numRings = 3
        return cfg
    for path, (good, wrong) in OPTIONS[cls].items():
        for valid, values in ((True, good), (False, wrong)):
            for v in values + [None] * (not valid):
                for builder in ("legacy", "cells"):
                    if "tractBuilder/" in path and builder not in path or path.startswith("patch") and builder != "legacy":
                        continue
                    ctx.begin(cls, path, v)

                    def f():
                        cfg = fresh()
                        cfg.tractBuilder.name = builder
                        o, a = opt(cfg, path)
                        setattr(o, a, v)
                        if v is None or path not in ("raList", "decList", "radiusList"):
                            cfg.validate()
                        return cfg
                    c = decide(ctx, "%s option %s=%r" % (cls, path, v), valid, f, (Exception,))
                    if c is not None:
                        o, a = opt(c, path)
                        got = getattr(o, a)
                        ctx.equal(list(got) if isinstance(v, (list, tuple)) else got, list(v) if isinstance(v, (list, tuple)) else v, "%s after the assignment" % path)
                    ctx.state(cls, path, repr(v), builder)
                    ctx.end(path)
    for valid, values in ((True, BUILDERS[0]), (False, BUILDERS[1])):
        for v in values:
            ctx.begin(cls, "tractBuilder", v)

            def f():
                cfg = fresh()
                cfg.tractBuilder.name = v
                cfg.validate()
                cfg.tractBuilder.active
            decide(ctx, "%s with tract builder %r" % (cls, v), valid, f, (Exception,))
            ctx.state(cls, "builder", repr(v))
            ctx.end(v)
    for name in ("numTract", "patchBorders", "tractbuilder", "version", "raEnd"):
        ctx.begin(cls, name)

        def f():
            setattr(fresh(), name, 1)
        decide(ctx, "%s with the unknown option %s" % (cls, name), False, f, (AttributeError,))
        ctx.state(cls, "unknown", name)
        ctx.end(name)


def projections(ctx):
    from .. import maps
    from lsst.skymap.detail import WcsFactory
    import lsst.geom as geom
    for base in ("TAN", "STG", "CEA", "ZEA"):
        for cut in range(6):
            p = (base + "XY")[:cut]
            ctx.begin("projection")
            decide(ctx, "WcsFactory projection %r" % p, cut == 3, lambda: WcsFactory(.2 * geom.arcseconds, p), (RuntimeError,))
            decide(ctx, "WcsFactory projection=%r" % p, cut == 3, lambda: WcsFactory(pixelScale=.2 * geom.arcseconds, projection=p, rotation=3 * geom.degrees), (RuntimeError,))
            for cls in ("discrete", "rings", "dodeca", "equat", "healpix"):
                if base != "TAN" and cut == 3:
                    continue

                def f():
                    s = dict(discrete=lambda: maps.discrete(*maps.DISC_1), rings=lambda: maps.rings(3), dodeca=lambda: maps.dodeca(),
                             equat=lambda: maps.equat(5), healpix=lambda: maps.healpix(0))[cls]()
                    cfg = s.config()
                    cfg.projection = p
                    m = maps.CLASSES[cls](cfg)
                    return m[0]
                decide(ctx, "%s map with projection %r" % (cls, p), cut == 3, f, (RuntimeError,))
                ctx.state(cls, p)
            ctx.end(p)


def boxes(ctx, n, part, parts):
    import lsst.geom as geom
    from lsst.skymap.patchInfo import PatchInfo
    from lsst.skymap.cellInfo import CellInfo
    from lsst.skymap.detail import Index2D
    from .. import small
    w = small.PlateWcs()
    ivals = [(a, b) for a in range(n) for b in range(a, n)]
    k = 0
    for ix in ivals:
        for iy in ivals:
            k += 1
            if k % parts != part:
                continue
            inner = geom.Box2I(geom.Point2I(ix[0], iy[0]), geom.Point2I(ix[1], iy[1]))
            for ox in ivals:
                for oy in ivals:
                    outer = geom.Box2I(geom.Point2I(ox[0], oy[0]), geom.Point2I(ox[1], oy[1]))
                    valid = ox[0] <= ix[0] and ix[1] <= ox[1] and oy[0] <= iy[0] and iy[1] <= oy[1]
                    ctx.begin("inner", ix, iy, "outer", ox, oy)
                    p = decide(ctx, "PatchInfo", valid, lambda: PatchInfo(Index2D(0, 0), inner, outer, 0, w), (RuntimeError,))
                    c = decide(ctx, "CellInfo", valid, lambda: CellInfo(Index2D(0, 0), inner, outer, 0, w), (RuntimeError,))
                    if valid:
                        ctx.check(p.getOuterBBox() == outer and c.getOuterBBox() == outer and p.getInnerBBox() == inner and c.getInnerBBox() == inner, "boxes of the patch or cell")
                    ctx.state(ix, iy, ox, oy)
                    ctx.end(valid)


def celldims(ctx):
    import lsst.geom as geom
    import numpy
    from lsst.skymap.patchInfo import PatchInfo
    from lsst.skymap.detail import Index2D
    from .. import small
    b = geom.Box2I(geom.Point2I(0, 0), geom.Extent2I(20, 20))
    cases = []
    for k in range(5):
        for conv in (tuple, list, lambda v: numpy.array(v, dtype=int)):
            cases.append((conv([5] * k), k == 2))
    cases += [(geom.Extent2I(5, 5), True), (geom.Extent3I(5, 5, 5) if hasattr(geom, "Extent3I") else (5, 5, 5), False), (5, False), (5.0, False), (None, False)]
    for v, valid in cases:
        for kw in (dict(cellBorder=1, numCellsPerPatchInner=2, numCellsInPatchBorder=1), dict()):
            ctx.begin("cellInnerDimensions", type(v).__name__)
            if isinstance(v, numpy.ndarray) and valid:
                # numpy integers may or may not be accepted by the geometry library
                continue
            p = decide(ctx, "cellInnerDimensions=%r" % (v,), valid, lambda: PatchInfo(Index2D(0, 0), b, b, 0, small.PlateWcs(), cellInnerDimensions=v, **kw), (ValueError,))
            if p is not None:
                ctx.equal(tuple(int(x) for x in p.getCellInnerDimensions()), (5, 5), "getCellInnerDimensions")
            ctx.state(repr(v), len(kw))
            ctx.end(repr(v))


def scenarios(tier):
    big = tier == "thorough"
    yield "discrete", discrete, (7 if big else 4,)
    yield "cells", cells, (12 if big else 5,)
    yield "rings", ringscfg, (61 if big else 13,)
    yield "projections", projections, ()
    for cls in OPTIONS:
        yield "options %s" % cls, options, (cls,)
    for q in range(8):
        yield "boxes part %d" % q, boxes, (5 if big else 4, q, 8)
    yield "cell dimensions", celldims, ()
