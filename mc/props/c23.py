ID = "C23"
RULE = ("state = (pair or triple of calls, position of each thread at a preemption); transitions = scheduling points executed in the real code; a trace = one schedule, "
        "whose results are compared with those of each call made alone")
BOUNDS = {"quick": "2 threads, 127 combinations of colliding calls on fresh maps, tracts, patches and packers: all schedules with <= 2 preemptions at source-line granularity where both calls take <= 100 lines together "
                   "(<= 1 preemption otherwise), and <= 1 preemption at bytecode granularity up to 1300 bytecodes", "thorough": "2 preemptions up to 470 lines, 1 preemption at bytecode granularity up to 10000 bytecodes, 3 threads with 1 preemption; up to 50 lines 3 preemptions, 3 threads with 2, and 2 at bytecode granularity"}
ASSUMPTIONS = ["scheduling points are lines and bytecodes of the package's own source; lsst.geom and lsst.afw.geom stand-ins have no shared state"]


def maps_under_test():
    from .. import maps
    return dict(
        disc=maps.discrete(*maps.DISC_B, ov=0.0, scale=40.0),
        cells=maps.discrete(*maps.DISC_B, builder=maps.CELL, scale=40.0),
        rings=maps.rings(3, 10.0, npix=30),
        rings0=maps.rings(4, 0.0, version=0, npix=30),
        hp=maps.healpix(0, True, ov=0.0, npix=30),
        dodeca=maps.dodeca(False, ov=0.0, npix=30),
        equat=maps.equat(3, ov=0.0, npix=30))


def tract_picture(t):
    from .. import maps
    n = t.getNumPatches()
    return (int(t.getId()), maps.box(t.getBBox()).t, tuple(int(v) for v in n), tuple(int(v) for v in t.getPatchInnerDimensions()),
            maps.describe_patch(t[len(t) - 1]))


def calls(kind):
    """name -> f(shared)."""
    from .. import maps
    from ..maps import geom
    c = maps.sp(2.62, .04)
    out = {}
    out["tract 0"] = lambda m: tract_picture(m[0])
    out["tract 1"] = lambda m: tract_picture(m[1])
    out["last tract"] = lambda m: tract_picture(m[len(m) - 1])
    out["sha1"] = lambda m: m.getSha1()
    out["findTract"] = lambda m: tract_picture(m.findTract(c))
    out["ids"] = lambda m: [int(t.getId()) for t in m]
    out["array"] = lambda m: [int(v) for v in m.findTractIdArray([2.62, .5, 4.0], [.04, 1.5, -.7])]
    out["lists"] = lambda m: [(int(t.getId()), sorted(tuple(p.getIndex()) for p in ps)) for t, ps in m.findTractPatchList([c])]
    if kind in ("rings", "rings0"):
        out["all"] = lambda m: [int(t.getId()) for t in m.findAllTracts(c)]
    return out


def packer(bands, n):
    from .. import pk
    return pk.Packer(pk.fixed(3, 4, 7), bands=bands, n_bands=n)


def pack(p, tract, patch, band):
    from .. import pk
    d = dict(skymap="sm", tract=tract, patch=patch)
    if band is not None:
        d["band"] = band
    return p.pack(pk.DataCoordinate.standardize(d, dimensions=p.dimensions))


def unpack(p, i):
    d = p.unpack(i)
    return tuple(sorted((k, d[k]) for k in d.dimensions.names))


def tract_id(t):
    return int(t.getId())


def picture(pairs):
    return [(tract_id(t), sorted(tuple(p.getIndex()) for p in ps)) for t, ps in pairs]


def tract_methods(spec, k):
    from .. import maps
    t = spec.make()[k]
    w, b, n = t.getWcs(), maps.geom.Box2D(t.getBBox()), t.getNumPatches()

    def at(fx, fy):
        return w.pixelToSky(maps.geom.Point2D(b.getMinX() + fx * b.getWidth(), b.getMinY() + fy * b.getHeight()))
    a, z = at(.1, .1), at(.9, .9)
    if k:
        a, z = z, a
    pa, pz = (0, 0), (int(n[0]) - 1, int(n[1]) - 1)
    if k:
        pa, pz = pz, pa
    return [("findPatch", lambda t, x: maps.describe_patch(t.findPatch(x)), a, z),
            ("contains", lambda t, x: bool(t.contains(x)), a, maps.sp(6.0, -1.0)),
            ("findPatchList", lambda t, x: [tuple(p.getIndex()) for p in t.findPatchList(x)], [a], [z]),
            ("getPatchInfo", lambda t, x: maps.describe_patch(t.getPatchInfo(x)), pa, pz),
            ("getPatchIndexPair", lambda t, x: tuple(t.getPatchIndexPair(x)), 1, len(t) - 1),
            ("getSequentialPatchIndexFromPair", lambda t, x: int(t.getSequentialPatchIndexFromPair(x)), pz, pa),
            ("regions", lambda t, x: [x, (t.getOuterSkyPolygon() if x else t.getInnerSkyRegion()).encode()], 0, 1)]


def differ(label, make, methods):
    return [("%s: %s, two arguments" % (label, n), make, [lambda o, f=f, x=x: f(o, x), lambda o, f=f, y=y: f(o, y)]) for n, f, x, y in methods]


def cases():
    """[(label, make shared, [call, ...])]"""
    import copy
    import logging
    import pickle
    from .. import maps
    spec = maps_under_test()
    out = []
    combos = {
        "disc": [("tract 0", "tract 0"), ("tract 0", "tract 1"), ("tract 1", "last tract"), ("sha1", "sha1"), ("tract 1", "ids"), ("findTract", "tract 0"), ("findTract", "findTract"), ("sha1", "tract 0"), ("lists", "lists")],
        "cells": [("tract 0", "tract 1"), ("tract 1", "tract 1"), ("ids", "ids")],
        "rings": [("tract 0", "tract 0"), ("tract 1", "last tract"), ("findTract", "findTract"), ("array", "array"), ("array", "findTract"), ("all", "tract 1")],
        "rings0": [("tract 1", "tract 1"), ("array", "array"), ("findTract", "tract 0")],
        "hp": [("tract 0", "tract 1"), ("findTract", "findTract"), ("sha1", "sha1")],
        "dodeca": [("tract 0", "tract 1"), ("findTract", "findTract"), ("sha1", "sha1")],
        "equat": [("tract 0", "last tract"), ("findTract", "sha1")]}
    for kind, pairs in combos.items():
        cs = calls(kind)
        for names in pairs:
            out.append(("%s: %s" % (kind, " | ".join(names)), spec[kind].make, [cs[n] for n in names]))

    def held(kind):
        def f():
            m = spec[kind].make()
            return m[0]
        return f

    def patch(kind, ix):
        from .. import maps
        return lambda t: (maps.describe_patch(t[ix]), maps.describe_patch(t[len(t) - 1]))

    def region(t):
        return sorted(tuple(p.getIndex()) for p in t.findPatchList([t.getCtrCoord()]))
    for kind in ("disc", "cells", "dodeca"):
        out.append(("%s tract: patch | patch" % kind, held(kind), [patch(kind, 0), patch(kind, (1, 0))]))
        out.append(("%s tract: patch | region" % kind, held(kind), [patch(kind, (0, 1)), region]))
        out.append(("%s tract: contains | findPatch" % kind, held(kind), [lambda t: bool(t.contains(t.getCtrCoord())),
                                                                        lambda t: tuple(t.findPatch(t.getCtrCoord()).getIndex())]))

    def cellpatch():
        return spec["cells"].make()[0][0]

    def cell(i):
        from .. import maps
        return lambda p: (maps.describe_cell(p[i]), maps.describe_patch(p))
    out.append(("cells patch: cell | cell", cellpatch, [cell(0), cell((1, 2))]))
    # The same method with different arguments, on one object and on two objects of a class.
    for kind in ("disc", "rings", "rings0", "hp", "dodeca", "equat"):
        a, z = maps.sp(2.62, .04), maps.sp(5.9, -1.2)
        region2 = [maps.sp(2.62, .04), maps.sp(2.63, .05)]
        region1 = [maps.sp(2.64, .03)]
        ms = [("findTract", lambda m, x: tract_id(m.findTract(x)), a, z),
              ("findTractIdArray", lambda m, x: [int(v) for v in m.findTractIdArray(*x)], ([2.62, .5], [.04, 1.5]), ([5.9, 3.0, 1.1], [-1.2, .2, .9]))]
        if kind in ("disc", "rings", "equat"):
            ms += [("findTractPatchList", lambda m, x: picture(m.findTractPatchList(x)), region1, region2),
                   ("findClosestTractPatchList", lambda m, x: picture(m.findClosestTractPatchList(x)), region2, region1)]
        if kind in ("rings", "rings0"):
            ms += [("findAllTracts", lambda m, x: [tract_id(t) for t in m.findAllTracts(x)], a, z),
                   ("getRingIndices", lambda m, x: tuple(int(v) for v in m.getRingIndices(x)), 4, 11),
                   ("getRaDecRange", lambda m, x: tuple(v.asRadians() for v in m.getRaDecRange(x)), 4, 11)]
        def warm(kind=kind):
            m = spec[kind].make()
            m.tracts = list(m)          # generated beforehand
            return m
        out += differ(kind, spec[kind].make, ms[:2])
        out += differ(kind, warm, ms[2:])
    for kind in ("disc", "cells"):
        out += differ(kind + " tract", held(kind), tract_methods(spec[kind], 0))
        two = [(n, lambda o, x, f=f: f(o[x[0]], x[1]), (0, x), (1, y)) for (n, f, x, _), (_, _, _, y)
               in zip(tract_methods(spec[kind], 0), tract_methods(spec[kind], 1))]
        out += differ(kind + " two tracts", lambda kind=kind: [t for _, t in zip(range(2), spec[kind].make())], two)
    # persistence, comparison and the log against use
    def restored(m):
        q = pickle.loads(pickle.dumps(m))
        return type(q).__name__, len(q), q.getSha1().hex()

    def copied(m):
        q = copy.copy(m)
        return type(q).__name__, len(q)

    def reduced(m):
        return len(pickle.dumps(m)) > 0

    def logged(m):
        log = logging.Logger("x", logging.INFO)
        log.propagate = False
        got = []
        log.addHandler(type("H", (logging.Handler,), dict(emit=lambda s, r: got.append(r.getMessage())))())
        m.logSkyMapInfo(log)
        return got
    for kind in ("disc", "rings0", "dodeca", "equat"):
        same, differs = spec[kind].make(), spec["cells" if kind != "cells" else "disc"].make()

        def used(kind=kind):
            m = spec[kind].make()
            for t in m:
                t[0]
            return m
        out.append(("%s used: pickled | tract 1" % kind, used, [reduced, lambda m: tract_picture(m[1])]))
        out.append(("%s: pickled | tract 1" % kind, spec[kind].make, [reduced, lambda m: tract_id(m[1])]))
        if kind != "dodeca":
            out.append(("%s used: copied | sha1" % kind, used, [copied, lambda m: m.getSha1()]))
        out.append(("%s: pickled | pickled" % kind, spec[kind].make, [reduced, reduced]))
        out.append(("%s: equal | different" % kind, spec[kind].make, [lambda m, same=same: (m == same, m != same), lambda m, d=differs: (m == d, m != d, hash(m))]))
    for kind in ("disc", "equat"):
        out.append(("%s used: log | tract 1" % kind, lambda kind=kind: (lambda m: (list(m), m)[1])(spec[kind].make()), [logged, lambda m: tract_id(m[1])]))
        out.append(("%s: log | log" % kind, spec[kind].make, [logged, logged]))
        out.append(("%s restored: sha1, tract | tract" % kind, lambda kind=kind: pickle.loads(pickle.dumps(spec[kind].make())), [lambda m: (m.getSha1(), tract_id(m[0])), lambda m: tract_picture(m[1])]))
    p, w = (0, 0), (2, 1)
    out += differ("cells patch", cellpatch, [
        ("getCellIndexPair", lambda q, x: tuple(q.getCellIndexPair(x)), 1, 5),
        ("getSequentialCellIndexFromPair", lambda q, x: q.getSequentialCellIndexFromPair(x), p, w),
        ("getOuterSkyPolygon", lambda q, x: [x, (q.getOuterSkyPolygon() if x else q.getInnerSkyPolygon()).encode()], 0, 1),
        ("cell polygon", lambda q, x: q[x].getOuterSkyPolygon().encode(), p, w)])
    from lsst.skymap import detail
    out += differ("dodecahedron", lambda: detail.Dodecahedron(withFacesOnPoles=True), [
        ("getFaceInd", lambda d, x: int(d.getFaceInd(x)), (0., 0., 1.), (1., 0., -.4)),
        ("getVertices", lambda d, x: [tuple(v) for v in d.getVertices(x)], 2, 7)])
    arc = maps.geom.arcseconds
    out += differ("WCS factory", lambda: detail.WcsFactory(maps.geom.Angle(10., arc), "TAN"), [
        ("makeWcs", lambda f, x: tuple(f.makeWcs(maps.geom.Point2D(*x[0]), maps.sp(*x[1])).skyToPixel(maps.sp(1.0, .1))), ((1, 2), (1.01, .11)), ((5, 7), (.99, .09)))])
    b = {"r": 0, "y": 3, "g": 2}
    out.append(("packer: unpack | unpack", lambda: packer(b, 5), [lambda p: unpack(p, 84 * 3 + 7), lambda p: unpack(p, 84 * 2 + 83)]))
    out.append(("packer: unpack 2 | pack, unpack", lambda: packer(b, 5), [lambda p: (unpack(p, 3), unpack(p, 84 * 3)), lambda p: (pack(p, 6, 11, "y"), unpack(p, 84 * 2))]))
    out.append(("packer: pack | pack", lambda: packer(b, 5), [lambda p: pack(p, 1, 2, "g"), lambda p: pack(p, 6, 11, "r")]))
    out.append(("packer default bands: unpack | unpack", lambda: packer(None, None), [lambda p: unpack(p, 84 * 3 + 7), lambda p: unpack(p, 84 * 24)]))
    return out


def points(make, fs, opcodes):
    from .. import sched
    o = make()
    try:
        return len(sched.Run([lambda f=f: f(o) for f in fs], 0, (), opcodes).run().points)
    except sched.Stuck:
        return 100


def go(ctx, index, bound, opcodes, part, triple=False):
    from .. import sched
    label, make, fs = cases()[index]
    if triple:
        fs = fs + [fs[0]]
    want = [f(make()) for f in fs]
    if opcodes:
        points(make, fs, True)

    def bodies():
        o = make()
        return [lambda f=f: f(o) for f in fs]

    def judge(r, first, plan):
        ctx.begin(label, "first", first, "switches", plan)
        ctx.transitions += len(r.points)
        for s, to in plan:
            ctx.tail.append(("at step", s, r.where.get(s), "switch to thread", to))
        for i in range(len(fs)):
            if r.error[i] is not None:
                ctx.fail("%s: call %d failed with %s: %s" % (label, i, type(r.error[i]).__name__, r.error[i]))
            if r.result[i] != want[i]:
                ctx.fail("%s: call %d returned %s, alone it returns %s" % (label, i, str(r.result[i])[:500], str(want[i])[:500]))
        ctx.state(label, first, plan)
        ctx.end((label, len(plan)))
    try:
        n, p = sched.explore(bodies, bound, judge, opcodes, part)
    except sched.Stuck as e:
        ctx.fail("%s: %s" % (label, e))
    ctx.notes["schedules"] = n
    ctx.notes["scheduling_points"] = p


def scenarios(tier):
    big = tier == "thorough"
    for i, (label, make, fs) in enumerate(cases()):
        points(make, fs, True)                  # opcode tracing needs a warm-up to be complete
        k, o = points(make, fs, False), points(make, fs, True)
        if k <= (470 if big else 100):
            parts = max(1, k * k // 4000)
            for q in range(parts):
                yield "lines %s bound 2 part %d" % (label, q), go, (i, 2, False, (q, parts) if parts > 1 else None)
        else:
            yield "lines %s bound 1" % label, go, (i, 1, False, None)
        if o <= (10000 if big else 1300):
            parts = max(1, o * o // 4000000)
            for q in range(parts):
                yield "bytecodes %s part %d" % (label, q), go, (i, 1, True, (q, parts) if parts > 1 else None)
        if big:
            if k <= 470:
                yield "three threads %s" % label, go, (i, 1, False, None, True)
            if k <= 50:
                yield "bound 3 %s" % label, go, (i, 3, False, None)
                yield "three threads bound 2 %s" % label, go, (i, 2, False, None, True)
                yield "bytecodes bound 2 %s" % label, go, (i, 2, True, None)
