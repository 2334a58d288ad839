ID = "C22"
RULE = ("state = (map, sequence of queries already made, values they returned modified in place); transitions = queries on the real map, each answer compared with the "
        "answer a fresh map gives when asked nothing else; a trace = one sequence")
BOUNDS = {"quick": "8 maps of all classes; all query sequences of depth 3 (dodeca, equat: 2 over all queries and 3 over half of them) over 14-27 queries, including other tracts, other maps, held tracts, patches and cells; every mutable value returned modified in place; 6 packers used in turn, all sequences of 2 of 30 queries; all ordered pairs of 12 positions along the lines between overlapping tracts of 7 maps; 5 maps asked up to 1400 different questions, forwards, backwards, again and mixed; 13 kinds of object kept while the map, restored or not, is dropped",
          "thorough": "depth 4 over 12 to 14 queries, depth 3 over all; packers depth 3"}
ASSUMPTIONS = ["TractInfo.getVertexList is documented as not being a deep copy: the list itself is not modified"]


def spoil(v, depth=0):
    """Modify a returned value in place, as far as it lets itself be modified."""
    import numpy as np
    from ..maps import geom
    if depth > 4 or v is None or isinstance(v, (str, bytes, int, float)):
        return
    if isinstance(v, (geom.Box2I, geom.Box2D)):
        v.grow(7)
        v.include(geom.Point2I(999, -999) if isinstance(v, geom.Box2I) else geom.Point2D(999, -999))
    elif isinstance(v, (geom.Point2I, geom.Extent2I, geom.Point2D, geom.Extent2D)):
        v[0] = v[0] + 11
        v[1] = v[1] * 3 + 1
    elif isinstance(v, np.ndarray):
        try:
            v[...] = 0
        except ValueError:
            pass
    elif isinstance(v, list):
        for x in v:
            spoil(x, depth + 1)
        if v:
            v.reverse()
            v.pop()
        v.append(None)
    elif isinstance(v, tuple):
        for x in v:
            spoil(x, depth + 1)
    elif isinstance(v, dict):
        for x in v.values():
            spoil(x, depth + 1)
        v.clear()


def plain(v):
    """Comparable data for an answer."""
    import numpy as np
    from .. import maps
    geom = maps.geom
    if isinstance(v, geom.Box2I):
        return maps.box(v).t if not v.isEmpty() else "empty"
    if isinstance(v, geom.SpherePoint):
        return (v.getLongitude().asRadians(), v.getLatitude().asRadians())
    if isinstance(v, (geom.Point2I, geom.Extent2I, geom.Point2D, geom.Extent2D)):
        return tuple(v)
    if isinstance(v, geom.Angle):
        return v.asRadians()
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, (list, tuple)):
        return tuple(plain(x) for x in v)
    if hasattr(v, "encode") and not isinstance(v, str):
        return v.encode()           # sphgeom regions
    if hasattr(v, "getInnerBBox"):
        if hasattr(v, "getCellInnerDimensions"):
            return maps.describe_patch(v)
        return maps.describe_cell(v)
    if hasattr(v, "getNumPatches"):
        return ("tract", int(v.getId()))
    return v


class Run:
    """One sequence: a fresh map, the objects obtained from it, shared arguments."""

    def __init__(self, spec, other):
        import numpy as np
        from .. import maps
        self.spec, self.otherspec = spec, other
        self.m = spec.make()
        self.tr, self.pa, self.ce = {}, {}, {}
        n = len(self.m)
        self.k = [0, n - 1, n // 2]
        self.ra = np.array([0.3, 200.0, 359.9, 45.0])
        self.dec = np.array([.2, 45.0, -5.0, 89.5])
        self.coords = [maps.sp(.31, .21), maps.sp(.32, .19), maps.sp(3.5, .78)]

    def t(self, i):
        if i not in self.tr:
            self.tr[i] = self.m[self.k[i]]
        return self.tr[i]

    def p(self, i):
        if i not in self.pa:
            t = self.t(i)
            n = t.getNumPatches()
            self.pa[i] = t[(int(n[0]) - 1, int(n[1]) // 2)]
        return self.pa[i]

    def c(self, i):
        if i not in self.ce:
            self.ce[i] = self.p(i)[1]
        return self.ce[i]


def alphabet(spec, small):
    from .. import maps
    q = []

    def add(name, f):
        q.append((name, f))
    for i in (0, 1, 2):
        add("tract %d bbox" % i, lambda r, i=i: [r.t(i).getBBox(), r.t(i).bbox])
        add("tract %d grid" % i, lambda r, i=i: [r.t(i).getNumPatches(), r.t(i).patch_inner_dimensions, r.t(i).getPatchInnerDimensions(), r.t(i).getPatchBorder(), len(r.t(i))])
        add("tract %d last patch" % i, lambda r, i=i: [r.t(i)[len(r.t(i)) - 1], r.t(i).getPatchIndexPair(len(r.t(i)) - 1), r.t(i).getSequentialPatchIndexFromPair(r.t(i).getPatchIndexPair(1))])
    add("patch 0 boxes", lambda r: [r.p(0).getInnerBBox(), r.p(0).inner_bbox, r.p(0).getOuterBBox(), r.p(0).outer_bbox, r.p(0).getIndex(), r.p(0).getSequentialIndex()])
    add("patch 1 boxes", lambda r: [r.p(1).inner_bbox, r.p(1).outer_bbox, r.p(1).getCellInnerDimensions(), r.p(1).cell_inner_dimensions, r.p(1).getNumCells(), r.p(1).num_cells])
    add("iterate half", lambda r: [t.getId() for _, t in zip(range((len(r.m) + 1) // 2), r.m)])
    add("findTract", lambda r: [r.m.findTract(c).getId() for c in r.coords])
    add("findTractIdArray", lambda r: [r.m.findTractIdArray(r.ra, r.dec, degrees=True), r.ra, r.dec] if False else [r.m.findTractIdArray(r.ra, r.dec, degrees=True)])
    add("tract 0 findPatchList", lambda r: [list(r.t(0).findPatchList([r.t(0).getCtrCoord()] + r.coords))])
    add("tract 1 wcs, polygons", lambda r: [[r.t(1).getWcs().pixelToSky(maps.geom.Point2D(3, 4)), r.t(1).wcs.skyToPixel(r.t(1).getCtrCoord())],
                                            r.t(1).getOuterSkyPolygon(), r.t(1).inner_sky_region])
    def other(r):
        o = r.otherspec.make()
        t, n = o[0], len(o)
        out = [t.getBBox(), t[0], t[len(t) - 1], o[n // 2].getBBox(), o.findTract(r.coords[0]), o.findTractIdArray(r.ra, r.dec, degrees=True),
               o.getSha1(), n, list(t.findPatchList([t.getCtrCoord()])), t.getOuterSkyPolygon(), t[0].getOuterSkyPolygon()]
        return out + ([t[0][1]] if len(t[0]) > 1 else [])
    add("other map", other)
    add("sha1", lambda r: [r.m.getSha1(), hash(r.m) == hash(r.m.getSha1()), len(r.m)])
    add("regions 0 and 2", lambda r: [r.t(0).getInnerSkyRegion(), r.t(2).inner_sky_region, r.t(0).getOuterSkyPolygon()])
    if not small:
        add("tract 0 vertices", lambda r: [tuple(r.t(0).getVertexList()), r.t(0).getCtrCoord()])
        add("findTractPatchList", lambda r: [[(t.getId(), list(p)) for t, p in r.m.findTractPatchList(r.coords[:2])]])
        add("findClosest", lambda r: [[(t.getId(), list(p)) for t, p in r.m.findClosestTractPatchList(r.coords[:2])]])
        add("patch 0 polygons", lambda r: [r.p(0).getOuterSkyPolygon(), r.p(0).inner_sky_polygon, r.p(0).getWcs().pixelToSky(maps.geom.Point2D(1, 1))])
        add("patch 0 polygons, other WCS", lambda r: [r.p(0).getOuterSkyPolygon(r.t(1).getWcs()), r.p(0).getInnerSkyPolygon(r.t(2).getWcs())])
        add("fresh tract 1", lambda r: [r.m[r.k[1]].getBBox(), r.m[r.k[1]][0]])
        add("tract 2 findPatch", lambda r: [r.t(2).findPatch(r.t(2).getCtrCoord()), r.t(2).contains(r.coords[0])])
        if spec.cls == "rings":
            add("rings", lambda r: [r.m.getRingIndices(r.k[2]), list(r.m.getRaDecRange(r.k[2])), [t.getId() for t in r.m.findAllTracts(r.coords[0])]])
    if spec.builder[0] == "cells":
        add("cell 0", lambda r: [r.c(0).getInnerBBox(), r.c(0).inner_bbox, r.c(0).getOuterBBox(), r.c(0).outer_bbox, r.c(0).getIndex()])
        if not small:
            add("cell 1 of patch 1", lambda r: [r.p(1)[(1, 0)], r.p(1).getCellIndexPair(2), r.c(1).getOuterSkyPolygon() if hasattr(r.c(1), "getOuterSkyPolygon") else 0])
            add("last cell", lambda r: [list(r.p(0))[-1]])
    return q


def explore(ctx, spec, other, depth, small, firsts):
    import itertools
    qs = alphabet(spec, small)
    want = {}
    for name, f in qs:
        want[name] = plain(f(Run(spec, other)))
    for seq in itertools.product(range(len(qs)), repeat=depth):
        if firsts is not None and seq[0] % firsts[1] != firsts[0]:
            continue
        r = Run(spec, other)
        ctx.begin(spec, "fresh")
        ra, dec = r.ra.copy(), r.dec.copy()
        coords = list(r.coords)
        for i in seq:
            name, f = qs[i]
            ctx.step(name)
            v = f(r)
            got = plain(v)
            if got != want[name]:
                ctx.fail("%s after %r: got %s, a fresh map answers %s" % (
                    name, [qs[j][0] for j in seq], str(got)[:700], str(want[name])[:700]))
            spoil(v)
            if not ((r.ra == ra).all() and (r.dec == dec).all() and r.coords == coords):
                ctx.fail("%s modified its arguments" % name)
        ctx.state(seq)
        ctx.end(seq)


def dodecahedron(ctx, depth):
    """The face and vertex lists of the dodecahedron, under modification of what was returned."""
    import itertools
    import numpy as np
    from lsst.skymap import detail
    qs = [("face 0", lambda d: d.getFaceCtr(0)), ("face 5", lambda d: d.getFaceCtr(5)), ("faces", lambda d: d.getFaceCtrList()),
          ("vertices 0", lambda d: d.getVertices(0)), ("vertices 7", lambda d: d.getVertices(7)), ("ind", lambda d: int(d.getFaceInd(np.array([.1, .5, -.3]))))]
    for poles in (False, True):
        want = {n: plain(f(detail.Dodecahedron(poles))) for n, f in qs}
        for seq in itertools.product(qs, repeat=depth):
            d = detail.Dodecahedron(poles)
            ctx.begin("dodecahedron", poles)
            for n, f in seq:
                ctx.step(n)
                v = f(d)
                got = plain(v)
                ctx.equal(got, want[n], "%s after %r", n, [s[0] for s in seq])
                spoil(v)
            ctx.state(poles, tuple(s[0] for s in seq))
            ctx.end((poles, tuple(s[0] for s in seq)))


def packers(ctx, depth):
    """Packers with other band tables and sizes, used in turn; every answer is the one the tables imply."""
    import itertools
    from .. import pk
    kinds = [(None, None, (2, 3, 4), {}), ({"r": 0, "i": 1}, 2, (2, 3, 4), {}), ({"i": 0, "r": 1}, 2, (2, 3, 4), {}), ({"r": 0, "i": 1}, 2, (3, 3, 2), {}),
             ({"r": 1, "i": 4}, 6, None, dict(n_tracts=5, n_patches=7)), ({"r": 0, "i": 1}, 0, (2, 3, 4), {})]
    qs = []
    for k, (bands, nb, rec, kw) in enumerate(kinds):
        nx, ny, T = rec or (None, None, kw.get("n_tracts"))
        P = kw.get("n_patches") or nx * ny
        m = pk.Model(bands, nb, T, P)
        b = "r" if m.has_band() else None
        top = (T - 1, P - 1, "i" if m.has_band() else None)
        for d in ((1, 2, b), top):
            qs.append((k, "pack %r" % (d,), lambda p, d=d: int(p.pack(pk.data_id(*d))), m.pack(*d)))
            w = dict(skymap="sm", tract=d[0], patch=d[1])
            if d[2]:
                w["band"] = d[2]
            qs.append((k, "unpack %d" % m.pack(*d), lambda p, n=m.pack(*d): {x: p.unpack(n)[x] for x in p.dimensions.names}, w))
        qs.append((k, "maxBits", lambda p: int(p.maxBits), m.bits()))

    def fresh(k):
        bands, nb, rec, kw = kinds[k]
        return pk.Packer(pk.fixed(*(rec or ())), bands=None if bands is None else dict(bands), n_bands=nb, **kw)
    for seq in itertools.product(range(len(qs)), repeat=depth):
        for new in (False, True):
            held = {}
            ctx.begin("packers", "a new one each time" if new else "kept")
            for i in seq:
                k, name, f, want = qs[i]
                ctx.step(k, name)
                if new or k not in held:
                    held[k] = fresh(k)
                ctx.equal(f(held[k]), want, "packer %d (bands %r, n_bands %r): %s after %r", k, kinds[k][0], kinds[k][1], name, [qs[j][:2] for j in seq])
            ctx.state(seq, new)
            ctx.end((seq, new))


def long(ctx, spec, npos):
    """Hundreds of different questions to one map, forwards, backwards and forwards again."""
    import numpy as np
    from .. import maps
    P = [((k * 137.508 % 360) * maps.DEG, np.arcsin(-.99 + 1.98 * k / npos)) for k in range(npos)]
    qs = []
    n0 = len(spec.make())
    for i in range(n0):
        qs.append(("tract %d" % i, lambda m, i=i: [m[i].getBBox(), m[i].getId(), m[i].getCtrCoord(), m[i][len(m[i]) // 2].getOuterBBox(),
                                                   m[i].getInnerSkyRegion() if spec.cls != "discrete" else 0]))
    for k, (lon, lat) in enumerate(P):
        qs.append(("findTract %d" % k, lambda m, lon=lon, lat=lat: m.findTract(maps.sp(lon, lat)).getId()))
        if spec.cls != "discrete":
            qs.append(("findTractIdArray %d" % k, lambda m, lon=lon, lat=lat: m.findTractIdArray([lon, lat], [lat, lat])))
        if k % 4 == 0:
            qs.append(("findTractPatchList %d" % k, lambda m, lon=lon, lat=lat: [[(t.getId(), [tuple(p.getIndex()) for p in ps])
                                                                                 for t, ps in m.findTractPatchList([maps.sp(lon, lat), maps.sp(lon + .01, lat)])]]))
    t0 = spec.make()[n0 // 2]
    for s in range(min(len(t0), 400)):
        qs.append(("patch %d" % s, lambda m, s=s: [m.held[s].getInnerBBox(), m.held[s].getOuterBBox(), m.held.getPatchIndexPair(s), m.held[m.held.getPatchIndexPair(s)].getSequentialIndex(),
                                                   m.held.findPatch(m.held.getWcs().pixelToSky(maps.geom.Point2D(m.held[s].getInnerBBox().getCenter()) if False else maps.geom.Point2D(m.held[s].getInnerBBox().getMin()))).getSequentialIndex()]
                   + ([m.held[s][len(m.held[s]) - 1].getOuterBBox()] if spec.builder[0] == "cells" else [])))
    if spec.cls == "rings":
        qs += [("ring of %d" % i, lambda m, i=i: [m.getRingIndices(i), list(m.getRaDecRange(i))]) for i in range(n0)]

    class Held:
        def __init__(self):
            self.m = spec.make()
            self.held = self.m[n0 // 2]

        def __getattr__(self, name):
            return getattr(self.m, name)

        def __getitem__(self, i):
            return self.m[i]
    want = []
    for k, (_, f) in enumerate(qs):
        if k % 24 == 0:
            m = Held()
        want.append(plain(f(m)))
    m = Held()
    L = len(qs)
    mixed = [k * 7919 % L for k in range(L)] if L % 7919 else range(L)
    for what, order in (("forwards", range(L)), ("backwards", range(L - 1, -1, -1)), ("forwards again", range(L)), ("mixed", mixed)):
        for k in order:
            ctx.begin(spec, what, qs[k][0])
            ctx.state(what, k)
            ctx.step(qs[k][0])
            v = qs[k][1](m)
            got = plain(v)
            ctx.check(got == want[k], "%s, asked %s after hundreds of questions, is %s; a fresh map answers %s", qs[k][0], what, str(got)[:300], str(want[k])[:300])
            spoil(v)
            ctx.end(what)


def nearby(ctx, spec):
    """Every ordered pair of positions on the line between two overlapping tracts, asked of one map."""
    from .. import maps
    n = len(spec.make())
    first = spec.make()
    ctr = [maps.tov(t.getCtrCoord()) for t in first]

    def sep(i, j):
        return sum((a - b) ** 2 for a, b in zip(ctr[i], ctr[j]))
    lines = {tuple(sorted((i, min((j for j in range(n) if j != i), key=lambda j: sep(i, j))))) for i in range(n)} if n > 1 else {(0, 0)}
    lines |= {(i, i + 1) for i in range(n - 1)}

    def found(m, v):
        c = maps.spv(v)
        out = [m.findTract(c).getId(), [(t.getId(), [tuple(p.getIndex()) for p in ps]) for t, ps in m.findTractPatchList([c])],
               [(t.getId(), [tuple(p.getIndex()) for p in ps]) for t, ps in m.findClosestTractPatchList([c])]]
        if spec.cls == "rings":
            out.append([t.getId() for t in m.findAllTracts(c)])
        return out

    def held(m, t, v):
        c = maps.spv(v)
        return [t.contains(c), tuple(t.findPatch(c).getIndex()) if t.contains(c) else None, [tuple(p.getIndex()) for p in t.findPatchList([c])],
                [[tuple(p.getIndex()) for p in t.findPatchList([c, maps.spv(ctr[t.getId()])])]]]
    for i, j in sorted(lines)[:24]:
        P = []
        for f in (-.3, 0, .15, .3, .42, .49, .51, .58, .7, .85, 1, 1.3):
            v = [a + f * (b - a) for a, b in zip(ctr[i], ctr[j])] if i != j else [a + f * .003 * k for k, a in enumerate(ctr[i])]
            r = sum(x * x for x in v) ** .5
            P.append((f, tuple(x / r for x in v)))
        asks = [("find", found)] + [("tract %d" % k, lambda m, v, k=k: held(m, m.mine[k], v)) for k in (i, j)]

        def fresh():
            m = spec.make()
            m.mine = {k: m[k] for k in (i, j)}
            return m
        want = {}
        for what, ask in asks:
            for f, v in P:
                want[what, f] = plain(ask(fresh(), v))
        for what, ask in asks:
            for f, v in P:
                m = fresh()
                for g, w in P:
                    for h, x in ((f, v), (g, w), (f, v)):
                        ctx.begin(spec, what, i, j)
                        ctx.step(what, h)
                        got = plain(ask(m, x))
                        ctx.check(got == want[what, h], "%s, %r of the way from tract %d to %d, after %r and %r: %r; a fresh map answers %r",
                                  what, h, i, j, f, g, got, want[what, h])
                    ctx.state(what, i, j, f, g)
                    ctx.end(what)


def frozen(ctx, spec, how="built"):
    """No route changes the configuration of a built map."""
    import copy
    import pickle
    m = spec.make()
    m = {"built": lambda: m, "unpickled": lambda: pickle.loads(pickle.dumps(m)), "copied": lambda: copy.copy(m), "deep-copied": lambda: copy.deepcopy(m),
         "unpickled twice": lambda: pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(m, 2))))}[how]()
    c = m.config
    before = c.toDict()
    tries = [(k, lambda k=k: setattr(c, k, getattr(c, k))) for k in ("tractOverlap", "pixelScale", "projection", "rotation")]
    tries += [(k, lambda k=k, v=v: setattr(c, k, v)) for k, v in
              (("tractOverlap", .7), ("pixelScale", 9.0), ("projection", "TAN"), ("rotation", 3.0), ("patchBorder", 1), ("patchInnerDimensions", [3, 4]))]
    tries += [(k, lambda k=k, v=v: setattr(c, k, v)) for k, v in dict(
        rings=dict(numRings=9, raStart=1.0), dodeca=dict(withTractsOnPoles=True), equat=dict(numTracts=9, decRange=[0., 1.]),
        healpix=dict(log2NSide=3, nest=True), discrete=dict(raList=[1.0], decList=[], radiusList=[1.0]))[spec.cls].items()]
    tries += [("builder name", lambda: setattr(c.tractBuilder, "name", "cells")), ("builder name", lambda: setattr(c.tractBuilder, "name", "legacy")),
              ("legacy border", lambda: setattr(c.tractBuilder["legacy"], "patchBorder", 1)),
              ("legacy dims item", lambda: c.tractBuilder["legacy"].patchInnerDimensions.__setitem__(0, 5)),
              ("cell border", lambda: setattr(c.tractBuilder["cells"], "cellBorder", 1))]
    if spec.cls == "discrete":
        tries += [("list append", lambda: c.raList.append(1.0)), ("list item", lambda: c.decList.__setitem__(0, 1.0)), ("list pop", lambda: c.radiusList.pop())]
    if spec.cls == "equat":
        tries += [("list item", lambda: c.decRange.__setitem__(0, 1.0))]
    for name, f in tries:
        ctx.begin(spec, how, name)
        ctx.step(name)
        ctx.state(how, name)
        ctx.raises(Exception, f, "changing %s of a %s %s map" % (name, how, spec.cls))
        ctx.equal(c.toDict(), before, "configuration after changing %s", name)
        ctx.end(name)
    x = spec.make()
    ctx.equal(m.getSha1(), x.getSha1(), "SHA1 after all attempts")


def lifetimes(ctx, spec):
    """Objects that outlive the map, tract, patch or restored map they came from."""
    import copy
    import gc
    import pickle
    from .. import maps

    def tract(t):
        return [maps.describe_tract(t), t.getOuterSkyPolygon(), t.getInnerSkyRegion() if spec.cls != "discrete" else 0, t.contains(t.getCtrCoord()),
                t.getWcs().skyToPixel(t.getCtrCoord()), list(t.findPatchList([t.getCtrCoord()])), t[0], t.findPatch(t.getCtrCoord())]

    def patch(p):
        return [maps.describe_patch(p, True), p.getOuterSkyPolygon(), p.inner_sky_polygon, p.getWcs().pixelToSky(maps.geom.Point2D(1, 2)), p.wcs.pixelToSky(maps.geom.Point2D(3, 1))]

    def cell(c):
        return [maps.describe_cell(c), c.getOuterSkyPolygon(), c.inner_sky_polygon, c.wcs.pixelToSky(maps.geom.Point2D(1, 2)), c.getInnerSkyPolygon()]

    def config(c):
        return [c.pixelScale, c.tractOverlap, c.rotation, c.projection, c.tractBuilder.name, str(c.toDict())]
    kept = [("tract", lambda m, i: m[i], tract), ("patch", lambda m, i: m[i][len(m[i]) - 1], patch),
            ("found patch", lambda m, i: m[i].findPatch(m[i].getCtrCoord()), patch),
            ("found tract", lambda m, i: m.findTract(m[i].getCtrCoord()), tract),
            ("listed patch", lambda m, i: m[i].findPatchList([m[i].getCtrCoord()])[0], patch),
            ("iterated patch", lambda m, i: [p for p in m[i]][len(m[i]) // 2], patch), ("iterated tract", lambda m, i: list(m)[i], tract),
            ("WCS", lambda m, i: m[i].getWcs(), lambda w: [w.pixelToSky(maps.geom.Point2D(x, 2.5)) for x in (0, 7)] + [w.skyToPixel(maps.sp(.3, .2))] if spec.cls != "healpix" else [w.pixelToSky(maps.geom.Point2D(0, 2.5))]),
            ("configuration", lambda m, i: m.config, config), ("pairs", lambda m, i: m.findTractPatchList([m[i].getCtrCoord()]), lambda v: [(t.getId(), list(ps)) for t, ps in v] + [patch(v[0][1][0])]),
            ("half an iteration", lambda m, i: (lambda it: (next(it), it)[1])(iter(m)), lambda it: [t.getId() for t in it] + [0])]
    if spec.builder[0] == "cells":
        kept.append(("cell", lambda m, i: m[i][0][len(m[i][0]) - 1], cell))
        kept.append(("iterated cell", lambda m, i: list(m[i][1])[0], cell))
    sources = [("map", lambda m: m), ("unpickled map", lambda m: pickle.loads(pickle.dumps(m))), ("copied map", copy.copy), ("deep-copied map", copy.deepcopy)]
    n = len(spec.make())
    for name, get, ask in kept:
        for i in sorted({0, n // 2, n - 1}):
            still = spec.make()
            want = plain(ask(get(still, i)))
            for source, make in sources:
                for others in (False, True):
                    ctx.begin(spec, source, name, "of tract", i)
                    ctx.state(name, i, source, others)
                    m = make(spec.make())
                    x = get(m, i)
                    if others:          # the first answers are already given
                        y = ask(get(m, i))
                        del y
                    ctx.step("the map is gone")
                    del m
                    gc.collect()
                    got = plain(ask(x))
                    ctx.check(got == want, "%s of tract %d of a %s that is gone: %s; with the map there %s", name, i, source, str(got)[:400], str(want)[:400])
                    ctx.end((name, others))


def scenarios(tier):
    from .. import maps
    big = tier == "thorough"
    pairs = [(maps.discrete(*maps.DISC_A), maps.discrete(*maps.DISC_B, builder=maps.CELL)),
             (maps.discrete(*maps.DISC_A, builder=maps.CELL), maps.discrete(*maps.DISC_1, scale=20.0)),
             (maps.rings(3, 10.0, npix=50), maps.rings(4, builder=maps.CELL)),
             (maps.rings(4, 0.0, version=0, builder=maps.CELL, npix=40), maps.rings(3)),
             (maps.healpix(0, True, ov=0.0), maps.healpix(1)),
             (maps.healpix(1, False, ov=0.0, builder=maps.CELL), maps.healpix(0)),
             (maps.dodeca(False, ov=0.0), maps.dodeca(True, ov=0.0, builder=maps.CELL)),
             (maps.equat(4, ov=0.0), maps.equat(3, (0.0, 10.0), ov=0.0))]
    for s, o in pairs:
        slow = s.cls in ("dodeca", "equat")
        if slow:
            yield "depth 2 %s" % s, explore, (s, o, 2, False, None)
            n = 8
            for i in range(n):
                yield "depth 3 part %d %s" % (i, s), explore, (s, o, 3, not big, (i, n))
        else:
            n = 8
            for i in range(n):
                yield "depth 3 part %d %s" % (i, s), explore, (s, o, 3, False, (i, n))
            if big:
                for i in range(24):
                    yield "depth 4 part %d %s" % (i, s), explore, (s, o, 4, True, (i, 24))
        for how in ("built", "unpickled", "copied", "deep-copied", "unpickled twice"):
            yield "frozen %s %s" % (how, s), frozen, (s, how)
        yield "lifetimes %s" % s, lifetimes, (s,)
    for s in maps.many():
        if big or s.cls != "healpix":
            yield "long %s" % s, long, (s, 1200 if big else 280)
    over = [maps.discrete([5., 6., 6.2], [0., 0., .9], [.9, .9, .5], ov=.5, scale=100.0), maps.rings(3, 10.0, ov=20.0, npix=40), maps.rings(4, 0.0, ov=20.0, npix=40, version=0, builder=maps.CELL),
            maps.dodeca(False, ov=10.0, npix=40), maps.equat(4, ov=30.0, npix=40), maps.healpix(0, True, ov=10.0, npix=40), maps.discrete([80.], [-20.], [.3], scale=100.0)]
    for s in over:
        yield "nearby %s" % s, nearby, (s,)
    yield "packers", packers, (3 if big else 2,)
    yield "dodecahedron", dodecahedron, (4 if big else 3,)
