"""A sky map of the user's own, written on the public base classes."""
ID = "C42"
RULE = ("state = (own map, operations so far, tracts generated so far, failure injected); transitions = operations on a map whose class only defines __init__, generateTract and updateSha1, each answer and each "
        "generation compared with the model; a trace = one sequence")
BOUNDS = {"quick": "4 layouts of 0 to 5 own tracts; all sequences of 3 operations out of 18 (length, SHA1, equality, subscripts, iteration, all searches, pickling, copying, log); sequences of 3 out of 10 of them with generateTract failing once at every tract (of 2, with 14 other kinds of exception); "
                   "tracts made from other tracts of the same map, in every order; tracts that are false or empty, all sequences of 3 operations out of 7; registration in a real butler",
          "thorough": "sequences of 4 operations"}
ASSUMPTIONS = ["the own class follows the documented rules for subclasses of CachingSkyMap"]
ORACLE = "Oracle: a list of centers and radii; a tract is to be generated when it is first needed and never again."

KINDS = (IndexError, KeyError, LookupError, ValueError, AttributeError, TypeError, AssertionError, ArithmeticError, OSError, MemoryError,
         NotImplementedError, RecursionError, KeyboardInterrupt, GeneratorExit)

LAYOUTS = [
    [(10.0, 0.0, .5), (11.0, 0.2, .7), (10.4, 1.1, .3)],
    [(0.02, 89.0, .4)],
    [(359.9, -45.0, .6), (0.1, -45.0, .6), (0.0, -44.5, .6), (180.0, -45.0, .2), (359.9, -45.0, 1.1)],
    [],
]


def own():
    """The user's class; made here so that the package is imported late."""
    if "OwnSkyMap" in globals():
        return globals()["OwnSkyMap"]
    import struct
    from .. import maps
    geom = maps.geom
    from lsst.skymap import BaseSkyMap
    from lsst.skymap.cachingSkyMap import CachingSkyMap
    from lsst.skymap.detail import WcsFactory
    from lsst.skymap.tractInfo import ExplicitTractInfo
    import lsst.pex.config as pexConfig

    class OwnConfig(CachingSkyMap.ConfigClass):
        layout = pexConfig.Field(dtype=int, default=0, doc="which layout")

    class OwnSkyMap(CachingSkyMap):
        ConfigClass = OwnConfig
        fail = None
        kind = RuntimeError

        def __init__(self, config, version=0):
            self.calls = []
            super().__init__(len(LAYOUTS[config.layout]), config, version)

        def generateTract(self, index):
            self.calls.append(index)
            if self.fail is not None and index == self.fail:
                self.fail = None
                raise self.kind("no tract today")
            ra, dec, rad = LAYOUTS[self.config.layout][index]
            c = self.config
            ctr = geom.SpherePoint(ra, dec, geom.degrees)
            wcs = WcsFactory(c.pixelScale * geom.arcseconds, c.projection, c.rotation * geom.degrees).makeWcs(geom.Point2D(0, 0), ctr)
            return ExplicitTractInfo(index, c.tractBuilder.apply(), ctr, rad * geom.degrees, c.tractOverlap * geom.degrees, wcs)

        def updateSha1(self, sha1):
            sha1.update(struct.pack("<i", self.config.layout))

    class OwnChainSkyMap(OwnSkyMap):
        """Every tract lies next to the one before it."""
        ConfigClass = OwnConfig

        def generateTract(self, index):
            if index and self.config.layout != 1:
                before = self[index - 1]
                assert before.getId() == index - 1 and self[index - 1] is before
            return super().generateTract(index)

    for k in (OwnConfig, OwnSkyMap, OwnChainSkyMap):
        k.__qualname__ = k.__name__
        globals()[k.__name__] = k          # so that it pickles
    assert issubclass(OwnSkyMap, BaseSkyMap)
    return OwnSkyMap


def make(cls, layout, builder, **kw):
    c = cls.ConfigClass()
    c.layout = layout
    c.tractBuilder.name = builder[0]
    for k, v in builder[1].items():
        setattr(c.tractBuilder[builder[0]], k, v)
    c.pixelScale = 60.0
    c.tractOverlap = .05
    for k, v in kw.items():
        setattr(c, k, v)
    return cls(c)


class Own:
    """Model and implementation side by side."""

    def __init__(self, ctx, cls, layout, builder, fail, kind=RuntimeError):
        self.ctx, self.cls, self.layout, self.builder = ctx, cls, layout, builder
        self.m = make(cls, layout, builder)
        self.m.fail = fail
        self.m.kind = self.kind = kind
        self.fail = fail
        self.lay = LAYOUTS[layout]
        self.n = len(self.lay)
        self.done = set()              # tracts generated
        self.objs = {}
        self.seen = 0                  # calls accounted for
        self.pts = [(10.2, .1), (10.9, .6), (0.0, -44.9), (359.95, -45.2), (180.1, -45.0), (33.0, 89.3), (200.0, 5.0)]

    def coord(self, p):
        from .. import maps
        return maps.geom.SpherePoint(p[0], p[1], maps.geom.degrees)

    def nearest(self, p):
        from .. import ref
        v = ref.vec(*(x * ref.DEG for x in p))
        d = [(ref.sep(v, ref.vec(a * ref.DEG, b * ref.DEG)), i) for i, (a, b, _) in enumerate(self.lay)]
        best = min(d)[0]
        return {i for s, i in d if s < best + 1e-9}

    def run(self, what, f, may, must=()):
        """f() may generate the tracts in may and must generate those of must not yet there."""
        ctx = self.ctx
        ctx.step(what)
        before = len(self.m.calls)
        failing = self.fail is not None and self.fail in set(must) - self.done
        try:
            r = f()
        except self.kind as e:
            ctx.check(type(e) is self.kind, "%s: raised %r", what, e)
            ctx.check(self.fail is not None and self.m.fail is None and "no tract today" in str(e), "%s: raised %s", what, e)
            ctx.check(self.m.calls and self.m.calls[-1] == self.fail, "%s: went on after the failure", what)
            bad, self.fail = self.fail, None
            calls = self.m.calls[before:]
            ctx.check(len(set(calls)) == len(calls) and not set(calls) & self.done, "%s: generated %r, of which %r were there", what, calls, sorted(self.done))
            self.done |= set(calls) - {bad}
            return None, False
        ctx.check(not failing, "%s: the failure to generate tract %r was lost", what, self.fail)
        calls = self.m.calls[before:]
        ctx.check(len(set(calls)) == len(calls), "%s: generated a tract twice: %r", what, calls)
        ctx.check(not set(calls) & self.done, "%s: generated %r, of which %r were there", what, calls, sorted(self.done))
        ctx.check(set(calls) <= set(may), "%s: generated %r, needed only %r", what, calls, sorted(may))
        ctx.check(set(must) <= self.done | set(calls), "%s: did not generate %r", what, sorted(set(must) - self.done - set(calls)))
        self.done |= set(calls)
        return r, True

    def known(self, i, t, what):
        self.ctx.equal(int(t.getId()), i, "%s: ID", what)
        self.ctx.check(self.objs.setdefault(i, t) is t, "%s: another object for tract %d", what, i)

    # ---- operations
    def length(self):
        r, _ = self.run("len", lambda: len(self.m), ())
        self.ctx.equal(r, self.n, "len")

    def sha(self):
        r, _ = self.run("sha1", lambda: (self.m.getSha1(), hash(self.m)), ())
        o = make(self.cls, self.layout, self.builder)
        self.ctx.equal(r, (o.getSha1(), hash(o)), "SHA1 and hash")
        self.ctx.check(len(r[0]) == 20, "SHA1 of %d bytes", len(r[0]))
        self.ctx.equal(o.calls, [], "tracts generated by another map for its SHA1")

    def compare(self):
        same, other, coarse = make(self.cls, self.layout, self.builder), make(self.cls, (self.layout + 1) % len(LAYOUTS), self.builder), make(self.cls, self.layout, self.builder, pixelScale=61.0)
        r, _ = self.run("==", lambda: (self.m == same, self.m != same, self.m == other, self.m != other, self.m == coarse, self.m == 5), ())
        self.ctx.equal(r, (True, False, False, True, False, False), "equality")

    def sub(self, i):
        r, ok = self.run("[%d]" % i, lambda: self.m[i], {i}, {i})
        if ok:
            self.known(i, r, "[%d]" % i)

    def beyond(self):
        for i in (self.n, self.n + 1, self.n + 10):
            self.ctx.step("beyond", i)
            k = len(self.m.calls)
            self.ctx.raises(IndexError, lambda i=i: self.m[i], "subscript %d of a map of %d tracts" % (i, self.n))
            self.ctx.equal(self.m.calls[k:], [], "tracts generated by subscript %d", i)

    def some(self):
        def f():
            out = []
            for t in self.m:
                out.append(t)
                if len(out) == 2:
                    break
            return out
        k = set(range(min(2, self.n)))
        r, ok = self.run("two of the iteration", f, k, k)
        if ok:
            for i, t in enumerate(r):
                self.known(i, t, "iteration")

    def iterate(self):
        k = set(range(self.n))
        r, ok = self.run("iteration", lambda: list(self.m), k, k)
        if ok:
            self.ctx.equal(len(r), self.n, "tracts iterated")
            for i, t in enumerate(r):
                self.known(i, t, "iteration")

    def find(self):
        k = set(range(self.n))
        if not k:
            return
        for p in self.pts:
            r, ok = self.run("findTract %r" % (p,), lambda p=p: self.m.findTract(self.coord(p)), k)
            if ok:
                self.ctx.check(int(r.getId()) in self.nearest(p), "findTract%r is tract %d, nearest are %r", p, r.getId(), self.nearest(p))
                self.known(int(r.getId()), r, "findTract")

    def array(self):
        k = set(range(self.n))
        if not k:
            return
        r, ok = self.run("findTractIdArray", lambda: self.m.findTractIdArray([p[0] for p in self.pts], [p[1] for p in self.pts], degrees=True), k)
        if ok:
            self.ctx.equal(len(r), len(self.pts), "IDs")
            for p, i in zip(self.pts, r):
                self.ctx.check(int(i) in self.nearest(p), "findTractIdArray%r is tract %d, nearest are %r", p, i, self.nearest(p))

    def lists(self):
        k = set(range(self.n))
        cs = [self.coord(p) for p in self.pts[:2]]
        r, ok = self.run("findTractPatchList", lambda: self.m.findTractPatchList(cs), k)
        if ok:
            got = [int(t.getId()) for t, _ in r]
            self.ctx.equal(got, sorted(set(got)), "tracts of findTractPatchList")
            want = []
            ref = make(self.cls, self.layout, self.builder)
            for t in ref:
                ps = t.findPatchList(cs)
                if len(ps):
                    want.append((int(t.getId()), [int(p.getSequentialIndex()) for p in ps]))
            self.ctx.equal([(int(t.getId()), [int(p.getSequentialIndex()) for p in ps]) for t, ps in r], want, "findTractPatchList")

    def closest(self):
        k = set(range(self.n))
        if not k:
            return
        cs = [self.coord(p) for p in self.pts[:2]]
        r, ok = self.run("findClosestTractPatchList", lambda: self.m.findClosestTractPatchList(cs), k)
        if ok:
            near = self.nearest(self.pts[0]) | self.nearest(self.pts[1])
            for t, ps in r:
                self.ctx.check(int(t.getId()) in near and len(ps), "findClosestTractPatchList: tract %d", t.getId())
                self.ctx.equal([int(p.getSequentialIndex()) for p in ps], [int(p.getSequentialIndex()) for p in t.findPatchList(cs)], "patches of tract %d", t.getId())

    def restored(self, what, f):
        r, ok = self.run(what, lambda: f(self.m), ())
        self.ctx.check(type(r) is self.cls and len(r) == self.n and r == self.m and r is not self.m, "%s: %r", what, r)
        self.ctx.check(r.config == self.m.config, "%s: configuration", what)

    def pickled(self):
        import pickle
        self.restored("pickle", lambda m: pickle.loads(pickle.dumps(m)))

    def copied(self):
        import copy
        self.restored("deepcopy", copy.deepcopy)

    def use_restored(self):
        """Carry on with a restored map, for which nothing is generated yet."""
        import pickle
        self.restored("pickle", lambda m: pickle.loads(pickle.dumps(m)))
        self.m = pickle.loads(pickle.dumps(self.m))
        self.fail = None
        self.ctx.equal(self.m.calls, [], "tracts generated by restoring")
        self.done, self.objs = set(), {}

    def patches(self):
        if not self.n:
            return
        i = self.n - 1
        r, ok = self.run("patches of %d" % i, lambda: [p.getSequentialIndex() for p in self.m[i]], {i}, {i})
        if ok:
            t = self.m[i]
            nx, ny = t.getNumPatches()
            self.ctx.equal([int(v) for v in r], list(range(nx * ny)), "patches of tract %d", i)

    def log(self):
        import logging
        out = []

        class Keep(logging.Handler):
            def emit(self, record):
                out.append(record.getMessage())
        lg = logging.Logger("own", logging.INFO)
        lg.addHandler(Keep())
        k = set(range(self.n))
        _, ok = self.run("log", lambda: self.m.logSkyMapInfo(lg), k, k)
        if ok:
            self.ctx.equal(len(out), self.n + 1, "log records")


def ops(n, few=False):
    if few:
        return ["some", "iterate", "find", "array", "lists", "pickled", "log"] + [("sub", i) for i in sorted({0, n // 2, n - 1}) if n]
    o = ["length", "sha", "compare", "beyond", "some", "iterate", "find", "array", "lists", "closest", "pickled", "copied", "use_restored", "patches", "log"]
    return o + [("sub", i) for i in sorted({0, n // 2, n - 1}) if n]


def explore(ctx, layout, builder, depth, fail, part, parts, kind=RuntimeError):
    import itertools
    cls = own()
    n = len(LAYOUTS[layout])
    for seq in itertools.islice(itertools.product(ops(n, fail is not None), repeat=depth), part, None, parts):
        ctx.begin("layout", layout, builder[0], "failing", fail)
        o = Own(ctx, cls, layout, builder, fail, kind)
        ctx.equal(o.m.calls, [], "tracts generated by the construction")
        for op in seq:
            if isinstance(op, tuple):
                getattr(o, op[0])(*op[1:])
            else:
                getattr(o, op)()
        ctx.state(layout, builder[0], fail, seq)
        ctx.end((layout, fail, tuple(sorted(o.done))))


def chained(ctx, layout, builder):
    """Tracts that are made from other tracts of the same map: each is still generated once, and nothing waits for itself."""
    import itertools
    import pickle
    import threading
    own()
    cls = globals()["OwnChainSkyMap"]
    plain = make(globals()["OwnSkyMap"], layout, builder)
    n = len(plain)
    from .. import maps
    want = [repr(maps.describe_tract(t)) for t in plain]
    for fail in (None,) + tuple(range(n)):
        for order in itertools.permutations(range(n)) if n < 4 else itertools.islice(itertools.permutations(range(n)), 0, None, 7):
            for used in ("fresh", "pickled"):
                ctx.begin("chained", layout, builder[0], fail, order, used)
                m = make(cls, layout, builder)
                if used == "pickled":
                    m[order[0]]
                    m = pickle.loads(pickle.dumps(m))
                m.fail = fail
                out = []

                def work():
                    try:
                        for i in order:
                            for again in range(2):
                                try:
                                    out.append((i, m[i]))
                                    break
                                except RuntimeError as e:
                                    out.append((i, str(e)))
                        out.append(list(m))
                    except BaseException as e:
                        out.append(e)
                th = threading.Thread(target=work, daemon=True)
                th.start()
                th.join(60)
                for i in order:
                    ctx.step("subscript", i)
                ctx.check(not th.is_alive(), "subscript %r of a map whose tracts are made from others never ends; got %r", order, out)
                ctx.check(out and not isinstance(out[-1], BaseException), "subscripts %r: %r", order, out[-1:])
                got = {i: t for i, t in out[:-1] if not isinstance(t, str)}
                ctx.equal([repr(maps.describe_tract(t)) for t in out[-1]], want, "tracts")
                ctx.check(all(got[i] is out[-1][i] for i in range(n)), "tracts were generated again")
                ctx.equal(sorted(m.calls), sorted(list(range(n)) + ([fail] if fail is not None else [])), "tracts generated")
                ctx.equal([t for i, t in out[:-1] if isinstance(t, str)], ["no tract today"] * (fail is not None), "failures")
                ctx.state(layout, fail, order, used)
                ctx.end((layout, fail, order))


def falsy(ctx, layout, builder, kind):
    """Tracts of the user's own that are false, or have no length, are kept as any others are."""
    import itertools
    from .. import maps
    own()
    name = "Own%sSkyMap" % kind
    if name not in globals():
        from lsst.skymap.tractInfo import ExplicitTractInfo
        geom = maps.geom

        class Tract(ExplicitTractInfo):
            if kind == "Empty":
                def __len__(self):
                    return 0

                def __iter__(self):
                    return iter(())
            else:
                def __bool__(self):
                    return False

        class Odd(globals()["OwnSkyMap"]):
            def generateTract(self, index):
                t = super().generateTract(index)
                ra, dec, rad = LAYOUTS[self.config.layout][index]
                c = self.config
                from lsst.skymap.detail import WcsFactory
                wcs = WcsFactory(c.pixelScale * geom.arcseconds, c.projection, c.rotation * geom.degrees).makeWcs(geom.Point2D(0, 0), t.getCtrCoord())
                return Tract(index, c.tractBuilder.apply(), t.getCtrCoord(), rad * geom.degrees, c.tractOverlap * geom.degrees, wcs)
        Odd.__name__ = Odd.__qualname__ = name
        globals()[name] = Odd
    cls = globals()[name]
    n = len(LAYOUTS[layout])
    for seq in itertools.product(["some", "iterate", "find", "array"] + [("sub", i) for i in sorted({0, n // 2, n - 1})], repeat=3):
        ctx.begin("false tracts", layout, kind)
        o = Own(ctx, cls, layout, builder, None)
        for op in seq:
            if isinstance(op, tuple):
                getattr(o, op[0])(*op[1:])
            else:
                getattr(o, op)()
        ctx.state(layout, kind, seq)
        ctx.end((layout, kind, tuple(sorted(o.done))))


def registered(ctx, layout, builder):
    """register works for a class the package has never seen."""
    from .. import butlers
    cls = own()
    for used in (False, True):
        m = make(cls, layout, builder)
        ctx.begin("register", layout, builder[0], used)
        if used:
            m[0]
            m.calls.clear()
            expect = set(range(1, len(m)))
        else:
            expect = set(range(len(m)))
        with butlers.repo() as path, butlers.opened(path) as b:
            m.register("own", b)
            ctx.step("register")
            ctx.check(len(set(m.calls)) == len(m.calls) and set(m.calls) <= expect, "register generated %r", m.calls)
            d = butlers.diff(butlers.snapshot(b), butlers.expected("own", m))
            ctx.check(d is None, "contents of the butler: %s", d)
        ctx.state("register", layout, builder[0], used)
        ctx.end("register")


def scenarios(tier):
    from .. import maps
    depth = 4 if tier == "thorough" else 3
    parts = 16 if depth == 4 else 2
    for layout, lay in enumerate(LAYOUTS):
        for b in (maps.LEG, maps.CELL) if depth == 4 or not layout else (maps.LEG,) if layout == 1 else (maps.CELL,):
            for i in range(parts):
                yield "explore %d %s %d" % (layout, b[0], i), explore, (layout, b, depth, None, i, parts)
        for fail in range(len(lay)):
            yield "failing %d %d" % (layout, fail), explore, (layout, maps.LEG, depth, fail, 0, 1)
            for kind in KINDS:
                yield "failing %d %d %s" % (layout, fail, kind.__name__), explore, (layout, maps.LEG, depth - 1, fail, 0, 1, kind)
        if lay:
            yield "chained %d" % layout, chained, (layout, maps.LEG)
            for kind in ("Empty", "False"):
                yield "false tracts %d %s" % (layout, kind), falsy, (layout, maps.LEG, kind)
            yield "register %d" % layout, registered, (layout, maps.CELL if layout else maps.LEG)
