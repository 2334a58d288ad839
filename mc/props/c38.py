ID = "C38"
RULE = ("state = (class, builder, set of options stated); transitions = the options left out, each read back and compared with its documented default, and the map compared "
        "with the one whose configuration states everything; a trace = one set of options stated")
BOUNDS = {"quick": "5 classes x 2 builders: every subset of the common, class and builder options stated or left out (2^8 to 2^11 configurations each), maps built for the subsets of at most two options stated "
                   "or left out, in two orders of selecting the builder; classes without arguments; registry names; default versions",
          "thorough": "the same with a map built for every subset"}
ASSUMPTIONS = []
ORACLE = "Oracle: the documented default of every option, and the map that states all of them."

COMMON = dict(tractOverlap=1.0, pixelScale=0.333, projection="STG", rotation=0.0)
CLASS = dict(
    discrete=({}, dict(raList=[10.0], decList=[20.0], radiusList=[0.1])),
    dodeca=(dict(tractOverlap=3.5, pixelScale=0.2, projection="STG", withTractsOnPoles=False), {}),
    equat=(dict(projection="CEA", numTracts=4, decRange=[-1.25, 1.25]), {}),
    healpix=(dict(rotation=45.0, log2NSide=0, nest=False), {}),
    rings=(dict(raStart=0.0), dict(numRings=3)),
)
BUILDER = dict(legacy=dict(patchInnerDimensions=[4000, 4000], patchBorder=100),
               cells=dict(cellInnerDimensions=[150, 150], cellBorder=50, numCellsPerPatchInner=20, numCellsInPatchBorder=1))


def defaults(cls, bname):
    d = {("", k): v for k, v in dict(COMMON, **CLASS[cls][0]).items()}
    b = dict(BUILDER[bname])
    if cls == "dodeca" and bname == "legacy":
        b["patchBorder"] = 250
    d.update({(bname, k): v for k, v in b.items()})
    return d


def plain(v):
    return list(v) if not isinstance(v, (str, float, int, bool)) else v


def config(cls, bname, stated, first):
    """A configuration that states the given options; the builder is selected first, last, or (legacy) not at all."""
    from .. import maps
    c = maps.CLASSES[cls].ConfigClass()
    if first:
        c.tractBuilder.name = bname
    for (where, k), v in stated.items():
        setattr(c.tractBuilder[where] if where else c, k, v)
    for k, v in CLASS[cls][1].items():
        setattr(c, k, v)
    if not first and bname != "legacy":
        c.tractBuilder.name = bname
    return c


def same(ctx, m, full, want, what):
    from .. import maps
    ctx.check(m == full and full == m and not m != full, "%s: not equal to the map that states every option", what)
    ctx.equal(m.getSha1(), full.getSha1(), "%s: SHA1", what)
    ctx.equal(len(m), len(full), "%s: number of tracts", what)
    ctx.equal(head(m), want, "%s: tracts", what)


def head(m):
    out = []
    for i in sorted({0, len(m) // 2, len(m) - 1}):
        t = m[i]
        p = t[0]
        out.append((int(t.getId()), tuple(int(v) for v in t.getNumPatches()), tuple(int(v) for v in t.getPatchInnerDimensions()), int(t.getPatchBorder()), str(t.getBBox()),
                    t.getTractOverlap().asDegrees(), str(p.getInnerBBox()), str(p.getOuterBBox()), tuple(int(v) for v in p.getNumCells()),
                    str(t.getWcs().pixelToSky(0.0, 0.0)), str(t.getWcs().pixelToSky(1000.0, 0.0)), str(t.getWcs().pixelToSky(0.0, 1000.0))))
    return out


def subsets(ctx, cls, bname, every):
    import itertools
    from .. import maps
    d = defaults(cls, bname)
    keys = sorted(d)
    C = maps.CLASSES[cls]
    full = C(config(cls, bname, d, True))
    want = head(full)
    for mask in itertools.product((0, 1), repeat=len(keys)):
        stated = {k: d[k] for k, b in zip(keys, mask) if b}
        few = min(len(stated), len(keys) - len(stated)) <= 2
        for first in (True, False):
            c = config(cls, bname, stated, first)
            ctx.begin(cls, bname, *sorted(k for k in stated))
            ctx.state(cls, bname, mask)
            for where, k in keys:
                ctx.step(where, k)
                got = plain(getattr(c.tractBuilder[where] if where else c, k))
                ctx.check(got == d[where, k], "%s: %s%s is %r by default, documented as %r", cls, where and where + " ", k, got, d[where, k])
            ctx.equal(c.tractBuilder.name, bname, "selected builder")
            c.validate()
            if few or every:
                same(ctx, C(c), full, want, "%s stating only %r" % (cls, sorted(stated)))
            ctx.end((cls, bname, mask))


def noargs(ctx):
    """Classes whose configuration has only defaults can be made without one."""
    from .. import maps
    for cls in ("dodeca", "equat"):
        C = maps.CLASSES[cls]
        full = C(config(cls, "legacy", defaults(cls, "legacy"), True))
        for what, m in ((cls + "()", C()), (cls + "(None)", C(None)), (cls + "(config=None)", C(config=None)), (cls + "(ConfigClass())", C(C.ConfigClass()))):
            ctx.begin(what)
            ctx.step(what)
            ctx.state(what)
            same(ctx, m, full, head(full), what)
            ctx.end(what)
    empty = maps.DiscreteSkyMap(maps.DiscreteSkyMap.ConfigClass())
    ctx.equal(len(empty), 0, "tracts of a discrete map without positions")
    ctx.equal(list(empty), [], "tracts of a discrete map without positions")


def versions(ctx):
    """The version left out is the documented one."""
    from .. import maps
    for n in (1, 2, 3, 5, 8):
        for ra0 in (0.0, 77.0):
            a, b = maps.rings(n, ra0, version=None).make(), maps.rings(n, ra0, version=1).make()
            ctx.begin("rings", n, ra0)
            ctx.step("version")
            ctx.state(n, ra0)
            ctx.check(a == b, "rings map without a version differs from version 1")
            lay = maps.rings(n, ra0, version=1).layout()
            table = [tuple(int(v) for v in a.getRingIndices(i)) for i in range(len(a))]
            ctx.equal(table, [tuple(int(v) for v in b.getRingIndices(i)) for i in range(len(b))], "numbering")
            r, t = table[1]
            ctx.equal((r, t), (0, 0), "first tract of the first ring")
            ctx.equal(len(set(table)), len(a), "distinct tracts (version 1 has no duplicate)")
            del lay
            ctx.end(n)


def registry(ctx):
    from .. import maps
    import lsst.skymap as s
    from lsst.skymap.tractBuilder import tractBuilderRegistry, CellTractBuilder, LegacyTractBuilder
    for what, reg, want in (("skyMapRegistry", s.skyMapRegistry, maps.CLASSES), ("tractBuilderRegistry", tractBuilderRegistry, dict(legacy=LegacyTractBuilder, cells=CellTractBuilder))):
        ctx.equal(sorted(reg.keys()), sorted(want), "names in %s", what)
        for name, cls in want.items():
            ctx.begin(what, name)
            ctx.step(name)
            ctx.state(what, name)
            r = reg[name]
            ctx.check(r is cls or (isinstance(r, type) and issubclass(r, cls)) or r.ConfigClass is cls.ConfigClass, "%s[%r] is %r", what, name, r)
            ctx.check(r.ConfigClass is cls.ConfigClass, "configuration class of %s[%r] is %r", what, name, r.ConfigClass)
            ctx.end(name)
    # a field that selects a map by its name builds it from the options of that name, whatever was selected before
    import itertools
    from lsst.pex.config import Config

    class Task(Config):
        skyMap = s.skyMapRegistry.makeField("map", default="dodeca")

    small = {"discrete": maps.discrete(*maps.DISC_1, scale=20.0), "equat": maps.equat(4), "dodeca": maps.dodeca(False), "healpix": maps.healpix(1, True), "rings": maps.rings(3)}
    for path in itertools.chain(itertools.product(small, repeat=1), itertools.product(small, repeat=2), itertools.permutations(small, 3)):
        top = Task()
        ctx.begin("field", *path)
        ctx.equal(top.skyMap.name, "dodeca", "default of the field")
        for name in path:
            ctx.step(name)
            top.skyMap.name = name
            spec = small[name]
            c = top.skyMap.active
            c.tractBuilder.name = spec.builder[0]
            for k, v in spec.builder[1].items():
                setattr(c.tractBuilder[spec.builder[0]], k, v)
            for k, v in dict(spec.common, **spec.opts).items():
                setattr(c, k, v)
        ctx.state(path)
        m = top.skyMap.apply()
        ref = small[path[-1]].make()
        ctx.check(type(m).__name__ == type(ref).__name__ and m == ref and len(m) == len(ref), "field set to %r built %r", path, m)
        ctx.end(path[-1])


def scenarios(tier):
    for cls in CLASS:
        for b in BUILDER:
            yield "%s %s" % (cls, b), subsets, (cls, b, tier == "thorough")
    yield "no arguments", noargs, ()
    yield "versions", versions, ()
    yield "registry", registry, ()
