ID = "C21"
RULE = ("state = (map, tracts used so far, chain of persistence routes); transitions = routes applied to the real map and complete comparisons of the restored map with "
        "the original; a trace = one chain")
BOUNDS = {"quick": "27 maps: 4 prior uses x all chains of length 1 over 10 routes (pickle protocols 0-5, copy, deepcopy, config file or stream by registry name), all chains of length 2 on the "
                   "12 smallest maps; 7 maps of 257 to 768 tracts or of large tracts, each used before; two derived classes of every map; options of the builder that is not selected; restoring in another process; refused versions", "thorough": "237 maps; chains of length 2 on all, length 3 on the 8 smallest"}
ASSUMPTIONS = []
VERSIONED = ("rings",)


def routes(spec):
    import copy
    import io
    import os
    import pickle
    import tempfile
    from .. import maps
    from lsst.skymap import skyMapRegistry

    def pick(p):
        def f(m):
            data = pickle.dumps(m, protocol=p)
            pickle.loads(data)
            return pickle.loads(data)      # restoring is repeatable
        return f

    def build(c):
        cls = skyMapRegistry[spec.cls]
        assert issubclass(cls, maps.CLASSES[spec.cls]) if isinstance(cls, type) else True
        return cls(c) if spec.version is None else cls(c, version=spec.version)

    def stream(m):
        f = io.StringIO()
        m.config.saveToStream(f)
        c = type(m).ConfigClass()
        c.loadFromStream(f.getvalue())
        return build(c)

    def file(m):
        with tempfile.TemporaryDirectory(prefix="mc21") as d:
            fn = os.path.join(d, "config.py")
            m.config.save(fn)
            c = type(m).ConfigClass()
            c.load(fn)
        return build(c)
    return [("pickle%d" % p, pick(p)) for p in range(6)] + [("copy", copy.copy), ("deepcopy", copy.deepcopy), ("stream", stream), ("file", file)]


def uses(m):
    from .. import maps
    n = len(m)

    def look(x):
        for i in range(6):
            x.findTract(maps.sp(i, .9 - .3 * i))
        x.getSha1()
    return [("nothing", lambda x: None), ("last", lambda x: x[n - 1]), ("all, backwards", lambda x: [x[i] for i in reversed(range(n))]), ("lookups", look)]


def picture(spec, m, full=True):
    """Everything observable, as plain data."""
    from .. import maps
    n = len(m)
    step = max(1, n * len(m[n // 2]) // 800) if n else 1
    idx = sorted(set(range(0, n, step)) | {n - 1}) if full and n else sorted({0, n // 2, n - 1})
    d = [type(m).__name__, n, m.config.toDict(), tuple(maps.describe_tract(m[i], cells=i == 0 and full) for i in idx)]
    if spec.cls == "rings":
        d.append([tuple(m.getRingIndices(i)) for i in range(n)])
    if hasattr(m, "getVersion"):
        d.append(tuple(m.getVersion()))
    d.append([int(m.findTract(maps.sp(.37 + i * .9, 1.4 - .31 * i)).getId()) for i in range(10)])
    if spec.cls != "discrete":
        d.append([int(t) for t in m.findTractIdArray([.37 + i * .9 for i in range(10)], [1.4 - .31 * i for i in range(10)])])
    return d


def chain(ctx, spec, depth, full):
    import itertools
    rs = routes(spec)
    first = spec.make()
    want = picture(spec, first, full)
    for ulabel, use in uses(first):
        for ch in itertools.chain(*(itertools.product(rs, repeat=k) for k in range(1, depth + 1))):
            if len(ch) > 1 and (ulabel == "nothing" or {r[0] for r in ch} <= {"pickle0", "pickle1", "pickle3"}):
                continue
            m = spec.make()
            use(m)
            src = m
            labels = [r[0] for r in ch]
            ctx.begin(spec, ulabel, *labels)
            for label, r in ch:
                ctx.step(label)
                m = r(m)
                use(m)
            ctx.state(ulabel, tuple(labels))
            ctx.check(type(m) is type(src), "restored by %r is a %r", labels, type(m))
            ctx.check(m is not src, "restored by %r is the original", labels)
            ctx.check(m == src and not (m != src), "restored by %r is not equal to the original", labels)
            ctx.equal(m.getSha1(), src.getSha1(), "SHA1 after %r", labels)
            ctx.check(m.config == src.config, "config after %r", labels)
            got = picture(spec, m, full)
            for a, b, what in zip(got, want, ("class", "length", "config", "tracts", "indices or lookups", "version or lookups", "lookups", "lookups")):
                ctx.check(a == b, "after %s and %r the %s differ:\n %s\n %s", ulabel, labels, what, str(a)[:400], str(b)[:400])
            ctx.equal(picture(spec, src, False), picture(spec, first, False), "the original after %r", labels)
            ctx.end((ulabel, tuple(labels)))


def own(base):
    """A class of the user's, derived from one of the package's; at the top of a module, so that it pickles."""
    name = "Own" + base.__name__
    if name not in globals():
        def area(self):
            return [len(t) for t in self]
        globals()[name] = type(name, (base,), {"__module__": __name__, "__qualname__": name, "area": area})
        globals()[name + "Twice"] = type(name + "Twice", (globals()[name],), {"__module__": __name__, "__qualname__": name + "Twice"})
    return globals()[name], globals()[name + "Twice"]


def derived(ctx, spec):
    """The class of a restored map is that of the original also if the package does not know it."""
    from .. import maps
    base = maps.CLASSES[spec.cls]
    want = None
    for cls in own(base):
        for label, r in routes(spec):
            if label in ("stream", "file"):
                continue
            first = cls(spec.config()) if spec.version is None else cls(spec.config(), version=spec.version)
            for ulabel, use in uses(first):
                ctx.begin("derived", spec, cls.__name__, ulabel, label)
                m = cls(spec.config()) if spec.version is None else cls(spec.config(), version=spec.version)
                use(m)
                ctx.step(label)
                x = r(m)
                ctx.state(cls.__name__, ulabel, label)
                ctx.check(type(x) is cls, "a %s restored by %s is a %s", cls.__name__, label, type(x).__name__)
                ctx.check(x == m and m == x and not x != m and x.getSha1() == m.getSha1() and hash(x) == hash(m), "restored by %s is not equal to the original", label)
                if want is None:
                    want = picture(spec, base(spec.config()) if spec.version is None else base(spec.config(), version=spec.version), False)[1:]
                ctx.check(picture(spec, x, False)[1:] == want, "a %s restored by %s differs from a %s", cls.__name__, label, base.__name__)
                ctx.check(x.area() == m.area() if len(m) < 20 else True, "method of the class")
                ctx.end((cls.__name__, ulabel, label))


def many(ctx, spec):
    """Maps of hundreds of tracts, all used before, by three routes."""
    first = spec.make()
    n = len(first)
    want = picture(spec, first, False)
    centers = None
    for label, r in routes(spec):
        if label not in ("pickle0", "pickle5", "copy", "deepcopy", "stream"):
            continue
        for ulabel, use in uses(first):
            if ulabel == "last":
                continue
            ctx.begin(spec, ulabel, label)
            m = spec.make()
            use(m)
            ctx.step(label)
            x = r(m)
            ctx.state(ulabel, label)
            ctx.check(x == m and m == x and not x != m and x.getSha1() == first.getSha1(), "restored by %s after %s is not equal to the original", label, ulabel)
            ctx.check(picture(spec, x, False) == want and picture(spec, m, False) == want, "restored by %s after %s differs", label, ulabel)
            got = [(int(t.getId()), repr(t.getCtrCoord()), repr(t.getBBox()), len(t)) for t in x]
            if centers is None:
                centers = [(int(t.getId()), repr(t.getCtrCoord()), repr(t.getBBox()), len(t)) for t in first]
                ctx.equal(len(centers), n, "tracts listed")
            ctx.check(got == centers, "the tracts restored by %s after %s differ", label, ulabel)
            ctx.end((ulabel, label))


def inactive(ctx, spec):
    """The options of tract builders that are not selected, and their old names, survive."""
    from .. import maps
    other = "cells" if spec.builder[0] == "legacy" else "legacy"
    opts = [dict(cellInnerDimensions=(77, 77), cellBorder=13, numCellsPerPatchInner=9, numCellsInPatchBorder=4)] if other == "cells" else \
        [dict(patchInnerDimensions=(123, 456), patchBorder=17)]
    cls = maps.CLASSES[spec.cls]

    def options(m):
        b = m.config.tractBuilder
        return (b.name, tuple(m.config.patchInnerDimensions), m.config.patchBorder, tuple(b["legacy"].patchInnerDimensions), b["legacy"].patchBorder,
                tuple(b["cells"].cellInnerDimensions), b["cells"].cellBorder, b["cells"].numCellsPerPatchInner, b["cells"].numCellsInPatchBorder)
    for o in opts + [{k: v} for k, v in opts[0].items()]:
        for label, r in routes(spec):
            c = spec.config()
            for k, v in o.items():
                setattr(c.tractBuilder[other], k, v)
            m = cls(c) if spec.version is None else cls(c, version=spec.version)
            for ulabel, use in uses(m)[:2]:
                ctx.begin("inactive", spec, o, ulabel, label)
                use(m)
                want = options(m)
                ctx.step(label)
                x = r(m)
                ctx.state(repr(o), ulabel, label)
                ctx.equal(options(x), want, "builder options after %s", label)
                ctx.equal(options(m), want, "builder options of the original after %s", label)
                ctx.check(x == m, "restored by %s is not equal to the original", label)
                ctx.end((repr(o), ulabel, label))


def process(ctx, specs):
    """Restoring in another process, from every protocol."""
    import os
    import pickle
    import subprocess
    import sys
    import tempfile
    from .. import core
    with tempfile.TemporaryDirectory(prefix="mc21") as d:
        want = []
        for i, s in enumerate(specs):
            m = s.make()
            if i % 2:
                m[len(m) - 1]
            for p in range(6):
                with open(os.path.join(d, "%d.%d" % (i, p)), "wb") as f:
                    pickle.dump(m, f, protocol=p)
            want.append(repr(picture(s, m, False)))
        code = ("import sys; sys.path.insert(0, %r); sys.dont_write_bytecode=True\nimport shim; shim.install()\nimport pickle, os\n"
                "from mc import maps\nfrom mc.props import c21\nd=%r\nspecs=maps.menu('quick')\nfor i in %r:\n    o=[]\n    for p in range(6):\n"
                "        m=pickle.load(open(os.path.join(d,'%%d.%%d'%%(i,p)),'rb'))\n        o.append(repr(c21.picture(specs[i],m,False))+m.getSha1().hex())\n"
                "    print(len(set(o)), o[0].replace('\\n',' '))\n" % (core.HERE, d, list(range(len(specs)))))
        out = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, timeout=300)
        ctx.check(out.returncode == 0, "restoring in another process failed: %s", out.stderr[-800:])
        lines = out.stdout.strip().split("\n")
        ctx.equal(len(lines), len(specs), "restored maps")
        for i, (s, line) in enumerate(zip(specs, lines)):
            ctx.begin("process", s)
            ctx.step("restored in another process", s)
            ctx.state(i)
            ctx.equal(line, "1 " + want[i].replace("\n", " ") + s.make().getSha1().hex(), "map restored in another process")
            ctx.end(i)


def versions(ctx):
    from .. import maps
    for spec in (maps.dodeca(False), maps.dodeca(True), maps.equat(4), maps.equat(3, (-10., 20.))):
        m = spec.make()
        state = m.__getstate__()
        for v in ((1, 0), (1, 1), (1, 9), (2, 0), (2, 1), (3, 0), (10, 0)):
            ctx.begin(spec, v)
            ctx.step("state version", v)
            ctx.state(spec, v)
            new = type(m).__new__(type(m))
            st = dict(state, version=v)
            if v >= (2, 0):
                ctx.raises(Exception, lambda: new.__setstate__(st), "restoring %s of version %r" % (spec.cls, v))
            else:
                new.__setstate__(st)
                ctx.check(new == m and len(new) == len(m), "restored from version %r differs", v)
            ctx.end(v)
    spec = maps.rings(3)
    m = spec.make()
    for v in (0, 1, 2, 3, 17, -1):
        ctx.begin(spec, v)
        ctx.step("version", v)
        cls, args = m.__reduce__()[:2]
        if v in (0, 1):
            x = cls(args[0], v)
            ctx.equal(tuple(x.getRingIndices(len(x) - 2)), (2, 0) if False else tuple(spec.but(version=v).make().getRingIndices(len(x) - 2)), "ring indices")
        else:
            ctx.raises(BaseException, lambda: cls(args[0], v), "rings map of version %r" % v)
        ctx.end(v)


def scenarios(tier):
    from .. import maps
    big = tier == "thorough"
    menu = maps.menu(tier)
    small = sorted(range(len(menu)), key=lambda i: (menu[i].cls == "healpix", i))[:6] + [i for i, s in enumerate(menu) if s.cls in ("dodeca", "healpix", "rings")][:6]
    small += [i for i, s in enumerate(menu) if s.cls == "rings" and s.version == 0][:1]
    for i, s in enumerate(menu):
        yield "one %s" % s, chain, (s, 1, True)
        yield "derived %s" % s, derived, (s,)
        if big or i in small:
            yield "two %s" % s, chain, (s, 2, False)
        if big and i in small[:8]:
            yield "three %s" % s, chain, (s, 3, False)
    for s in maps.many():
        yield "many %s" % s, many, (s,)
    for s in menu if big else menu[::2]:
        yield "inactive %s" % s, inactive, (s,)
    yield "process", process, (maps.menu("quick"),)
    yield "versions", versions, ()
