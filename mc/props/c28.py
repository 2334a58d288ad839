ID = "C28"
RULE = ("state = (class, selected builder, options of both builders); transitions = writes through one of the names, selections, and save/load steps on a real configuration, "
        "after each of which every reading route is compared with the model; a trace = one history, and the map built at its end")
BOUNDS = {"quick": "6 configuration classes, all histories to depth 3 of 18 operations (5832 each) and of 14 operations that write default values again; the map of every distinct final configuration, built after every history of depth 2",
          "thorough": "all histories to depth 4; maps after every history of depth 3"}
ASSUMPTIONS = []

DIMS = [(20, 15), (11, 31), (64, 64)]


def classes():
    from .. import maps
    from lsst.skymap.baseSkyMap import BaseSkyMapConfig
    out = {"base": (BaseSkyMapConfig, None, {})}
    out["discrete"] = (maps.DiscreteSkyMap.ConfigClass, maps.DiscreteSkyMap, dict(raList=[10.0], decList=[5.0], radiusList=[.2], pixelScale=20.0))
    out["dodeca"] = (maps.DodecaSkyMap.ConfigClass, maps.DodecaSkyMap, dict(pixelScale=3000.0))
    out["equat"] = (maps.EquatSkyMap.ConfigClass, maps.EquatSkyMap, dict(pixelScale=3000.0))
    out["healpix"] = (maps.HealpixSkyMap.ConfigClass, maps.HealpixSkyMap, dict(pixelScale=3000.0))
    out["rings"] = (maps.RingsSkyMap.ConfigClass, maps.RingsSkyMap, dict(numRings=3, pixelScale=3000.0))
    return out


def initial(cls):
    return dict(name="legacy", dims=(4000, 4000), border=250 if cls == "dodeca" else 100,
                cell=(150, 150), cb=50, n=20, nb=1)


def reload_text(c, tmp):
    import os
    p = os.path.join(tmp, "config.py")
    c.save(p)
    d = type(c)()
    d.load(p)
    return d


def reload_override(c, tmp, text):
    import os
    p = os.path.join(tmp, "override.py")
    with open(p, "w") as f:
        f.write(text)
    c.load(p)
    return c


def reload_pickle(c, tmp):
    import pickle
    return pickle.loads(pickle.dumps(c))


def resets():
    """Operations that write the default values again, amid others."""
    def op(path, value, **kw):
        def f(c, t):
            o = c
            for k in path[:-1]:
                o = o.tractBuilder[k] if k in ("legacy", "cells") else getattr(o, k)
            if path[-1].startswith("set"):
                getattr(o, path[-1])(value)
            else:
                setattr(o, path[-1], value)
            return c
        return ("%s %r" % (".".join(path), value), f, kw)
    return [op(("patchBorder",), 3, border=3), op(("legacy", "patchBorder"), 14, border=14),
            op(("patchBorder",), 100, border=100), op(("setPatchBorder",), 100, border=100), op(("setPatchBorder",), 250, border=250), op(("legacy", "patchBorder"), 100, border=100),
            op(("setPatchInnerDimensions",), (11, 31), dims=(11, 31)), op(("patchInnerDimensions",), [4000, 4000], dims=(4000, 4000)),
            op(("setPatchInnerDimensions",), (4000, 4000), dims=(4000, 4000)), op(("patchInnerDimensions",), (4000, 20), dims=(4000, 20)),
            op(("patchBorder",), 0, border=0),
            op(("tractBuilder", "name"), "cells", name="cells"), ("save and load", reload_text, {}), ("pickle", reload_pickle, {})]


def operations():
    """[(label, function of the config giving the config to go on with, changes of the model)]"""
    ops = []

    def op(label, f, **kw):
        ops.append((label, f, kw))

    def attr(c, t):
        c.patchInnerDimensions = DIMS[0]
        return c

    def attr_list(c, t):
        c.patchInnerDimensions = list(DIMS[1])
        return c

    def setter(c, t):
        c.setPatchInnerDimensions(DIMS[1])
        return c

    def direct(c, t):
        c.tractBuilder["legacy"].patchInnerDimensions = DIMS[2]
        return c

    def border_attr(c, t):
        c.patchBorder = 3
        return c

    def border_set(c, t):
        c.setPatchBorder(14)
        return c

    def border_direct(c, t):
        c.tractBuilder["legacy"].patchBorder = 0
        return c

    def border_same(c, t):
        # a number that is also one of the others' values
        c.patchBorder = 20
        return c

    def legacy(c, t):
        c.tractBuilder.name = "legacy"
        return c

    def cells(c, t):
        c.tractBuilder.name = "cells"
        return c

    def cell_opts(c, t):
        q = c.tractBuilder["cells"]
        q.cellInnerDimensions = (5, 5)
        q.cellBorder = 2
        q.numCellsPerPatchInner = 4
        q.numCellsInPatchBorder = 2
        return c

    def cell_border(c, t):
        c.tractBuilder["cells"].cellBorder = 7
        return c

    def element(c, t):
        c.patchInnerDimensions[0] = 13
        return c

    def element_direct(c, t):
        c.tractBuilder["legacy"].patchInnerDimensions[1] = 9
        return c
    op("config.patchInnerDimensions = (20,15)", attr, dims=DIMS[0])
    op("config.patchInnerDimensions = [11,31]", attr_list, dims=DIMS[1])
    op("config.setPatchInnerDimensions((11,31))", setter, dims=DIMS[1])
    op("config.tractBuilder['legacy'].patchInnerDimensions = (64,64)", direct, dims=DIMS[2])
    op("config.patchInnerDimensions[0] = 13", element, dim0=13)
    op("config.tractBuilder['legacy'].patchInnerDimensions[1] = 9", element_direct, dim1=9)
    op("config.patchBorder = 3", border_attr, border=3)
    op("config.patchBorder = 20", border_same, border=20)
    op("config.setPatchBorder(14)", border_set, border=14)
    op("config.tractBuilder['legacy'].patchBorder = 0", border_direct, border=0)
    op("config.tractBuilder.name = 'legacy'", legacy, name="legacy")
    op("config.tractBuilder.name = 'cells'", cells, name="cells")
    op("options of the cell builder", cell_opts, cell=(5, 5), cb=2, n=4, nb=2)
    op("config.tractBuilder['cells'].cellBorder = 7", cell_border, cb=7)
    op("save and load", reload_text)
    op("load override patchBorder = 5", lambda c, t: reload_override(c, t, "config.patchBorder = 5\nconfig.tractBuilder.name = 'legacy'\n"), border=5, name="legacy")
    op("load override patchInnerDimensions = (30, 40)", lambda c, t: reload_override(c, t, "config.patchInnerDimensions = (30, 40)\n"), dims=(30, 40))
    op("pickle", reload_pickle)
    return ops


def apply(model, ch):
    model = dict(model)
    for k, v in ch.items():
        if k == "dim0":
            model["dims"] = (v, model["dims"][1])
        elif k == "dim1":
            model["dims"] = (model["dims"][0], v)
        else:
            model[k] = v
    return model


def read(ctx, c, m):
    for label, got in (("patchInnerDimensions", c.patchInnerDimensions), ("getPatchInnerDimensions()", c.getPatchInnerDimensions()),
                       ("tractBuilder['legacy'].patchInnerDimensions", c.tractBuilder["legacy"].patchInnerDimensions)):
        ctx.equal(tuple(got), m["dims"], "%s", label)
    for label, got in (("patchBorder", c.patchBorder), ("getPatchBorder()", c.getPatchBorder()), ("tractBuilder['legacy'].patchBorder", c.tractBuilder["legacy"].patchBorder)):
        ctx.equal(got, m["border"], "%s", label)
    ctx.equal(c.tractBuilder.name, m["name"], "selected builder")
    q = c.tractBuilder["cells"]
    ctx.equal((tuple(q.cellInnerDimensions), q.cellBorder, q.numCellsPerPatchInner, q.numCellsInPatchBorder), (m["cell"], m["cb"], m["n"], m["nb"]), "options of the cell builder")
    a = c.tractBuilder.active
    if m["name"] == "legacy":
        ctx.equal((tuple(a.patchInnerDimensions), a.patchBorder), (m["dims"], m["border"]), "options of the active builder")
    else:
        ctx.equal((tuple(a.cellInnerDimensions), a.cellBorder), (m["cell"], m["cb"]), "options of the active builder")


def canonical(classes, cls, m, extra):
    """Configuration with these options, written the documented way."""
    c = classes[cls][0]()
    for k, v in extra.items():
        setattr(c, k, v)
    c.tractBuilder["legacy"].patchInnerDimensions = m["dims"]
    c.tractBuilder["legacy"].patchBorder = m["border"]
    q = c.tractBuilder["cells"]
    q.cellInnerDimensions, q.cellBorder, q.numCellsPerPatchInner, q.numCellsInPatchBorder = m["cell"], m["cb"], m["n"], m["nb"]
    c.tractBuilder.name = m["name"]
    return c


def expected(m):
    if m["name"] == "legacy":
        return m["dims"], m["border"]
    return (m["cell"][0] * m["n"], m["cell"][1] * m["n"]), m["nb"] * m["cell"][0] + m["cb"]


def histories(ctx, cls, depth, build_depth, part, parts, menu=operations):
    import itertools
    import tempfile
    from .. import maps
    cl = classes()
    cc, mc, extra = cl[cls]
    ops = menu()
    tmp = tempfile.mkdtemp()
    cache = {}
    for num, seq in enumerate(itertools.product(range(len(ops)), repeat=depth)):
        if num % parts != part:
            continue
        c = cc()
        for k, v in extra.items():
            setattr(c, k, v)
        m = initial(cls)
        ctx.begin(cls)
        read(ctx, c, m)
        for s in seq:
            label, f, ch = ops[s]
            ctx.step(label)
            c = f(c, tmp)
            m = apply(m, ch)
            read(ctx, c, m)
            ctx.state(cls, tuple(sorted(m.items())), s)
        other = cc()
        # nothing leaks into other configurations
        read(ctx, other, initial(cls))
        for k, v in extra.items():
            ctx.equal(getattr(c, k), v, "option %s", k)
        if mc is not None and all(s == 0 for s in seq[build_depth:]):
            c.validate()
            sky = mc(c)
            key = tuple(sorted(m.items()))
            if key not in cache:
                cache[key] = mc(canonical(cl, cls, m, extra))
            ctx.step("build the map")
            ctx.check(sky == cache[key] and sky.getSha1() == cache[key].getSha1() and hash(sky) == hash(cache[key]), "the map differs from one with the same options written directly")
            t = sky[0]
            dims, border = expected(m)
            p = t.getPatchInfo((0, 0))
            ctx.equal((tuple(int(x) for x in t.getPatchInnerDimensions()), int(t.getPatchBorder())), (dims, border), "patch inner dimensions and border of the tract")
            ctx.equal(maps.box(p.getInnerBBox()).dims(), dims, "patch inner box")
            ob, ib, tb = maps.box(p.getOuterBBox()), maps.box(p.getInnerBBox()), maps.box(t.getBBox())
            want = (ib.t[0] - border, ib.t[1] - border, ib.t[2] + border, ib.t[3] + border)
            if m["name"] == "legacy":
                want = (max(want[0], tb.t[0]), max(want[1], tb.t[1]), min(want[2], tb.t[2]), min(want[3], tb.t[3]))
            ctx.equal(tuple(ob.t), want, "patch outer box for a border of %d", border)
        ctx.end(seq)


def scenarios(tier):
    big = tier == "thorough"
    n = 16 if big else 4
    for cls in classes():
        for q in range(n):
            yield "%s part %d" % (cls, q), histories, (cls, 4 if big else 3, 3 if big else 2, q, n)
        yield "%s resets" % cls, histories, (cls, 4 if big else 3, 2, 0, 1, resets)
