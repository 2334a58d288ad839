ID = "C24"
RULE = ("state = contents of the butler (a set of registered (name, map)); transitions = register calls on a real butler, after each of which all of its sky map records and "
        "datasets are compared with the model; a trace = one history of registrations")
BOUNDS = {"quick": "12 maps of all classes registered in a fresh butler; maps of 1225 patches in a tract and of 520 tracts; 25 names; butlers with 11 sorts of default collections, run and data ID; all histories of registrations to depth 3 over {2 maps, an equal copy of the first, a map used before} x 2 names (512), each in a fresh real butler",
          "thorough": "57 maps, histories to depth 4 over 2 maps and 2 names and depth 3 over 3 maps and 3 names"}
ASSUMPTIONS = ["lsst.daf.butler is the installed release with an SQLite registry and file datastore"]


def usable(spec, limit):
    """Small enough, and all patches have a sky polygon at all."""
    if spec.cls == "equat" and spec.opts["numTracts"] < 4:
        return False
    m = spec.make()
    return 0 < sum(len(t) for t in m) < limit


def one(ctx, spec, name="survey"):
    from .. import butlers as B
    m = spec.make()
    want = B.expected(name, m)
    with B.repo() as path:
        with B.opened(path) as b:
            spec.make().register(name, b)
            ctx.begin(spec)
            ctx.step("register")
            d = B.diff(B.snapshot(b), want)
            ctx.check(d is None, "after register: %s", d)
            ctx.state("registered")
            spec.make().register(name, b)
            ctx.step("register again")
            d = B.diff(B.snapshot(b), want)
            ctx.check(d is None, "after registering again: %s", d)
            ctx.end("one")
        with B.opened(path) as b:
            ctx.begin(spec)
            ctx.step("reopen")
            d = B.diff(B.snapshot(b), want)
            ctx.check(d is None, "in a newly opened butler: %s", d)
            got = b.get("skyMap", skymap=name, collections="skymaps")
            ctx.check(got == m and type(got) is type(m) and len(got) == len(m), "the skyMap dataset is not the map")
            ctx.end("two")


def settings(ctx, spec):
    """Butlers that have default collections, a default run or default data ID values of their own."""
    from .. import butlers as B
    m = spec.make()
    want = B.expected("survey", m)
    kinds = [dict(run="mine"), dict(run="mine", collections=["mine"]), dict(collections=[]), dict(run="skymaps"), dict(run="skymaps/mine"),
             dict(collections=["other", "mine"], run="other"), dict(run="mine", collections=["skymaps", "mine"]),
             dict(run="mine", skymap="another"), dict(skymap="another"), dict(inferDefaults=False), dict(run="mine", inferDefaults=False)]
    for kw in kinds:
        for twice in (False, True):
            with B.repo() as path:
                with B.opened(path) as b:
                    for c in ("mine", "other") + (("skymaps",) if "skymaps" in kw.get("collections", ()) else ()):
                        b.registry.registerRun(c)
                    if kw.get("skymap") == "another":
                        maps_other().register("another", b)
                w = want if kw.get("skymap") != "another" else B.merge(want, B.expected("another", maps_other()))
                with B.opened(path, **kw) as b, B.opened(path) as plain:
                    ctx.begin("butler with", kw)
                    for what in ("register", "register again")[:1 + twice]:
                        ctx.step(what)
                        (m if twice else spec.make()).register("survey", b)
                        d = B.diff(B.snapshot(plain), w)
                        ctx.check(d is None, "after %s in a butler with %r: %s", what, kw, d)
                    ctx.state(str(kw), twice)
                    ctx.end((str(kw), twice))


def maps_other():
    from .. import maps
    return maps.discrete(*maps.DISC_A, scale=150.0, builder=maps.CELL0).make()


def tools():
    from .. import maps
    a = maps.discrete(*maps.DISC_B, scale=97.0)
    b = maps.discrete(*maps.DISC_A, scale=150.0, builder=maps.CELL0)
    # the same summary numbers as a, but elsewhere
    c = a.but(opts=dict(a.opts, raList=[x + 1.0 for x in a.opts["raList"]]))
    return a, b, c


def histories(ctx, depth, part, parts, three):
    import itertools
    from .. import butlers as B
    a, b, c = tools()

    def used():
        m = a.make()
        list(reversed([m[i] for i in range(len(m))]))
        m.getSha1()
        return m
    if three:
        acts = [("a", a.make), ("b", b.make), ("c", c.make)]
        names = ("first", "second", "third")
    else:
        acts = [("a", a.make), ("b", b.make), ("c", c.make), ("a, used", used)]
        names = ("first", "second")
    ops = [(n, k, f) for n in names for k, f in acts]
    specs = {"a": a, "b": b, "c": c}
    want = {(n, k): B.expected(n, specs[k].make()) for n in names for k in specs}
    for num, seq in enumerate(itertools.product(range(len(ops)), repeat=depth)):
        if num % parts != part:
            continue
        model = {}
        with B.repo() as path, B.opened(path) as bu:
            ctx.begin("fresh butler")
            for s in seq:
                name, k, f = ops[s]
                kk = k[0]
                ctx.step("register", k, "as", name)
                ok = model.get(name) == kk or (name not in model and kk not in model.values())
                try:
                    f().register(name, bu)
                    done = True
                except B.ConflictingDefinitionError:
                    done = False
                ctx.equal(done, ok, "registering %s as %s in %r succeeded", k, name, model)
                if ok:
                    model[name] = kk
                w = B.merge(*[want[n, q] for n, q in model.items()])
                d = B.diff(B.snapshot(bu), w)
                ctx.check(d is None, "in %r: %s", model, d)
                ctx.state(tuple(sorted(model.items())), s)
            ctx.end(seq)


def scenarios(tier):
    from .. import maps
    big = tier == "thorough"
    menu = maps.menu(tier)
    if big:
        menu = menu[:30] + menu[30::7]
    else:
        # registering indexes the sky area: few full-sky maps
        menu = [s for s in menu if s.cls in ("discrete", "equat")] + [maps.dodeca(False), maps.healpix(0), maps.rings(3), maps.rings(3, 123.4, version=0, builder=maps.LEG0, npix=60)]
    menu += maps.uneven()
    for s in menu:
        if usable(s, 6000 if big else 1500):
            yield "one %s" % s, one, (s,)
    # many patches in a tract, many tracts
    yield "large: patches", one, (maps.discrete([10.0, 12.0], [0.0, 1.0], [.29, .05], ov=0.0, builder=("legacy", dict(patchInnerDimensions=(1, 1), patchBorder=0))),)
    yield "large: cells", one, (maps.discrete([100.0], [-40.0], [.55], ov=0.0, builder=("cells", dict(cellInnerDimensions=(1, 1), cellBorder=0, numCellsPerPatchInner=2, numCellsInPatchBorder=1))),)
    yield "settings", settings, (maps.discrete(*maps.DISC_B, scale=97.0),)
    n = 520 if not big else 2100
    yield "large: tracts", one, (maps.discrete([(.7 * i) % 360 for i in range(n)], [-30 + .1 * (i % 600) for i in range(n)], [.02] * n, ov=.001),)
    for name in ("x", "a-b_c.d", "Name With Spaces", "UPPER", "quote'n", "percent%s{0}", "dots..", ".lead", " blank ", "tab\t", "a/b", "a//", "under_", "v1", "v1.0", "-1", "1e3", "*", "%", "\u00fcmlaut", "n" * 64, "skymaps", "skyMap", "0", "None"):
        yield "name %r" % name, one, (maps.discrete(*maps.DISC_B, scale=97.0), name)
    for i in range(16):
        yield "histories %d" % i, histories, (3, i, 16, False)
    if big:
        for i in range(64):
            yield "deep histories %d" % i, histories, (4, i, 64, False)
            yield "three names %d" % i, histories, (3, i, 64, True)
