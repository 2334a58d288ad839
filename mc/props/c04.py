ID = "C04"
RULE = ("state = (settings explicit or None, skymap record); transitions = construction routes and pack calls compared between "
        "routes and with the model; a trace = one combination of settings through all routes")
BOUNDS = {t: "settings bands {None + 6 mappings, one of them empty} x n_bands {None,0,1,2,4} x n_tracts {None,1,3,7} x n_patches {None,1,5,12} x 3 skymap records, "
             "with every construction route; an explicit 0 of tracts or patches" for t in ("quick", "thorough")}
ASSUMPTIONS = []

SENT = object()


def run(ctx, bands, n_bands):
    from lsst.pex.config import Config
    from .. import pk

    class C(Config):
        packer = pk.Packer.make_config_field()

    for rec in ((3, 2, 6), (1, 1, 1), (7, 11, 20)):
        nx, ny, tmax = rec
        fx = pk.fixed(nx, ny, tmax)
        for T in (None, 1, 3, 7):
            for P in (None, 1, 5, 12):
                m = pk.Model(bands, n_bands, tmax if T is None else T, nx * ny if P is None else P)
                ctx.begin("settings", bands if bands is None or len(bands) < 9 else "", n_bands, T, P, "record", rec)
                ctx.state(bands is None or tuple(bands.items()), n_bands, T, P, rec)
                routes = {}
                routes["ctor"] = pk.Packer(fx, bands=bands, n_bands=n_bands, n_tracts=T, n_patches=P)
                names = ["tract", "patch"] + (["band"] if m.B else [])
                routes["ctor+dims"] = pk.Packer(fx, dimensions=pk.U.conform(names), bands=bands, n_bands=n_bands,
                                                n_tracts=T, n_patches=P)
                routes["positional"] = pk.Packer(fx, None, bands, n_bands, T, P)
                cfg = pk.Packer.ConfigClass()
                top = C()
                for c in (cfg, top.packer):
                    c.bands = bands
                    c.n_bands = n_bands
                    c.n_tracts = T
                    c.n_patches = P
                ctx.step("validate")
                cfg.validate()
                top.validate()
                again = pk.Packer.ConfigClass()
                again.loadFromString(cfg.saveToString())
                again.validate()
                big = pk.data_id(0, 0, "r").expanded(records={
                    "skymap": fx.records["skymap"],
                    "tract": pk.U["tract"].RecordClass(skymap="sm", id=0, region=None),
                    "patch": pk.U["patch"].RecordClass(skymap="sm", tract=0, id=0, cell_x=0, cell_y=0, region=None),
                    "band": pk.U["band"].RecordClass(name="r"),
                    "physical_filter": None})
                routes["from_config"] = pk.Packer.from_config(fx, cfg)
                routes["from_config(full data ID)"] = pk.Packer.from_config(big, cfg)
                routes["config field"] = top.packer.apply(fx)
                routes["reloaded config"] = pk.Packer.from_config(fx, again)
                if T is not None and P is not None:
                    routes["no records"] = pk.Packer(pk.fixed(), bands=bands, n_bands=n_bands, n_tracts=T, n_patches=P)
                for name, p in routes.items():
                    ctx.step(name)
                    ctx.equal(set(p.dimensions.names), {"skymap"} | set(names), "dimensions via %s", name)
                    ctx.equal(p.maxBits, m.bits(), "maxBits via %s", name)
                    ctx.equal(pk.key(p.fixed), pk.key(fx), "fixed via %s", name)
                tr = sorted({0, m.T // 2, m.T - 1})
                pa = sorted({0, m.P // 2, m.P - 1})
                for i in m.ids(tr, pa):
                    d = pk.data_id(*i)
                    vals = {}
                    for name, p in routes.items():
                        ctx.step("pack", name, i)
                        vals[name] = p.pack(d)
                    ctx.equal(len(set(vals.values())), 1, "number of different packed IDs for %r: %r", i, vals)
                bad = pk.data_id(m.T, 0, m.bandlist()[0] if m.bandlist() else None)
                badp = pk.data_id(0, m.P, m.bandlist()[0] if m.bandlist() else None)
                if m.bandlist():
                    for name, p in routes.items():
                        ctx.raises(ValueError, lambda: p.pack(bad), "tract %d via %s" % (m.T, name))
                        ctx.raises(ValueError, lambda: p.pack(badp), "patch %d via %s" % (m.P, name))
                if m.B:
                    for name, p in routes.items():
                        ctx.step("unknown band", name)
                        ctx.raises(ValueError, lambda: p.pack(pk.data_id(0, 0, "g" if "g" not in m.bands else "nope")),
                                   "band without integer via %s" % name)
                ctx.end((m.T, m.P, m.B))


def defaults(ctx):
    from lsst.pex.config import Config
    from .. import pk

    class C(Config):
        packer = pk.Packer.make_config_field()

    for rec in ((3, 2, 6), (1, 1, 1), (9, 9, 18938)):
        fx = pk.fixed(rec[0], rec[1], rec[2])
        ctx.begin("default configuration", rec)
        C().validate()
        pk.Packer.ConfigClass().validate()
        for name, p in (("config field", C().packer.apply(fx)), ("from_config", pk.Packer.from_config(fx, pk.Packer.ConfigClass()))):
            m = pk.Model(None, 0, rec[2], rec[0] * rec[1])
            ctx.step(name)
            ctx.equal(set(p.dimensions.names), {"skymap", "tract", "patch"}, "default dimensions")
            ctx.equal(p.maxBits, m.bits(), "maxBits")
            for tract in sorted({0, rec[2] // 2, rec[2] - 1}):
                for patch in range(m.P):
                    ctx.equal(p.pack(pk.data_id(tract, patch, None)), m.pack(tract, patch, None), "pack")
                    ctx.step("pack", tract, patch)
                    ctx.state(rec, tract, patch)
        # the constructor's default n_bands is all supported bands
        p = pk.Packer(fx)
        m = pk.Model(None, None, rec[2], rec[0] * rec[1])
        ctx.equal(p.maxBits, m.bits(), "maxBits of the default constructor")
        for b in m.bandlist():
            ctx.step("pack", b)
            ctx.state(rec, b)
            k = p.pack(pk.data_id(rec[2] - 1, 0, b))
            ctx.equal(k, m.pack(rec[2] - 1, 0, b), "pack with the default band list, band %s", b)
        ctx.end(rec)


def zeros(ctx):
    """An explicit 0 is a setting like any other: the packer has room for nothing, whatever the record says."""
    from lsst.pex.config import Config
    from .. import pk

    class C(Config):
        packer = pk.Packer.make_config_field()

    for bands, nb in ((None, 0), ({"r": 0, "i": 1}, None), ({}, 0)):
        for rec in ((3, 2, 6), (1, 1, 1), (7, 11, 20)):
            fx = pk.fixed(*rec)
            for T in (None, 0, 3):
                for P in (None, 0, 5):
                    if T != 0 and P != 0:
                        continue
                    ctx.begin("zero", bands, nb, rec, T, P)
                    ctx.state("zero", str(bands), nb, rec, T, P)
                    cfg, top = pk.Packer.ConfigClass(), C()
                    for c in (cfg, top.packer):
                        c.bands, c.n_bands, c.n_tracts, c.n_patches = bands, nb, T, P
                    cfg.validate()
                    top.validate()
                    routes = {"ctor": pk.Packer(fx, bands=bands, n_bands=nb, n_tracts=T, n_patches=P),
                              "positional": pk.Packer(fx, None, bands, nb, T, P),
                              "from_config": pk.Packer.from_config(fx, cfg), "config field": top.packer.apply(fx)}
                    ctx.equal(len({p.maxBits for p in routes.values()}), 1, "number of different maxBits")
                    band = "r" if bands else None
                    for name, p in routes.items():
                        for tract, patch in ((0, 0), (rec[2] - 1, 0), (0, rec[0] * rec[1] - 1), (2, 4)):
                            ctx.step("pack", name, tract, patch)
                            ctx.raises(ValueError, lambda: p.pack(pk.data_id(tract, patch, band)), "pack (%d, %d) via %s with n_tracts=%r n_patches=%r" % (tract, patch, name, T, P))
                    ctx.end((T, P))


def scenarios(tier):
    yield "defaults", defaults, ()
    yield "zeros", zeros, ()
    for bands in (None, {"r": 0}, {"i": 1, "r": 0}, {"r": 0, "y": 3}, {"g": 0, "r": 1, "i": 2}, {"z": 5, "g": 1}, {}):
        for nb in (None, 0, 1, 2, 4):
            yield "bands=%s n_bands=%s" % (bands, nb), run, (bands, nb)
