ID = "C03"
RULE = ("state = (packer configuration, data ID inside or outside its bounds); transitions = pack calls, each judged "
        "accepted or ValueError by the model; a trace = one configuration with every data ID of the alphabet")
BOUNDS = {t: "12 band mappings x 7 n_bands x tracts {1,2,5} x patches {1,3,9}; tract and patch from -2 to two past the bound "
             "and far outside, and around powers of 2 (to 2^128) and 10 with 12 packers; all known and unknown bands; every subset of the dimensions {skymap,tract,patch,band,instrument,detector}"
          for t in ("quick", "thorough")}
ASSUMPTIONS = []


def run(ctx, bands, n_bands, full):
    from .. import pk
    negbands = [{"r": -1, "i": 0}] if bands == {"r": 0, "i": 1} else []
    for bb in [bands] + negbands:
        for T in (1, 2, 5):
            for P in (1, 3, 9):
                m = pk.Model(bb, n_bands, T, P)
                packer = pk.make(bb, n_bands, T, P)
                ctx.begin("packer", bb if bb is None or len(bb) < 9 else "", "B=%d" % m.B, "T=%d" % T, "P=%d" % P)
                names = [b for b in m.bands if b is not None] + ["nope", "R2"] if m.B else [None, "r", "nope"]
                if bands is None and not full:
                    names = names[:m.B + 3] + names[-4:]
                tr = sorted({-2, -1, 0, T - 1, T, T + 1, T * P, 10**6})
                pa = sorted({-2, -1, 0, P - 1, P, P + 1, T * P, 10**6})
                for band in names:
                    for tract in tr:
                        for patch in pa:
                            ctx.state(m.B, T, P, tract, patch, band)
                            d = pk.data_id(tract, patch, band)
                            ctx.step("pack", tract, patch, band)
                            if m.accepts(tract, patch, band):
                                k = packer.pack(d)
                                ctx.check(0 <= k < m.size(), "packed ID %r of a valid data ID out of range", k)
                            else:
                                ctx.raises(ValueError, lambda: packer.pack(d),
                                           "pack(tract=%d, patch=%d, band=%s)" % (tract, patch, band))
                ctx.end((m.B, T, P))


def wrapped(ctx, bands, n_bands, T, P):
    """Indices that are in bounds only when cut to some number of bits or digits, or rounded."""
    from .. import pk
    m = pk.Model(bands, n_bands, T, P)
    packer = pk.make(bands, n_bands, T, P)
    band = None if not m.B else sorted(m.bands)[0]
    big = sorted({s * (b ** e) + d for s in (1, -1) for b, es in ((2, (7, 8, 15, 16, 24, 31, 32, 33, 48, 53, 62, 63, 64, 65, 128)), (10, (2, 3, 4, 5, 6, 9, 12, 18, 20)))
                  for e in es for d in (-P, -T, -1, 0, 1, T - 1, P - 1, T, P, T * P)})
    for which in ("tract", "patch"):
        for v in big:
            for o in (0, (P if which == "tract" else T) - 1):
                i = (v, o, band) if which == "tract" else (o, v, band)
                ctx.begin("packer", "B=%d" % m.B, "T=%d" % T, "P=%d" % P)
                ctx.step("pack", *i)
                ctx.state(m.B, T, P, i)
                for d in (pk.data_id(*i), dict(skymap="sm", tract=i[0], patch=i[1], **({} if band is None else {"band": band}))):
                    if m.accepts(*i):
                        ctx.equal(packer.pack(d), m.pack(*i), "pack(tract=%d, patch=%d, band=%s)", *i)
                    else:
                        ctx.raises(ValueError, lambda: packer.pack(d), "pack(tract=%d, patch=%d, band=%s)" % i)
                ctx.end((which, m.accepts(*i)))


def dims(ctx):
    import itertools
    from .. import pk
    names = ["skymap", "tract", "patch", "band", "instrument", "detector", "visit"]
    good = [{"skymap", "tract", "patch"}, {"skymap", "tract", "patch", "band"}]
    seen = set()
    for n in range(0, len(names) + 1):
        for c in itertools.combinations(names, n):
            g = pk.U.conform(c)
            for nb in (None, 0, 2):
                for bands in (None, {"r": 0, "i": 1}):
                    ctx.begin("dimensions", sorted(g.names), nb)
                    ctx.state(tuple(sorted(g.names)), nb, bands is None)

                    def mk():
                        return pk.Packer(pk.fixed(), dimensions=g, bands=bands, n_bands=nb, n_tracts=3, n_patches=4)
                    ctx.step("construct")
                    if set(g.names) in good:
                        if "band" in g.names and nb == 0:
                            # no room for what the dimensions say is packed
                            ctx.raises(ValueError, mk, "packer with n_bands=0 for dimensions %s" % sorted(g.names))
                            continue
                        p = mk()
                        ctx.equal(set(p.dimensions.names), set(g.names), "dimensions")
                        seen.add(tuple(sorted(g.names)))
                    else:
                        ctx.raises(ValueError, mk, "packer for dimensions %s" % sorted(g.names))
                    ctx.end(tuple(sorted(g.names)))
    ctx.equal(len(seen), 2, "number of accepted dimension sets")


def scenarios(tier):
    from .. import pk
    for bands in pk.BANDS:
        for nb in pk.NBANDS:
            yield "bands=%s n_bands=%s" % (bands, nb), run, (bands, nb, tier == "thorough")
    for bands, nb in (({"r": 0, "i": 1}, None), (None, 0), ({"r": 0}, 1)):
        for T, P in ((1, 1), (5, 9), (300, 81), (7, 70000)):
            yield "wrapped %s T=%d P=%d" % (bands, T, P), wrapped, (bands, nb, T, P)
    yield "dimensions", dims, ()
