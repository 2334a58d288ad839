import numpy

ID = "C01"
RULE = ("state = (packer configuration, data ID); transitions = pack and unpack calls compared with the table model; "
        "a trace = one pack/unpack round trip or one call history")
BOUNDS = {t: "12 band mappings x 7 n_bands x tracts {1,2,3,5} x patches {1,2,4,9}, all data IDs, with dimensions stated or not; values of 6 numpy integer types, packed IDs of 2; "
             "29 large count pairs (up to 2^71 IDs) with boundary IDs; packers of 5 large count pairs used for all of their 20000 to 130000 data IDs; all call histories of depth <= %d on 4 packers, and with changes of the mapping they were made from" % d
          for t, d in (("quick", 4), ("thorough", 5))}
NAMES = ("sm", "hsc_rings_v1", "\u00fc map", "a name of more than thirty characters")
ASSUMPTIONS = ["the band integers of a configuration are distinct"]


def roundtrip(ctx, bands, n_bands):
    from .. import pk
    for T in (1, 2, 3, 5):
        for P in (1, 2, 4, 9):
            m = pk.Model(bands, n_bands, T, P)
            name = NAMES[(T + P) % len(NAMES)]
            _all(ctx, pk, m, pk.make(bands, n_bands, T, P, pk.fixed(name=name)), m.ids(), name)
            # dimensions stated; what they leave out is not packed, whatever n_bands
            for names in (["tract", "patch"], ["tract", "patch", "band"]):
                if "band" in names and not m.B:
                    continue
                name = NAMES[(T * P) % len(NAMES)]
                packer = pk.Packer(pk.fixed(name=name), dimensions=pk.U.conform(names), bands=bands, n_bands=n_bands, n_tracts=T, n_patches=P)
                m2 = pk.Model(bands, n_bands if "band" in names else 0, T, P)
                _all(ctx, pk, m2, packer, m2.ids(), name)


def large(ctx, bands, n_bands):
    from .. import pk
    counts = [(T, P) for T in (255, 256, 18938, 1 << 20) for P in (81, 128, 1000, 46656, (1 << 16) + 1)]
    counts += [(T, P) for T in ((1 << 31) + 11, (1 << 40) + 1, 10**12 + 39) for P in ((1 << 20) + 7, (1 << 31) - 1, 3)]
    for T, P in counts:
        if True:
            m = pk.Model(bands, n_bands, T, P)
            _all(ctx, pk, m, pk.make(bands, n_bands, T, P),
                 m.ids((0, 1, T // 2, T - 2, T - 1), (0, 1, P // 3, P - 2, P - 1)))


def _all(ctx, pk, m, packer, ids, name="sm"):
    for tract, patch, band in ids:
        ctx.begin("packer", m.bands if len(m.bands) < 9 else "default bands", "B=%d" % m.B, "T=%d" % m.T, "P=%d" % m.P)
        ctx.state(m.B, m.T, m.P, tract, patch, band)
        d = pk.data_id(tract, patch, band, name)
        ctx.step("pack", pk.key(d))
        k = packer.pack(d)
        ctx.check(isinstance(k, int), "packed ID %r is not an int", k)
        ctx.step("unpack", k)
        back = packer.unpack(k)
        ctx.equal(pk.key(back), pk.key(d), "unpack(%d)", k)
        ctx.check(back.dimensions == packer.dimensions, "dimensions %s of the unpacked ID", back.dimensions)
        if band is None and patch == m.P - 1:        # a band does not matter to a packer without bands
            ctx.step("pack with a band")
            for b in ("r", "i", "zz"):
                ctx.equal(packer.pack(pk.data_id(tract, patch, b, name)), k, "pack of a data ID with band %r by a packer without bands", b)
        if patch == m.P - 1:        # keyword and dict forms
            ctx.step("pack kwargs")
            kw = dict(tract=tract, patch=patch)
            if band is not None:
                kw["band"] = band
            ctx.equal(packer.pack(**kw), k, "pack(**%r)", kw)
            ctx.equal(packer.pack(dict(kw, skymap=name)), k, "pack of a dict")
            for t in (numpy.int8, numpy.uint8, numpy.int16, numpy.int32, numpy.int64, numpy.uint64):
                if max(tract, patch) <= numpy.iinfo(t).max:
                    ctx.step("numpy", t.__name__)
                    n = dict(kw, skymap=name, tract=t(tract), patch=t(patch))
                    ctx.equal(packer.pack(n), k, "pack of %s tract and patch", t.__name__)
                    ctx.equal(packer.pack(pk.DataCoordinate.standardize(n, universe=pk.U)), k, "pack of a data ID made from %s", t.__name__)
                if t in (numpy.int64, numpy.uint64) and m.size() < 2**62:
                    ctx.equal(pk.key(packer.unpack(t(k))), pk.key(d), "unpack(%s(%d))", t.__name__, k)
        ctx.end(k)


def histories(ctx, bands, n_bands, depth):
    """Every sequence of pack/unpack calls on one packer; unpack may come first."""
    import itertools
    from .. import pk
    T, P = 2, 2
    m = pk.Model(bands, n_bands, T, P)
    bl = m.bandlist()
    ids = [(0, 1, bl[0]), (1, 0, bl[-1])]
    ops = [("pack", i) for i in ids] + [("unpack", i) for i in ids]
    for n in range(2, depth + 1):
        for seq in itertools.product(ops, repeat=n):
            packer = pk.make(bands, n_bands, T, P)
            got = {i: None for i in ids}
            ref = pk.make(bands, n_bands, T, P)
            ctx.begin("fresh packer", bands, n_bands)
            for op, i in seq:
                d = pk.data_id(*i)
                ctx.step(op, i)
                if op == "pack":
                    k = packer.pack(d)
                    if got[i] is not None:
                        ctx.equal(k, got[i], "pack(%r) again", i)
                    got[i] = k
                else:
                    k = got[i] if got[i] is not None else ref.pack(d)
                    ctx.equal(pk.key(packer.unpack(k)), pk.key(d), "unpack(%d)", k)
            ctx.state(bands, n_bands, seq)
            ctx.end(tuple(o for o, _ in seq))


def several(ctx, depth):
    """Every sequence of round trips over packers with different settings that live at the same time."""
    import itertools
    from .. import pk
    sets = [({"r": 0, "i": 1}, None, 2, 3), ({"i": 0, "r": 1}, 3, 3, 2), ({"z": 4, "r": 2}, 5, 2, 3), (None, 0, 4, 5)]
    for seq in itertools.product(range(len(sets)), repeat=depth):
        ps = [pk.make(*s, pk.fixed(name=name)) for s, name in zip(sets, NAMES)]
        ctx.begin("packers", sets)
        for i in seq:
            m = pk.Model(*sets[i])
            for band in m.bandlist():
                d = pk.data_id(m.T - 1, m.P - 2, band, NAMES[i])
                ctx.step("packer %d" % i, band)
                k = ps[i].pack(d)
                ctx.equal(k, pk.Model(*sets[i]).pack(m.T - 1, m.P - 2, band), "pack with packer %d after %r", i, seq)
                ctx.equal(pk.key(ps[i].unpack(k)), pk.key(d), "round trip with packer %d after %r", i, seq)
        ctx.state(seq)
        ctx.end(seq)


def dense(ctx, bands, n_bands, T, P):
    """One packer used for every data ID of large counts; all packed, then all unpacked."""
    from .. import pk
    m = pk.Model(bands, n_bands, T, P)
    packer = pk.make(bands, n_bands, T, P)
    ctx.begin("packer", bands, "n_bands", n_bands, "T", T, "P", P)
    ctx.step("pack and unpack all", m.size())
    out = []
    for i in m.ids(range(T), range(P)):
        k = packer.pack(pk.data_id(*i))
        if k != m.pack(*i):
            ctx.fail("%r packs to %r, expected %r" % (i, k, m.pack(*i)))
        out.append((k, i))
    for k, (tract, patch, band) in out:
        d = packer.unpack(k)
        if d["tract"] != tract or d["patch"] != patch or (m.B and d["band"] != band):
            ctx.fail("%r packs to %d, which unpacks to %r" % ((tract, patch, band), k, d))
        ctx.state(m.B, T, P, k)
    ctx.transitions += 2 * len(out)
    ctx.traces += len(out)
    ctx.end((m.B, T, P))


def changed(ctx, route, bands, n_bands, depth):
    """Every sequence of pack, unpack and changes of the mapping or configuration the packer was made from."""
    import itertools
    from .. import pk
    T, P = 2, 3
    m = pk.Model(bands, n_bands, T, P)
    bl = m.bandlist()
    ids = [(1, 2, bl[0]), (0, 1, bl[-1])]

    def swap(b):
        names = list(b)
        v = [b[n] for n in names]
        for n, i in zip(names, v[1:] + v[:1]):
            b[n] = i

    def add(b):
        b["new"] = 0

    def drop(b):
        del b[list(b)[0]]

    ops = [("pack", 0), ("unpack", 0), ("pack", 1), ("unpack", 1), ("change", swap), ("change", add), ("change", drop)]
    for seq in itertools.product(ops, repeat=depth):
        kinds = [o for o, _ in seq]
        if "change" not in kinds or kinds[-1] == "change" or seq.count(("change", drop)) > 1:
            continue
        ctx.begin("packer made by", route, "from", dict(bands), "n_bands", n_bands)
        if route == "constructor":
            mapping = dict(bands)
            packer = pk.make(mapping, n_bands, T, P)
        else:
            cfg = pk.Packer.ConfigClass()
            cfg.bands, cfg.n_bands, cfg.n_tracts, cfg.n_patches = dict(bands), n_bands, T, P
            mapping = cfg.bands
            packer = pk.Packer.from_config(pk.fixed(), cfg)
        for op, i in seq:
            if op == "change":
                ctx.step("change of the mapping", i.__name__)
                i(mapping)
                continue
            d = pk.data_id(*ids[i])
            k = m.pack(*ids[i])
            ctx.step(op, ids[i])
            if op == "pack":
                ctx.equal(packer.pack(d), k, "pack(%r)", ids[i])
            else:
                ctx.equal(pk.key(packer.unpack(k)), pk.key(d), "unpack(%d)", k)
        ctx.state(route, n_bands, tuple((o, getattr(i, "__name__", i)) for o, i in seq))
        ctx.end(tuple(kinds))


def scenarios(tier):
    for route in ("constructor", "configuration"):
        for bands, nb in (({"i": 1, "r": 0}, None), ({"r": 0, "y": 3, "z": 2}, 4)):
            yield "changed mapping %s %s" % (route, bands), changed, (route, bands, nb, 4 if tier == "quick" else 5)
    from .. import pk
    for bi, bands in enumerate(pk.BANDS):
        for nb in pk.NBANDS:
            yield "roundtrip bands=%s n_bands=%s" % (bands, nb), roundtrip, (bands, nb)
    for T, P in ((2, 20011), (20011, 2), (257, 81), (70, 333), (1, 66000)) + (((3, 66000), (1100, 1100), (300000, 2)) if tier != "quick" else ()):
        for bands, nb in ((None, 0), ({"i": 1, "r": 0}, None)):
            if T * P < 90000 or nb == 0:
                yield "dense T=%d P=%d bands=%s" % (T, P, bands), dense, (bands, nb, T, P)
    yield "several packers", several, (4 if tier == "quick" else 6,)
    for bands, nb in ((None, 0), (None, None), ({"i": 1, "r": 0}, None), ({"z": 5, "g": 1}, 6)):
        yield "large bands=%s n_bands=%s" % (bands, nb), large, (bands, nb)
        yield "histories bands=%s n_bands=%s" % (bands, nb), histories, (bands, nb, 4 if tier == "quick" else 5)
