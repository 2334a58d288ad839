ID = "C26"
RULE = ("state = a (tract, patch, band) data ID of a map registered in a real butler; transitions = pack calls, unpack calls and record lookups, each compared with the "
        "mixed-radix model; a trace = one data ID packed, checked and unpacked through one packer")
BOUNDS = {"quick": "15 maps of all classes registered in real butlers; every (tract, patch) with 3 bands, through packers from the constructor, from_config and a config field, with and without bands; 11 maps of 1 to 101 tracts of which one (each of them, in the small ones) is the largest; the uneven maps also registered after use of some of their tracts",
          "thorough": "63 maps, all bands of the default list"}
ASSUMPTIONS = ["lsst.daf.butler is the installed release with an SQLite registry and file datastore"]


def packers(fx, data_id):
    """[(label, packer, bands to try, number of bands reserved, {band: int})]"""
    from lsst.pex.config import Config
    from .. import pk

    class C(Config):
        packer = pk.Packer.make_config_field()
    c = C()
    c.packer.n_bands = 0
    yield "config field without bands", c.packer.apply(data_id), [None], 0, {}
    c = C()
    c.packer.bands = {"r": 0, "odd": 1, "z": 4}
    c.packer.n_bands = 5
    yield "config field with sparse bands", c.packer.apply(data_id), ["r", "odd", "z"], 5, {"r": 0, "odd": 1, "z": 4}
    c = pk.Packer.ConfigClass()
    c.n_bands = None
    yield "from_config with default bands", pk.Packer.from_config(data_id, c), list("gri"), None, None
    yield "constructor", pk.Packer(fx), list("gri"), len(pk.DEFAULT_BANDS), pk.DEFAULT_BANDS
    yield "constructor without bands", pk.Packer(fx, n_bands=0), [None], 0, {}
    dims = pk.U.conform(["tract", "patch"])
    yield "dimensions without band", pk.Packer(fx, dimensions=dims), [None], 0, {}


def run(ctx, spec, big, use=()):
    from .. import butlers as B
    from .. import pk
    m = spec.make()
    counts = [t.getNumPatches() for t in m]
    nx, ny = max(int(c[0]) for c in counts), max(int(c[1]) for c in counts)
    T, P = len(m), nx * ny
    with B.repo() as path, B.opened(path) as b:
        r = spec.make()
        for i in use:
            # tracts used before the map is registered
            for patch in r[i % len(r)]:
                pass
        r.register("survey", b)
        data_id = b.registry.expandDataId(skymap="survey")
        fx = data_id.subset(b.dimensions.conform(["skymap"]))
        ids = sorted((int(r.tract), int(r.id), int(r.cell_x), int(r.cell_y)) for r in b.registry.queryDimensionRecords("patch"))
        ctx.equal([(t, p) for t, p, _, _ in ids], [(int(t.getId()), int(p.getSequentialIndex())) for t in m for p in t], "registered patches")
        for label, packer, bands, nb, table in packers(fx, data_id):
            if nb is None:
                # the defaults of the configuration are not part of this property
                table = {x: None for x in bands}
            elif big and label == "constructor":
                bands = [x for x in table if x is not None]
            seen = {}
            maxbits = packer.maxBits
            for tract, patch, i, j in ids:
                for band in bands:
                    ctx.begin(spec, label)
                    ctx.step("pack", tract, patch, band)
                    d = pk.data_id(tract, patch, band, "survey")
                    k, bits = packer.pack(d, returnMaxBits=True)
                    ctx.equal(bits, maxbits, "maxBits returned by pack")
                    ctx.check(0 <= k and k.bit_length() <= maxbits, "tract %d patch %d packs to %d, which does not fit %d bits", tract, patch, k, maxbits)
                    ctx.check(k not in seen, "tract %d patch %d band %r packs to the same %d as %r", tract, patch, band, k, seen.get(k))
                    seen[k] = (tract, patch, band)
                    if nb is not None:
                        # each data ID gets the place the registered maxima give it
                        want = tract * P + patch + ((table[band] * T * P) if nb else 0)
                        ctx.equal(int(k), want, "tract %d patch %d band %r packed for %d tracts and %dx%d patches", tract, patch, band, T, nx, ny)
                    ctx.step("unpack", k)
                    u = packer.unpack(k)
                    ctx.equal(pk.key(u), pk.key(d), "unpacking %d", k)
                    ctx.state(label, tract, patch, band)
                    if label == "constructor without bands":
                        # the unpacked data ID identifies the patch in the butler and in the map
                        got = m[u["tract"]].getPatchInfo(u["patch"])
                        ctx.equal(tuple(int(q) for q in got.getIndex()), (i, j), "patch of the unpacked data ID")
                    ctx.end(tract)
            if nb is not None:
                n = T * P * (nb or 1)
                bits = 0
                while (1 << bits) < n:
                    bits += 1
                ctx.equal(maxbits, bits, "%s: maxBits for %d tracts, %dx%d patches, %d bands", label, T, nx, ny, nb)


def crowd(n, k):
    """A map of n tracts of which number k is the largest."""
    from .. import maps
    return maps.discrete([3.3 * i for i in range(n)], [-40.0 + (.7 * i) % 80 for i in range(n)], [.12 if i != k else .3 for i in range(n)], scale=90.0)


def scenarios(tier):
    from .. import maps
    from .c24 import usable
    big = tier == "thorough"
    menu = maps.menu(tier)
    if big:
        menu = menu[:30] + menu[30::7]
    else:
        menu = [s for s in menu if s.cls in ("discrete", "equat")] + [maps.dodeca(False), maps.healpix(0), maps.healpix(1, True, npix=30), maps.rings(3),
                maps.rings(3, 123.4, version=0, builder=maps.LEG0, npix=60), maps.rings(5, 10.0, rot=30.0, npix=30, builder=maps.LEG2)]
    menu += maps.uneven()
    for n, k in ((1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (8, 7), (40, 39), (40, 0), (60, 3), (101, 0)) + (((130, 27), (260, 0)) if big else ()):
        menu.append(crowd(n, k))
    for s in menu:
        if usable(s, 6000 if big else 1500):
            yield "map %s" % s, run, (s, big)
    for s in maps.uneven() + [maps.discrete(*maps.DISC_B), maps.rings(3)]:
        n = len(s.make())
        for use in [(i,) for i in sorted({0, n // 2, n - 1})] + [(0, n - 1), (n - 1, 0)]:
            if usable(s, 6000 if big else 1500):
                yield "map %s after use of %s" % (s, list(use)), run, (s, False, use)
