ID = "C02"
RULE = ("state = (packer configuration, packed integer); transitions = pack and maxBits calls; a trace = one configuration, "
        "all of its data IDs packed and the set of integers compared with the range")
BOUNDS = {t: "12 band mappings x 7 n_bands x tracts 1..7 x patches 1..9, all data IDs; maxBits also for counts around powers of two up to 2^64"
          for t in ("quick", "thorough")}
ASSUMPTIONS = ["the band integers of a configuration are distinct"]


def run(ctx, bands, n_bands, big):
    from .. import pk
    for T in range(1, 8):
        for P in ((1, 2, 3, 4, 5, 8, 9) if not big else range(1, 26)):
            m = pk.Model(bands, n_bands, T, P)
            if bands is None and T * P > 20:
                continue
            packer = pk.make(bands, n_bands, T, P)
            ctx.begin("packer", "B=%d" % m.B, "T=%d" % T, "P=%d" % P)
            bits = packer.maxBits
            ctx.step("maxBits", bits)
            ctx.equal(bits, m.bits(), "maxBits for %d IDs", m.size())
            seen = {}
            for i in m.ids():
                ctx.step("pack", i)
                k, b = packer.pack(pk.data_id(*i), returnMaxBits=True)
                ctx.equal(b, bits, "returned maxBits")
                ctx.check(0 <= k < m.size(), "packed ID %d of %r outside [0,%d)", k, i, m.size())
                ctx.check(k < (1 << bits), "packed ID %d of %r needs more than maxBits=%d bits", k, i, bits)
                ctx.check(k not in seen, "%r and %r both pack to %d", i, seen.get(k), k)
                seen[k] = i
                ctx.state(m.B, T, P, k)
            if not m.B or sorted(m.bands.values()) == list(range(m.B)) and None not in m.bands:
                ctx.equal(len(seen), m.size(), "number of packed IDs (range must be filled)")
            ctx.end((m.size(), bits))


def bits(ctx):
    from .. import pk
    counts = sorted({max(1, (1 << e) + d) for e in list(range(0, 25)) + [31, 32, 33, 47, 48, 49, 52, 53, 54, 61, 62, 63, 64]
                    for d in (-1, 0, 1)})
    for B, bands in ((0, None), (1, {"r": 0}), (2, None), (3, None), (5, {"r": 0, "i": 1}), (7, None)):
        for T in counts:
            for P in (1, 2, 3, 81, 255, 256, 257, 1 << 15, (1 << 15) + 1):
                m = pk.Model(bands, B, T, P)
                p = pk.make(bands, B, T, P)
                ctx.begin("maxBits", B, T, P)
                ctx.step("maxBits")
                ctx.equal(p.maxBits, m.bits(), "maxBits for B=%d T=%d P=%d", B, T, P)
                last = [i for i in m.ids((T - 1,), (P - 1,))]
                if last:
                    top = max(p.pack(pk.data_id(*i)) for i in last)
                    ctx.step("pack", top)
                    ctx.check(top < m.size() and top < (1 << p.maxBits), "largest ID %d does not fit", top)
                ctx.state(B, T, P)
                ctx.end(m.bits())


def scenarios(tier):
    from .. import pk
    for bands in pk.BANDS:
        for nb in pk.NBANDS:
            yield "bands=%s n_bands=%s" % (bands, nb), run, (bands, nb, tier == "thorough")
    yield "maxBits", bits, ()
