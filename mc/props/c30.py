ID = "C30"
RULE = ("state = (numRings, raStart, tract or position); transitions = ring indices, centers and lookups compared with the version 0 layout model; "
        "a trace = one tract or position")
BOUNDS = {"quick": "numRings 1..12 x raStart {0, 0.25, 200, 359.99}, and 25 and 40 rings; every tract; positions of C13; all containment by brute force (numRings <= 7)",
          "thorough": "numRings 1..24 x 7 raStart; denser positions; brute force for numRings <= 11"}
ASSUMPTIONS = ["getRingIndices may number the tract at raStart 0 or (as it does) one past the end of its ring"]


def amap(ctx, n, ra0, fine, brute):
    import copy
    import pickle
    import numpy as np
    from .. import lookup, maps
    ref = maps.ref
    spec = maps.rings(n, ra0, npix=25, ov=0.12 * 180 / (n + 1), version=0)
    m, v1 = spec.make(), spec.but(version=1).make()
    lay = lookup.adopt(spec, m)
    ctx.equal(len(m), len(v1), "number of tracts of version 0 and version 1")
    ctx.equal(len(m), lay.total, "number of tracts")
    tab = lay.table()
    for i, (r, t) in enumerate(tab):
        ctx.begin("numRings", n, "raStart", ra0, "tract", i)
        ctx.state(i)
        ctx.step("tract", i)
        rr, tt = (int(v) for v in m.getRingIndices(i))
        k = lay.nums[r] if 0 <= r < n else 1
        ctx.check(rr == r and tt % k == t and 0 <= tt <= k, "ring indices of tract %d are %r, expected %r", i, (rr, tt), (r, t))
        tr = m[i]
        ctx.equal(tr.getId(), i, "tract ID")
        c = maps.tov(tr.getCtrCoord())
        ctx.check(ref.sep(c, ref.vec(*lay.center(r, t))) < 1e-9, "center of tract %d is %r, expected that of ring %d, %d", i, ref.lonlat(c), r, t)
        w = lay.rarange(r, t)
        a0, a1, d0, d1 = (v.asRadians() for v in m.getRaDecRange(i))
        ctx.check(abs(d0 - w[2]) < 1e-9 and abs(d1 - w[3]) < 1e-9, "Dec range of tract %d", i)
        for a, b in ((a0, w[0]), (a1, w[1])):
            d = (a - b) % (2 * ref.PI)
            ctx.check(min(d, 2 * ref.PI - d) < 1e-9, "RA range of tract %d is (%r, %r), expected (%r, %r)", i, a0, a1, w[0], w[1])
        ctx.step("findTract of the center")
        back = m.findTract(tr.getCtrCoord())
        ctx.check(ref.sep(maps.tov(back.getCtrCoord()), c) < 1e-9, "findTract(center of tract %d) is tract %d", i, back.getId())
        ctx.end((n, r, t))
    allpos = maps.rings_positions(lay, fine)
    for lon, lat, r, t in allpos:
        want = lay.index_of(r, t)
        ctx.begin("numRings", n, "raStart", ra0)
        ctx.state(lon, lat)
        ctx.step("findTract", "%.9f" % lon, "%.9f" % lat)
        i = m.findTract(maps.sp(lon, lat)).getId()
        if want:
            ctx.check(i in want, "findTract(%.9f, %.9f) is %d, expected %r", lon, lat, i, want)
        j = m.findTractIdArray([lon], [lat])
        ctx.equal([int(x) for x in j], [i], "findTractIdArray(%.9f, %.9f)", lon, lat)
        if brute:
            co = maps.sp(lon, lat)
            ctx.step("findAllTracts")
            got = [x.getId() for x in m.findAllTracts(co)]
            ctx.check(len(got) == len(set(got)), "findAllTracts(%.9f, %.9f) lists a tract twice: %r", lon, lat, got)
            have = {tab[x] for x in got}
            for x in range(len(m)):
                c = m[x].contains(co)
                ctx.check(c or x not in got, "findAllTracts(%.9f, %.9f) lists tract %d, which does not contain it", lon, lat, x)
                ctx.check(not c or tab[x] in have, "findAllTracts(%.9f, %.9f) misses tract %d and any duplicate of it", lon, lat, x)
        ctx.end(i)
    # all persistence routes keep the numbering
    for how, q in (("pickle", pickle.loads(pickle.dumps(m))), ("copy", copy.copy(m)), ("deepcopy", copy.deepcopy(m))):
        ctx.begin("numRings", n, how)
        for i, (r, t) in enumerate(tab):
            ctx.step(how, i)
            ctx.equal(tuple(q.getRingIndices(i)), tuple(m.getRingIndices(i)), "%s: ring indices of tract %d", how, i)
        lon = np.array([p[0] for p in allpos])
        lat = np.array([p[1] for p in allpos])
        ctx.check((q.findTractIdArray(lon, lat) == m.findTractIdArray(lon, lat)).all(), "%s: findTractIdArray differs", how)
        ctx.end((n, how))


def scenarios(tier):
    big = tier == "thorough"
    for n, ra0 in ((25, 10.0), (40, 0.0)) if not big else ((33, 10.0), (40, 0.0), (64, 300.0), (120, 77.0)):
        yield "numRings %d raStart %g" % (n, ra0), amap, (n, ra0, False, False)
    for n in range(1, 25 if big else 13):
        for ra0 in ((0.0, 0.25, 200.0, 359.99, 90.0, 1e-9, 12.3) if big else (0.0, 0.25, 200.0, 359.99)):
            yield "numRings %d raStart %g" % (n, ra0), amap, (n, ra0, big, n <= (11 if big else 7))
