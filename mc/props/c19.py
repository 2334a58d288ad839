ID = "C19"
RULE = ("state = (map, list of positions); transitions = findTractPatchList and findClosestTractPatchList answers compared, tract by tract, with the model built from "
        "each tract's own findPatchList and contains; a trace = one list")
BOUNDS = {"quick": "27 maps: all lists of length 0, 1 and 2 over 10 positions (centers, mid-boundaries, vertices, far side, pole, RA seam), lists of length 4 over chosen ones, all with repetition, and lists of 12 to 68 with a new position at the end",
          "thorough": "237 maps, 16 positions"}
ASSUMPTIONS = ["findPatchList, contains and findTract of single tracts and positions are decided by C18, C17 and C12"]


def positions(spec, m, count):
    from .. import maps
    ref = maps.ref
    n = len(m)
    k = [0, n - 1, n // 2, n // 3]
    out, names = [], []

    def put(v, name):
        out.append(maps.spv(v))
        names.append(name)
    c = [maps.tov(m[i].getCtrCoord()) for i in range(n)]
    put(c[k[2]], "center %d" % k[2])
    near = sorted(range(n), key=lambda j: ref.sep(c[k[2]], c[j]))
    j = near[1] if n > 1 else 0
    lon, lat = ref.lonlat(c[k[2]])
    if n > 1 and 1e-6 < ref.sep(c[k[2]], c[j]) < 3.0:
        put(c[j], "center %d" % j)
        put(ref.unit(tuple(.502 * a + .498 * b for a, b in zip(c[k[2]], c[j]))), "between %d and %d" % (k[2], j))
    vs = list(m[k[2]].getVertexList())
    for i, v in enumerate(vs[::2][:2]):
        lo, la = v.getLongitude().asRadians(), v.getLatitude().asRadians()
        put(ref.move(lo, la, 1.0 + i, 1e-4), "vertex %d of %d" % (2 * i, k[2]))
    put(c[0], "center 0")
    put(c[n - 1], "center %d" % (n - 1))
    put(tuple(-a for a in c[k[2]]), "antipode of %d" % k[2])
    put(ref.move(0.0, 1.5, .3, .01), "near the north pole")
    put(ref.vec(1e-9, lat), "seam+")
    put(ref.vec(-1e-9, lat), "seam-")
    for i, f in enumerate((.3, .6, .9, .11, .77, .45)):
        put(ref.move(lon, lat, 6 * f, .2 + 2.5 * f), "scattered %d" % i)
    return out[:count], names[:count]


def flat(ctx, res, what):
    out = []
    for item in res:
        t, ps = item
        out.append((int(t.getId()), sorted(tuple(int(v) for v in p.getIndex()) for p in ps)))
    ids = [i for i, _ in out]
    ctx.check(len(set(ids)) == len(ids), "%s lists a tract twice: %r", what, ids)
    return out


def amap(ctx, spec, count):
    m = spec.make()
    pos, names = positions(spec, m, count)
    n = len(m)
    every = [m[i] for i in range(n)]
    inside = [{i for i in range(n) if every[i].contains(c)} for c in pos]
    home = [int(m.findTract(c).getId()) for c in pos]
    dup = None
    if spec.cls == "rings" and spec.version == 0:
        # the last tract of the first ring repeats the first one and may stay unlisted
        dup = next(i for i in range(2, n) if m.getRingIndices(i)[0] != 0) - 1
        assert every[dup].getCtrCoord().separation(every[1].getCtrCoord()).asRadians() < 1e-9, "no duplicate tract"
    k = len(pos)
    lists = [()] + [(i,) for i in range(k)] + [(i, j) for i in range(k) for j in range(k)]
    lists += [(i, j, i, h) for i in range(0, k, 2) for j in range(1, k, 3) for h in range(0, k, 3)]
    # long lists: one position many times and then another, or all but one in turn and then it
    lists += [(i,) * 17 + ((i + 3) % k,) for i in range(k)]
    for j in range(0, k, 2):
        rest = [i for i in range(k) if i != j]
        lists.append(tuple(rest[a % len(rest)] for a in range((35, 20, 11)[j // 2 % 3])) + (j,))
    lists.append((0,) * 66 + (k - 1, 1))
    for lst in lists:
        coords = [pos[i] for i in lst]
        what = "[%s]" % ", ".join(names[i] for i in lst)
        ctx.begin(spec, what)
        ctx.state(lst)

        per = {}

        def patches(i):
            if i not in per:
                per[i] = sorted(tuple(int(v) for v in p.getIndex()) for p in every[i].findPatchList(coords))
            return per[i]

        ctx.step("findTractPatchList", what)
        got = flat(ctx, m.findTractPatchList(list(coords)), "findTractPatchList(%s)" % what)
        for i, ps in got:
            ctx.equal(ps, patches(i), "findTractPatchList(%s): patches of tract %d", what, i)
            ctx.check(ps, "findTractPatchList(%s): no patches listed for tract %d", what, i)
        ids = [i for i, _ in got]
        if spec.cls == "rings":
            want = set().union(*[inside[i] for i in lst])
            if dup is not None:
                ctx.equal(set(ids) - {dup}, want - {dup}, "findTractPatchList(%s): tracts", what)
                ctx.check(dup not in ids or dup in want, "findTractPatchList(%s) lists tract %r", what, dup)
            else:
                ctx.equal(set(ids), want, "findTractPatchList(%s): tracts", what)
        else:
            ctx.equal(ids, [i for i in range(n) if patches(i)], "findTractPatchList(%s): tracts", what)
        ctx.step("findClosestTractPatchList", what)
        got2 = flat(ctx, m.findClosestTractPatchList(list(coords)), "findClosestTractPatchList(%s)" % what)
        want = []
        for i in lst:
            if home[i] not in want and patches(home[i]):
                want.append(home[i])
        ctx.equal([i for i, _ in got2], want, "findClosestTractPatchList(%s): tracts", what)
        for i, ps in got2:
            ctx.equal(ps, patches(i), "findClosestTractPatchList(%s): patches of tract %d", what, i)
        ctx.end((tuple(ids), tuple(want)))


def scenarios(tier):
    from .. import maps
    big = tier == "thorough"
    for s in maps.menu(tier):
        yield str(s), amap, (s, 16 if big else 10)
