"""What sky maps, tracts, patches and cells say about themselves in logs and strings."""
import re

ID = "C39"
RULE = ("state = (map, what was asked before, message number); transitions = log records and strings, parsed and compared with the numbers they must report; a trace = one log of a map, or one object")
BOUNDS = {"quick": "the log of 29 maps of all classes, of 7 of 257 to 768 tracts or of large tracts, and of maps with 0 and 1 tracts, asked once, twice and after lookups, through loggers of two names; the str and repr of every tract up to 40 per map, "
                   "of 6 patches each and of 5 cells each; the strings of all patches and 9 cells each of 152 small tracts with 1x1 to 2x3 patches of 0, 1 and up to 49 cells",
          "thorough": "the same on 239 maps with up to 300 tracts, 12 patches and 9 cells each"}
ASSUMPTIONS = []
ORACLE = "Oracle: the public description of the same objects, whose values the other properties decide."
NUM = r"-?\d+(?:\.\d+)?"


def messages(m, name):
    import logging
    out = []

    class Keep(logging.Handler):
        def emit(self, record):
            out.append((record.levelno, record.getMessage(), record.name))

    log = logging.Logger(name, logging.INFO)
    log.addHandler(Keep())
    log.propagate = False
    m.logSkyMapInfo(log)
    return out


def close(a, b):
    dr = abs(a[0] - b[0])
    return min(dr, abs(dr - 360.0)) <= .000501 and abs(a[1] - b[1]) <= .000501


def around(got, want):
    """The same corners, from the minimum one and x first."""
    return all(close(g, w) for g, w in zip(got, want))


def log(ctx, m, spec, prior, name):
    from .. import maps, ref
    geom = maps.geom
    n = len(m)
    prior(m)
    ctx.begin(spec, name)
    out = messages(m, name)
    ctx.equal(len(out), n + 1, "log records of a map with %d tracts", n)
    ctx.equal({lv for lv, _, _ in out}, {20}, "levels of the log records")
    ctx.equal({nm for _, _, nm in out}, {name}, "logger of the log records")
    ctx.equal([int(v) for v in re.findall(r"\b\d+\b", out[0][1])], [n], "number of tracts in %r", out[0][1])
    for i in range(n):
        text = out[1 + i][1]
        ctx.step("record", i)
        ctx.state(spec, i)
        t = m[i]
        mm = re.search(r"tract\s+(\d+)\b", text)
        ctx.check(mm and int(mm.group(1)) == i, "record %d does not name tract %d: %r", i + 1, i, text)
        corners = [(float(a), float(b)) for a, b in re.findall(r"\((%s),\s*(%s)\)" % (NUM, NUM), text)]
        want = []
        for x, y in ref.corners(maps.box(t.getBBox())):
            s = t.getWcs().pixelToSky(geom.Point2D(x, y))
            want.append((s.getLongitude().asDegrees(), s.getLatitude().asDegrees()))
        ctx.check(len(corners) == 4, "%d corners in %r", len(corners), text)
        ctx.check(around(corners, want), "corners in %r, expected %r", text, want)
        nx, ny = (int(v) for v in t.getNumPatches())
        ctx.check(re.search(r"\b%d x %d patches" % (nx, ny), text), "not %d x %d patches in %r", nx, ny, text)
    ctx.end((repr(spec), name))


def logs(ctx, spec):
    priors = [("nothing", lambda m: None), ("log", lambda m: messages(m, "x")), ("last tract", lambda m: m[len(m) - 1]), ("sha", lambda m: m.getSha1())]
    for k, (label, prior) in enumerate(priors):
        log(ctx, spec.make(), spec, prior, "skymap" if k % 2 else "a.b")


def empty(ctx):
    from .. import maps
    c = maps.DiscreteSkyMap.ConfigClass()
    m = maps.DiscreteSkyMap(c)
    log(ctx, m, "empty", lambda m: None, "e")


def ints(s):
    return [int(float(v)) for v in re.findall(NUM, s)]


def strings(ctx, spec, nt, np_, nc):
    from .. import maps
    m = spec.make()
    seen = {}

    for i in sorted({int(round(k * (len(m) - 1) / max(1, nt - 1))) for k in range(nt)}):
        t = m[i]
        ctx.begin(spec, "tract", i)
        ctx.step("strings of tract", i)
        ctx.state(spec, i)
        ctx.check("TractInfo" in str(t) and ints(str(t).split("(", 1)[1]) == [i], "str of tract %d is %r", i, str(t))
        r = repr(t)
        ctx.check(r.split("(", 1)[0].endswith("TractInfo") and re.search(r"id=%d\b" % i, r), "repr of tract %d is %r", i, r)
        c = maps.tov(t.getCtrCoord())
        got = [float(v) for v in re.findall(r"-?\d+(?:\.\d*)?(?:e-?\d+)?", r.split("ctrCoord", 1)[1])][-3:] if "ctrCoord" in r else []
        ctx.check(len(got) == 3 and all(abs(a - b) < 1e-5 for a, b in zip(got, c)), "center in %r, expected %r", r, c)
        ctx.check(r not in seen, "tracts %d and %r have the same repr", i, seen.get(r))
        seen[r] = i
        ctx.end("tract")
        patches(ctx, i, t, np_, nc)


def boxes(o):
    return [int(v) for b in (o.getInnerBBox(), o.getOuterBBox()) for v in ints(str(b))]


def patches(ctx, i, t, np_, nc):
    n = len(t)
    nx = int(t.getNumPatches()[0])
    for s in sorted({int(round(k * (n - 1) / max(1, np_ - 1))) for k in range(np_)}):
        p = t[s]
        ctx.step("strings of patch", i, s)
        ctx.check("PatchInfo" in str(p) and ints(str(p).replace("Index2D", "", 1).split("(", 1)[1]) == [s % nx, s // nx], "str of patch %d is %r", s, str(p))
        nc_ = int(p.getNumCells()[0])
        want = [s % nx, s // nx] + boxes(p)
        if nc_:
            want += [int(v) for v in p.getCellInnerDimensions()] + [int(p.getCellBorder()), nc_]
        r = repr(p)
        ctx.equal(ints(r.replace("Index2D", "")), want, "numbers in the repr of patch %d of tract %d, %r", s, i, r)
        ctx.check(r.startswith("PatchInfo("), "repr %r", r)
        ctx.end("patch")
        k = len(p)
        for j in sorted({int(round(q * (k - 1) / max(1, nc - 1))) for q in range(nc)}) if k else ():
            cell = p[j]
            ctx.step("strings of cell", i, s, j)
            ctx.check("CellInfo" in str(cell) and ints(str(cell).replace("Index2D", "", 1).split("(", 1)[1]) == [j % nc_, j // nc_], "str of cell %d is %r", j, str(cell))
            ctx.equal(ints(repr(cell).replace("Index2D", "")), [j % nc_, j // nc_] + boxes(cell), "numbers in the repr of cell %d, %r", j, repr(cell))
            ctx.end("cell")


def few(ctx):
    """Patches of 0, 1 and more cells, of tracts of a few patches."""
    from .. import small
    kinds = [("legacy", (5, 4, b)) for b in (0, 2)] + [("cells", (c, n, b, cb)) for c in (2, 5) for n in (1, 2, 3) for b in (0, 1, 2) for cb in (0, 1)]
    for kind, args in kinds:
        for nx in (1, 2):
            for ny in (1, 3):
                bld = (small.legacy if kind == "legacy" else small.cells)(*args)
                ix, iy = args[:2] if kind == "legacy" else (args[0] * args[1],) * 2
                t = small.tract(bld, nx * ix, ny * iy, tid=7)
                ctx.begin(kind, args, nx, ny)
                ctx.state(kind, args, nx, ny)
                patches(ctx, 7, t, 6, 9)


def scenarios(tier):
    from .. import maps
    for s in maps.menu(tier) + maps.uneven():
        yield "log %s" % s, logs, (s,)
        yield "strings %s" % s, strings, ((s, 300, 12, 9) if tier == "thorough" else (s, 40, 6, 5))
    for s in maps.many():
        yield "many %s" % s, log, (s.make(), s, lambda m: None, "many")
    yield "empty", empty, ()
    yield "few cells", few, ()
