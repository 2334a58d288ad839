ID = "C20"
RULE = ("state = (configuration, version, history of use); transitions = comparisons of two maps (==, !=, SHA1, hash) against equality of their canonical "
        "definitions, and digests against those of other processes and of the releases before; a trace = one ordered pair of maps, or one digest")
BOUNDS = {"quick": "per class and builder: the base map and every single-option variation (several values per option, down to the last bit of a float), all ordered pairs, all histories of 0-2 uses of the first map; discrete lists of 20 to 310 tracts with any of 32 entries changed, dropped or exchanged; 27 + 8 maps of all classes pairwise; maps of a class, of two derived from it and of both versions that share a configuration object; digests in 3 processes",
          "thorough": "additionally all two-option variations, and 237 maps pairwise"}
ASSUMPTIONS = ["the digests of 12 configurations recorded in this file are those of the pinned commit"]

PINNED = None


def variations(spec):
    """[(label, spec)]: single-option changes of a spec; every one is a different definition."""
    import math
    from .. import maps
    out = []

    def common(k, vals):
        for v in vals:
            c = dict(spec.common)
            c[k] = v
            out.append(("%s=%r" % (k, v), spec.but(common=c)))

    def opts(k, vals):
        for v in vals:
            o = dict(spec.opts)
            o[k] = v
            out.append(("%s=%r" % (k, v), spec.but(opts=o)))

    def build(k, vals):
        for v in vals:
            o = dict(spec.builder[1])
            o[k] = v
            out.append(("%s=%r" % (k, v), spec.but(builder=(spec.builder[0], o))))
    ov, sc, rot = spec.common["tractOverlap"], spec.common["pixelScale"], spec.common["rotation"]
    common("tractOverlap", [ov + .5, math.nextafter(ov, 100), sc, ov + 1e-9])
    common("pixelScale", [sc * 2, math.nextafter(sc, 0)])
    common("rotation", [rot + 10, math.nextafter(rot, 100), rot - 180.0, rot + 360, rot - 360, rot + 90, -rot if rot else -90.0])
    common("projection", ["TAN" if spec.proj == "STG" else "STG", "ZEA"])
    if spec.builder[0] == "legacy":
        x, y = spec.builder[1]["patchInnerDimensions"]
        b = spec.builder[1]["patchBorder"]
        build("patchInnerDimensions", [(x + 1, y), (x, y + 1), (y, x) if x != y else (x + 2, y + 2), (x + 256, y)])
        build("patchInnerDimensions", [(x, y + 256), (x + 65536, y), (x, y + 65536)])
        build("patchBorder", [b + 1, b + 256, b + 65536, x if x != b else x + 1])
    else:
        q = spec.builder[1]
        c = q["cellInnerDimensions"][0]
        build("cellInnerDimensions", [(c + 1, c + 1), (c + 256, c + 256), (c + 65536, c + 65536)])
        for k in ("cellBorder", "numCellsPerPatchInner", "numCellsInPatchBorder"):
            build(k, [q[k] + 128, q[k] + 256, q[k] + 65536])
        build("cellBorder", [q["cellBorder"] + 1])
        build("numCellsPerPatchInner", [q["numCellsPerPatchInner"] + 1, q["numCellsInPatchBorder"] if q["numCellsInPatchBorder"] != q["numCellsPerPatchInner"] and q["numCellsInPatchBorder"] else 9])
        build("numCellsInPatchBorder", [q["numCellsInPatchBorder"] + 1, q["numCellsPerPatchInner"] + 7])
    o = spec.opts
    if spec.cls == "rings":
        opts("numRings", [o["numRings"] + 1, o["numRings"] + 2, o["numRings"] + 256])
        opts("raStart", [o["raStart"] + 1.0, math.nextafter(o["raStart"], 400), (o["raStart"] + 180) % 360, 360.0 - o["raStart"] if o["raStart"] else 359.5])
        if spec.version is None:
            out.append(("version=0", spec.but(version=0)))
    elif spec.cls == "dodeca":
        opts("withTractsOnPoles", [not o["withTractsOnPoles"]])
    elif spec.cls == "equat":
        opts("numTracts", [o["numTracts"] + 1, o["numTracts"] * 2, o["numTracts"] + 256])
        a, b = o["decRange"]
        opts("decRange", [(a, b + 1), (a - 1, b), (math.nextafter(a, 90), b), (a, math.nextafter(b, 90)), (a + .1, b + .1)] + [(b, a), (-a, b), (a, -b), (-b, -a)] * (abs(a) != abs(b)))
    elif spec.cls == "healpix":
        opts("log2NSide", [o["log2NSide"] + 1])
        opts("nest", [not o["nest"]])
    else:
        r, d, q = (list(o[k]) for k in ("raList", "decList", "radiusList"))
        for k in ("raList", "decList", "radiusList"):
            v = list(o[k])
            opts(k, [v[:-1] + [v[-1] + .25], [v[0] + .5] + v[1:], v[:-1] + [math.nextafter(v[-1], 0)], [v[0] + .01] + v[1:-1] + [v[-1] - .01]] + ([[v[0] + 360] + v[1:], [v[0] - 360] + v[1:]] if k == "raList" else []))
        for label, sel in (("dropped last", slice(0, -1)), ("dropped first", slice(1, None)), ("reversed", slice(None, None, -1))):
            out.append((label, spec.but(opts=dict(raList=r[sel], decList=d[sel], radiusList=q[sel]))))
        out.append(("repeated", spec.but(opts=dict(raList=r + r[-1:], decList=d + d[-1:], radiusList=q + q[-1:]))))
        out.append(("ra and dec exchanged", spec.but(opts=dict(raList=d, decList=r, radiusList=q)) if max(r) <= 90 else spec.but(opts=dict(raList=r, decList=q, radiusList=[abs(x) + .1 for x in d]))))
        out.append(("empty", spec.but(opts=dict(raList=[], decList=[], radiusList=[]))))
    return out


def key(spec):
    """The canonical definition."""
    return (spec.cls, 1 if spec.version is None or spec.cls != "rings" else spec.version,
            tuple(sorted((k, tuple(v) if isinstance(v, (list, tuple)) else v) for k, v in spec.opts.items())),
            tuple(sorted(spec.common.items())),
            spec.builder[0], tuple(sorted((k, tuple(v) if isinstance(v, (list, tuple)) else v) for k, v in spec.builder[1].items())))


def compare(ctx, ka, a, kb, b, what):
    sig = None
    if ka != kb and ka[0] == kb[0] == "rings" and ka[:1] + ka[2:] == kb[:1] + kb[2:]:
        sig = "rings-versions-equal"
    same = ka == kb
    ctx.step(what)
    ctx.equal(bool(a == b), same, "%s: ==", what, sig=sig)
    ctx.equal(bool(a != b), not same, "%s: !=", what, sig=sig)
    sa, sb = a.getSha1(), b.getSha1()
    ctx.check(isinstance(sa, bytes) and len(sa) == 20, "SHA1 is %r", sa)
    ctx.equal(sa == sb, same, "%s: SHA1 equality", what, sig=sig)
    if same:
        ctx.equal(hash(a), hash(b), "%s: hash", what)
        ctx.check(a in {b} and {b: 1}.get(a) == 1, "%s: equal maps are different members of a set", what)
    elif sig is None:
        ctx.check(a not in {b}, "%s: different maps are the same member of a set", what)
    ctx.end((what, same))


def uses():
    import copy
    import pickle

    def lookup(m):
        from .. import maps
        if len(m):
            m.findTract(maps.sp(.3, .2))
        return m
    return [("fresh", lambda m: m), ("iterated", lambda m: (list(m), m)[1]), ("last tract", lambda m: (m[len(m) - 1] if len(m) else None, m)[1]),
            ("findTract", lookup), ("getSha1", lambda m: (m.getSha1(), m)[1]), ("hashed", lambda m: (hash(m), m)[1]),
            ("pickled", lambda m: pickle.loads(pickle.dumps(m))), ("copied", copy.copy), ("deep-copied", copy.deepcopy)]


def base(ctx, spec, two):
    from .. import maps
    var = [("base", spec)] + variations(spec)
    if two:
        seen = {key(v[1]) for v in var}
        for l, s in variations(spec):
            for l2, s2 in variations(s)[::3]:
                if key(s2) not in seen:
                    seen.add(key(s2))
                    var.append((l + " " + l2, s2))
    keys = [key(s) for _, s in var]
    made = [s.make() for _, s in var]
    again = [s.make() for _, s in var]
    # the same definition reached by other routes: unselected builder changed, alias used
    for (label, s), k, m in zip(var, keys, made):
        other = "cells" if s.builder[0] == "legacy" else "legacy"
        for o, v in ((("cellBorder", 3), ("numCellsPerPatchInner", 77)) if other == "cells" else (("patchBorder", 17), ("patchInnerDimensions", (123, 456)))):
            c = s.config()
            setattr(c.tractBuilder[other], o, v)
            c.validate()
            cls = maps.CLASSES[s.cls]
            x = cls(c) if s.version is None else cls(c, version=s.version)
            ctx.begin(spec, label, "unselected", o)
            compare(ctx, k, m, k, x, "%s vs the same with unselected %s.%s=%r" % (label, other, o, v))
    for i, (la, sa) in enumerate(var):
        ctx.state(keys[i])
        for j, (lb, sb) in enumerate(var):
            ctx.begin(spec, la, lb)
            compare(ctx, keys[i], made[i], keys[j], again[j], "%s vs %s" % (la, lb))
    # other things
    t = made[0][0] if len(made[0]) else None
    for x in (None, 1, 0, "rings", b"x", object(), (), [], spec.config(), t, made[0].getSha1(), made[0].__class__):
        ctx.begin("other", type(x).__name__)
        ctx.step("other", type(x).__name__)
        ctx.check((made[0] == x) is False and (x == made[0]) is False, "comparison with %r is not False", type(x))
        ctx.check((made[0] != x) is True and (x != made[0]) is True, "!= with %r is not True", type(x))
        ctx.end(type(x).__name__)


def long(ctx, n):
    """Lists of hundreds of tracts that differ in one entry, anywhere."""
    from .. import maps
    r, d, q = ([(i * 137.508) % 360 for i in range(n)], [-85 + 170 * i / (n - 1) for i in range(n)], [.05 + .001 * (i % 70) for i in range(n)])
    spec = maps.discrete(r, d, q)
    a = spec.make()
    k = key(spec)
    b = [("the same", spec)]
    at = sorted({0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 31, 32, 63, 64, 99, 100, 101, 127, 128, 129, 199, 255, 256, 257, n // 2, n - 11, n - 4, n - 3, n - 2, n - 1} & set(range(n)))
    for name, v in (("raList", r), ("decList", d), ("radiusList", q)):
        for i in at:
            for dv in (.25, 1e-9):
                x = list(v)
                x[i] += dv if x[i] < 80 else -dv
                b.append(("%s[%d]%+g" % (name, i, dv), spec.but(opts=dict(spec.opts, **{name: x}))))
    for i in at:
        b.append(("without %d" % i, spec.but(opts=dict(raList=r[:i] + r[i + 1:], decList=d[:i] + d[i + 1:], radiusList=q[:i] + q[i + 1:]))))
        j = (i + 1) % n
        x = [list(v) for v in (r, d, q)]
        for v in x:
            v[i], v[j] = v[j], v[i]
        b.append(("%d and %d exchanged" % (i, j), spec.but(opts=dict(raList=x[0], decList=x[1], radiusList=x[2]))))
    for label, s in b:
        ctx.begin("long", n, label)
        ctx.state(n, label)
        compare(ctx, k, a, key(s), s.make(), "%d tracts vs %s" % (n, label))


def shared(ctx, specs):
    """Maps made from one configuration object: of their class, of classes derived from it, of both versions."""
    from .. import maps
    for spec in specs:
        cls = maps.CLASSES[spec.cls]
        c = spec.config()
        own = type("Own" + cls.__name__, (cls,), {})
        own2 = type("Other" + cls.__name__, (own,), {})
        made = []
        for k in (cls, own, own2):
            for v in (0, 1) if spec.cls == "rings" else (None,):
                for i in range(2):
                    made.append(((k.__name__,) + key(spec if v is None else spec.but(version=v)), k(c) if v is None else k(c, version=v)))
                    made.append((made[-1][0], k(spec.config()) if v is None else k(spec.config(), version=v)))
        for i, (ka, a) in enumerate(made):
            ctx.state(spec, i)
            for j, (kb, b) in enumerate(made):
                ctx.begin("shared", spec, i, j)
                if ka[0] == kb[0]:
                    compare(ctx, ka[1:], a, kb[1:], b, "%s %d vs %d of one configuration" % (ka[0], i, j))
                else:
                    compare(ctx, ka, a, kb, b, "%s vs %s of one configuration" % (ka[0], kb[0]))


def histories(ctx, spec):
    var = [("base", spec)] + variations(spec)[:2]
    us = uses()
    for a, fa in us:
        for b, fb in us:
            m = fb(fa(spec.make()))
            ctx.state(a, b)
            for label, s in var:
                ctx.begin(spec, a, b, label)
                compare(ctx, key(spec), m, key(s), s.make(), "%s after %s, %s vs fresh %s" % ("base", a, b, label))


def pairs(ctx, specs, part, parts):
    made = [(key(s), s.make()) for s in specs]
    for i in range(part, len(made), parts):
        ctx.state(i)
        for j in range(len(made)):
            ctx.begin(specs[i], "vs", specs[j])
            compare(ctx, made[i][0], made[i][1], made[j][0], made[j][1], "maps %d and %d" % (i, j))


def digests(ctx, update=False):
    """The same digest in other processes, and as recorded."""
    import json
    import os
    import subprocess
    import sys
    from .. import core, maps
    specs = maps.real() + [maps.Spec("rings", dict(numRings=7, raStart=13.5), dict(tractOverlap=0.25, pixelScale=7.5, projection="TAN", rotation=15.0), maps.LEG),
                           maps.Spec("discrete", dict(raList=[1.5, 2.5], decList=[-30.25, 60.125], radiusList=[.5, .25]), dict(pixelScale=2.5, projection="TAN"), maps.CELL),
                           maps.Spec("equat", dict(numTracts=6, decRange=(-2.5, 7.5)), dict(tractOverlap=.5), maps.CELL2),
                           maps.Spec("healpix", dict(log2NSide=3, nest=True), dict(rotation=15.0), maps.LEG2)]
    now = [s.make().getSha1().hex() for s in specs]
    path = os.path.join(core.HERE, "mc", "props", "c20_digests.json")
    if update:
        json.dump(dict(zip(map(repr, specs), now)), open(path, "w"), indent=0)
    old = json.load(open(path))
    for s, d in zip(specs, now):
        ctx.begin("digest", s)
        ctx.state(s)
        ctx.step("digest", s)
        ctx.equal(d, old[repr(s)], "SHA1 of %s and the recorded one", s)
        ctx.end(d)
    code = ("import sys; sys.path.insert(0, %r); sys.dont_write_bytecode=True\n"
            "from mc import maps\nfrom mc.props import c20\n"
            "print('|'.join(m.make().getSha1().hex() for m in maps.menu('quick')))" % core.HERE)
    here = [m.make().getSha1().hex() for m in maps.menu("quick")]
    for seed in ("0", "1", "4242"):
        env = dict(os.environ, PYTHONHASHSEED=seed)
        out = subprocess.run([sys.executable, "-c", code], env=env, capture_output=True, text=True, timeout=200)
        ctx.begin("process", seed)
        ctx.step("process", seed)
        ctx.check(out.returncode == 0, "process failed: %s", out.stderr[-500:])
        ctx.equal(out.stdout.strip().split("|"), here, "digests in another process (hash seed %s)", seed)
        ctx.end("process")


def scenarios(tier):
    from .. import maps
    big = tier == "thorough"
    bases = [maps.rings(3, 10.0), maps.rings(3, 10.0, version=0), maps.rings(4, 0.0, builder=maps.CELL), maps.dodeca(False), maps.dodeca(True, builder=maps.CELL2),
             maps.equat(4), maps.equat(3, (-10., 25.), builder=maps.CELL), maps.discrete(*maps.DISC_B), maps.discrete(*maps.DISC_A, builder=maps.CELL2),
             maps.healpix(0), maps.healpix(1, True, builder=maps.CELL)]
    for s in bases:
        yield "variations %s" % s, base, (s, big)
        yield "histories %s" % s, histories, (s,)
    yield "shared", shared, (bases,)
    menu = maps.menu(tier) + maps.real()
    parts = 8
    for i in range(parts):
        yield "pairs %d" % i, pairs, (menu, i, parts)
    for n in (20, 70, 140, 310):
        yield "long %d" % n, long, (n,)
    many = maps.many()
    for i in range(4):
        yield "many %d" % i, pairs, (many, i, 4)
    yield "digests", digests, ()
