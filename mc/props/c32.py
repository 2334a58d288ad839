import math

ID = "C32"
RULE = ("state = (map, position); transitions = findTract, contains and findPatch on a position, and contains of every tract that shares a vertex for positions around it, "
        "each compared with the model of inner regions; a trace = one position resolved to tract and patch, or one shared vertex with its 16 surrounding positions in all tracts that meet there")
BOUNDS = {"quick": "all maps of {dodecahedron TAN any overlap and STG overlap >= 3 deg, HEALPix, unrotated rings of 3-13 rings, with overlap from a tenth of the tract size, equatorial} x 2 projections x rotations x overlaps, with patches of 2x1 pixels so that "
                   "nothing but the overlap is left over; positions: 3 deg lattice, all boundaries +-2e-7 rad and corners of inner regions; 16 directions at 98% and 45% of half the overlap around every vertex",
          "thorough": "1 deg lattice, 3-45 rings, HEALPix to nside 8, 9 overlaps, 12 rotations"}
ASSUMPTIONS = ["positions nearer than 1e-9 rad to a border of inner regions may belong to either tract"]
EDGE = 2e-7


def tight(kind="legacy"):
    if kind == "legacy":
        return ("legacy", dict(patchInnerDimensions=(2, 1), patchBorder=1))
    return ("cells", dict(cellInnerDimensions=(1, 1), cellBorder=1, numCellsPerPatchInner=2, numCellsInPatchBorder=1))


def regions(spec, m):
    """{vertex: set of tracts whose inner regions meet there}, and positions along all borders of inner regions."""
    from . import c27
    from .c31 import face_to_sky, pixels
    from .. import lookup, maps, ref
    corners = {}
    borders = []

    def corner(v, i):
        for w in corners:
            if ref.sep(v, w) < 1e-8:
                corners[w].add(i)
                return
        corners[v] = {i}

    def edge(a, b, n=5):
        """Positions just inside either side of a short great circle between two corners."""
        for k in range(1, n + 1):
            f = k / (n + 1)
            p = ref.unit(tuple((1 - f) * x + f * y for x, y in zip(a, b)))
            q = ref.unit(ref.cross(a, b))
            for s in (EDGE, -EDGE):
                borders.append(ref.unit(tuple(x + s * y for x, y in zip(p, q))))
    if spec.cls == "dodeca":
        faces, near, trip, vert = c27.vecs(spec.opts.get("withTractsOnPoles", False))
        for k, t in enumerate(trip):
            corners[vert[k]] = set(t)
        for a in range(20):
            for b in range(a):
                if len(set(trip[a]) & set(trip[b])) == 2:
                    edge(vert[a], vert[b])
    elif spec.cls == "healpix":
        nside = 1 << spec.opts["log2NSide"]

        def sky(f, x, y):
            z, phi = face_to_sky(f, x / nside, y / nside)
            return ref.vec(phi, -math.asin(max(-1.0, min(1.0, z))))
        table = {}
        for i, (f, x, y) in enumerate(pixels(nside, spec.opts["nest"])):
            for a, b in ((0, 0), (0, 1), (1, 0), (1, 1)):
                v = sky(f, x + a, y + b)
                key = tuple(round(c, 7) + 0.0 for c in v)
                table.setdefault(key, (v, set()))[1].add(i)
            for e in (1e-6, 1 - 1e-6):
                for g in (.1, .3, .5, .7, .9):
                    borders.append(sky(f, x + e, y + g))
                    borders.append(sky(f, x + g, y + e))
        corners = {v: s for v, s in table.values()}
    elif spec.cls == "equat":
        n = spec.opts.get("numTracts", 4)
        d0, d1 = (x * maps.DEG for x in spec.opts.get("decRange", (-1.25, 1.25)))
        w = 2 * math.pi / n
        for k in range(n):
            for d in (d0, d1):
                corners[ref.vec(k * w, d)] = {k, (k - 1) % n}
            for f in (.02, .2, .5, .8, .98):
                for s in (EDGE, -EDGE):
                    borders.append(ref.vec(k * w + s, d0 + f * (d1 - d0)))
            for g in range(8):
                for d in (d0 + EDGE, d1 - EDGE):
                    borders.append(ref.vec((k + (g + .5) / 8) * w, d))
    else:
        lay = lookup.adopt(spec, m)
        for i, (r, t) in enumerate(lay.table()):
            if r in (-1, lay.n):
                continue
            a, b, c, d = lay.rarange(r, t)
            for lon in (a, b):
                for lat in (c, d):
                    v = ref.vec(lon, lat)
                    corners.setdefault(v, set()).add(i)
        # corners of a ring lie on the borders of its neighbours too: judged tract by tract
        for lon, lat, r, t in maps.rings_positions(lay, True):
            borders.append(ref.vec(lon, lat))
    return corners, borders


def cover(ctx, spec, step):
    from .. import maps, ref
    m = spec.make()
    corners, borders = regions(spec, m)
    pts = list(borders)
    if spec.cls == "equat":
        d0, d1 = spec.opts.get("decRange", (-1.25, 1.25))
        lats = [d0 + (d1 - d0) * (k + .5) / 12 for k in range(12)]
    else:
        lats = [-90 + step * k for k in range(int(180 / step) + 1)]
    for la in lats:
        n = max(4, int(360 / step * math.cos(math.radians(la))))
        for k in range(n):
            pts.append(ref.vec(2 * math.pi * (k + .013) / n, math.radians(la)))
    for v in pts:
        p = maps.spv(v)
        lon, lat = ref.lonlat(v)
        ctx.begin(spec)
        ctx.step("position %.5f %.5f deg" % (lon / maps.DEG, lat / maps.DEG))
        t = m.findTract(p)
        ctx.check(t.contains(p), "position %.7f,%.7f deg is not contained in tract %d, which findTract returns for it", lon / maps.DEG, lat / maps.DEG, t.getId())
        ctx.step("findPatch", t.getId())
        patch = t.findPatch(p)
        xy = t.getWcs().skyToPixel(p)
        b = maps.box(patch.getInnerBBox()).t
        ctx.check(b[0] - .501 <= xy.getX() <= b[2] + .501 and b[1] - .501 <= xy.getY() <= b[3] + .501,
                  "position %.7f,%.7f deg is at pixel %r of tract %d, outside of patch %r found for it", lon / maps.DEG, lat / maps.DEG, xy, t.getId(), b)
        ctx.state(t.getId(), tuple(round(c, 9) for c in v))
        ctx.end(int(t.getId()))
    # around corners
    h = spec.overlap / 2
    if h > 0:
        for v, ids in corners.items():
            lon, lat = ref.lonlat(v)
            ctx.begin(spec)
            for f in (.98, .45):
                for k in range(16):
                    q = maps.spv(ref.move(lon, lat, k * math.pi / 8 + .03, f * h))
                    for i in sorted(ids):
                        ctx.step("corner %.4f,%.4f bearing %d" % (lon / maps.DEG, lat / maps.DEG, k), "tract", i)
                        ctx.check(m[i].contains(q), "tract %d does not contain the position %.5f deg from its vertex %.5f,%.5f deg (bearing %.1f deg), less than half the overlap of %.5f deg",
                                  i, f * h / maps.DEG, lon / maps.DEG, lat / maps.DEG, math.degrees(k * math.pi / 8 + .03), spec.overlap / maps.DEG)
            ctx.state("corner", tuple(round(c, 9) for c in v))
            ctx.end(("corner", len(ids)))


def specs(tier):
    from .. import maps
    big = tier == "thorough"
    T, C = tight(), tight("cells")
    j = 0
    rots = (0.0, 20.0, 45.0, 90.0) if not big else tuple(30.0 * k + (7 if k % 3 == 1 else 0) for k in range(12))
    for poles in (False, True):
        for pr, ovs in (("TAN", (0.0, .1, 1.0, 3.5)), ("STG", (3.0, 3.5, 10.0))):
            for ov in ovs:
                for rot in rots:
                    j += 1
                    if big or j % 2 or pr == "TAN":
                        yield maps.dodeca(poles, ov=ov, npix=300, proj=pr, rot=rot, builder=(T, C)[j % 2])
    for l2 in ((0, 1, 2, 3) if big else (0, 1, 2)):
        side = 58.632 / 2 ** l2
        for pr in ("TAN", "STG"):
            for f in ((.1, .2, .5) if pr == "STG" or l2 else (.1, .2)):
                for rot in (rots if l2 < 2 else rots[:2]):
                    j += 1
                    if big or j % 2 == 0:
                        yield maps.healpix(l2, bool(j % 3), ov=f * side, npix=200, proj=pr, rot=rot, builder=(T, C)[j % 2])
    for n in ((3, 4, 5, 7, 10, 16) if big else (3, 4, 7)):
        for r in ((-1.25, 1.25), (-10.0, 4.0), (-30.0, 20.0), (1.0, 3.0), (30.0, 50.0)):
            for ov in (0.0, .1, 1.0):
                for rot in rots[:2]:
                    # equatorial bands in the default projection; others only where the band holds the equator
                    yield maps.equat(n, r, ov=ov, npix=300, rot=rot, builder=T)
                    if n > 4 and r[0] < 0:
                        yield maps.equat(n, r, ov=ov, npix=300, rot=0.0, proj="TAN", builder=C)
    for n in (range(3, 46) if big else (3, 4, 5, 6, 8, 13)):
        for ra in (0.0, 33.0, 359.5):
            for pr in ("TAN", "STG"):
                for f in ((.1, .15, .3, .7) if big and n < 14 else (.1, .3)):
                    j += 1
                    if big and n < 14 or j % 3 == 0:
                        yield maps.rings(n, ra, ov=f * 180 / (n + 1), npix=300, proj=pr, rot=(0.0, 90.0, 180.0)[j % 3] if big else 0.0, builder=(T, C)[j % 2])


def scenarios(tier):
    from .. import maps
    seen = set()
    for s in specs(tier):
        if repr(s) not in seen:
            seen.add(repr(s))
            yield "%s" % s, cover, (s, 1.0 if tier == "thorough" else 3.0)
    for s in maps.real():
        if s.cls in ("equat", "dodeca") or (s.cls == "rings" and s.opts["numRings"] < 40 and s.overlap >= .1 * math.pi / (s.opts["numRings"] + 1)):
            yield "real %s" % s, cover, (s, 3.0)
