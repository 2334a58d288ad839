ID = "C16"
RULE = ("state = (map, position); transitions = findAllTracts calls compared with containment in every tract's box by the projection model; a trace = one position")
BOUNDS = {"quick": "20 rings maps of the menu and numRings 1..9 x overlap {0, 0.1, 0.5, 1, 1.7 ring heights} x raStart {0, 77.7, 359.99} x TAN/STG (where projectable); 20, 31 and 60 rings; 1 to 4 rings x 7 projections x 3 overlaps, corners off the sky included, compared with contains; positions of C13 and around all tract corners and edges",
          "thorough": "all rings maps of the thorough menu and numRings 1..14 x 7 overlaps x 4 raStart x TAN/STG; denser positions"}
ASSUMPTIONS = ["positions within 1e-4 pixel of a tract edge are not judged"]


def amap(ctx, spec, fine):
    import numpy as np
    from .. import lookup, maps
    ref, geom = maps.ref, maps.geom
    m = spec.make()
    lay = lookup.adopt(spec, m)
    pts = [ref.vec(lo, la) for lo, la, _, _ in maps.rings_positions(lay, fine)]
    every = max(1, len(m) // 200)
    pts = pts[::every]
    boxes, projs, offs = [], [], []
    for t in m:
        c = t.getCtrCoord()
        P = ref.Proj(spec.proj, c.getLongitude().asRadians(), c.getLatitude().asRadians(), spec.scale, spec.rot)
        o = t.getWcs().skyToPixel(c)
        projs.append(P)
        offs.append((o.getX(), o.getY()))
        boxes.append(maps.box(t.getBBox()))
    for k, b in enumerate(boxes):
        if not fine and len(boxes) > 60 and k % (3 * every):
            continue
        x0, y0, x1, y1 = b.t
        mx, my = (x0 + x1) / 2, (y0 + y1) / 2
        for x, y in ((x0, y0), (x1, y0), (x0, y1), (x1, y1), (mx, y0), (mx, y1), (x0, my), (x1, my)):
            for f in ((-.8, .8) if x != mx and y != my else (.2, .8)):
                # f=.8: just outside, .2: just inside
                sx = 0 if x == mx else (1 if x == x1 else -1)
                sy = 0 if y == my else (1 if y == y1 else -1)
                pts.append(projs[k].sky(x + sx * f - offs[k][0], y + sy * f - offs[k][1]))
    V = np.array(pts)
    inside = np.zeros((len(boxes), len(pts)), dtype=bool)
    unsure = np.zeros_like(inside)
    for k, b in enumerate(boxes):
        X, Y = ref.pixels(projs[k], V)
        X, Y = X + offs[k][0], Y + offs[k][1]
        x0, y0, x1, y1 = b.t
        with np.errstate(invalid="ignore"):
            d = np.minimum(np.minimum(X - x0 + .5, x1 + .5 - X), np.minimum(Y - y0 + .5, y1 + .5 - Y))
        inside[k] = d > 0
        unsure[k] = np.abs(d) < 1e-4
    for j, v in enumerate(pts):
        ctx.begin(spec)
        ctx.state(j)
        lon, lat = ref.lonlat(v)
        ctx.step("findAllTracts", "%.9f" % lon, "%.9f" % lat)
        got = [t.getId() for t in m.findAllTracts(maps.sp(lon, lat))]
        ctx.check(len(set(got)) == len(got), "findAllTracts(%.9f, %.9f rad) lists a tract twice: %r", lon, lat, got)
        s = set(got)
        for k in range(len(boxes)):
            if unsure[k, j]:
                s.discard(k)
        want = {int(k) for k in np.nonzero(inside[:, j] & ~unsure[:, j])[0]}
        ctx.check(s == want, "findAllTracts(%.9f, %.9f rad) is %r; the tracts that contain it are %r", lon, lat, sorted(s), sorted(want))
        ctx.end((len(want), tuple(sorted(want))[:3]))


def wide(ctx, spec, step):
    """Projections in which the corners of a tract may lie off the sky: compared with contains of every tract."""
    from .. import maps
    try:
        m = spec.make()
        tracts = list(m)
    except OverflowError:
        return
    pts = [(lon * maps.DEG, lat * maps.DEG) for lat in range(-90, 91, step) for lon in range(0, 360, step if abs(lat) < 90 else 90)]
    pts += [((lon + .37) * maps.DEG, (lat + .41) * maps.DEG) for lat in range(-85, 86, 17) for lon in range(5, 360, 23)]
    for lon, lat in pts:
        c = maps.sp(lon, lat)
        ctx.begin(spec)
        ctx.state(round(lon, 6), round(lat, 6))
        ctx.step("findAllTracts", "%.6f" % lon, "%.6f" % lat)
        got = [t.getId() for t in m.findAllTracts(c)]
        want = [t.getId() for t in tracts if t.contains(c)]
        ctx.check(sorted(got) == want, "findAllTracts(%.9f, %.9f rad) is %r; contains is true of the tracts %r", lon, lat, got, want)
        ctx.end(tuple(want))


def scenarios(tier):
    from .. import maps
    for n in (1, 2, 3, 4):
        for proj in ("TAN", "STG", "ZEA", "ARC", "CEA", "SIN", "CAR"):
            for ov in (0.0, 25.0, 60.0):
                s = maps.rings(n, 33.0, ov=ov, npix=20, proj=proj)
                yield "wide %r" % s, wide, (s, 5 if tier == "thorough" else 10)
    big = tier == "thorough"
    lst = [s for s in maps.menu(tier) if s.cls == "rings" and s.version != 0]
    for n in range(1, 15 if big else 10):
        h = 180.0 / (n + 1)
        for f in ((0, .05, .1, .5, 1, 1.7, 2.5) if big else (0, .1, .5, 1, 1.7)):
            for ra0 in ((0.0, 77.7, 359.99, 180.0) if big else (0.0, 77.7, 359.99)):
                for proj in ("TAN", "STG"):
                    R = h / 2 + f * h
                    if R > (70 if proj == "TAN" else 150):
                        continue
                    if not big and proj == "STG" and ra0 != 77.7:
                        continue
                    lst.append(maps.rings(n, ra0, ov=f * h, npix=20, proj=proj, builder=maps.LEG if n % 2 else maps.CELL0))
    # many rings
    for n, ra0, f in ((20, 33.3, .15), (31, 0.0, .05), (60, 200.0, .02)) if not big else ((17, 5.0, .6), (20, 33.3, .15), (31, 0.0, .3), (33, 90.0, 1), (60, 200.0, .1), (100, 1.0, .05), (128, 0.0, 0)):
        h = 180.0 / (n + 1)
        s = maps.rings(n, ra0, ov=f * h, npix=14, builder=maps.LEG if n % 2 else maps.CELL0)
        yield "many %r" % s, amap, (s, False)
    seen = set()
    for s in lst:
        if repr(s) not in seen:
            seen.add(repr(s))
            yield repr(s), amap, (s, big)
