ID = "C05"
RULE = ("state = (tract extent, patch dimensions, patch index); transitions = patches compared with the lattice model; "
        "a trace = one tract checked pixel by pixel (small tracts) or patch by patch (map tracts)")
BOUNDS = {"quick": "small tracts: minimum box 1..14 x 1..14 at offsets (0,0),(-3,5), inner 1..5 x 1..5, legacy; cells of 1..3 x 1..4 per patch; "
                   "every tract of 27 maps of all 5 classes; 25 tracts of up to 2^30 pixels a side, patches next to every power of two; 3 tracts each of 8 default or survey maps (up to 40000 patches), 8 tracts of 1025 to 78000 pixels in 1- and 2-pixel patches",
          "thorough": "minimum box 1..24 x 1..24 at 4 offsets, inner 1..9 x 1..9; cells 1..4 x 1..6; every tract of 237 maps"}
ASSUMPTIONS = ["lsst.geom box arithmetic as in the shim (integer boxes are closed intervals)"]


def small(ctx, inner, kind, n, offs):
    from .. import small as sm
    for x0, y0 in offs:
        for w in range(1, n + 1):
            for h in range(1, n + 1):
                if kind == "legacy":
                    ix, iy = inner
                    b = sm.legacy(ix, iy, 2)
                else:
                    c, per = inner
                    ix = iy = c * per
                    b = sm.cells(c, per, 1, 1)
                ctx.begin(kind, inner, "min box", w, h, "at", x0, y0)
                ctx.state(w, h)
                t = sm.tract(b, w, h, x0, y0)
                nx, ny = sm.tiles(ctx, t, (ix, iy), (w, h))
                for i in range(nx):
                    for j in range(ny):
                        ctx.state(w, h, i, j)
                ctx.end((nx, ny, ix, iy))


def amap(ctx, spec):
    from .. import small as sm
    m = spec.make()
    for t in m:
        ctx.begin(spec, "tract", t.getId())
        ctx.state(t.getId())
        nx, ny = sm.tiles(ctx, t, spec.inner())
        for i in range(nx):
            for j in range(ny):
                ctx.state(t.getId(), i, j)
        ctx.end((nx, ny))


def large(ctx, spec, nt, limit):
    """Tracts of default and survey maps, with up to 150000 patches."""
    from .. import small as sm
    m = spec.make()
    n = len(m)
    for k in sorted({int(f * (n - 1) / nt) for f in range(nt + 1)}):
        t = m[k]
        if len(t) > limit:
            continue
        ctx.begin(spec, "tract", k)
        ctx.state(k)
        nx, ny = sm.tiles(ctx, t, spec.inner())
        ctx.end((nx, ny))


def many(ctx, kind, w, h):
    from .. import small as sm
    b, inner = (sm.legacy(2, 1, 1), (2, 1)) if kind == "legacy" else (sm.cells(1, 1, 1, 1), (1, 1))
    ctx.begin(kind, w, h)
    ctx.state(w, h)
    ctx.end(sm.tiles(ctx, sm.tract(b, w, h, -(w // 2), 3 - h // 2), inner, (w, h)))


def vast(ctx, b, w, h):
    """Tracts of millions of pixels a side."""
    from .. import maps, small as sm
    ctx.begin("vast", b, w, h)
    t, inner, border, n, pairs = sm.vast(ctx, b, w, h)
    bb = maps.box(t.getBBox())
    ctx.equal(bb, maps.ref.Box.at(0, 0, n[0] * inner[0], n[1] * inner[1]), "tract box")
    for i, j in pairs:
        ctx.step("patch", i, j)
        ctx.state(b, w, h, i, j)
        for p in (t[i, j], t[j * n[0] + i]):
            ctx.equal(tuple(int(v) for v in p.getIndex()), (i, j), "index")
            ctx.equal(maps.box(p.getInnerBBox()), maps.ref.Box.at(i * inner[0], j * inner[1], *inner), "inner box of patch (%d, %d)", i, j)
    ctx.end((b, w, h))



def scenarios(tier):
    from .. import maps
    for s in maps.real():
        yield "large %r" % s, large, (s, 2 if tier == "quick" else 8, 40000 if tier == "quick" else 200000)
    for w, h in ((601, 130), (17, 520), (256, 257), (1, 1025)):
        for kind in ("legacy", "cells"):
            yield "many %s %dx%d" % (kind, w, h), many, (kind, w, h)
    big = tier == "thorough"
    n = 24 if big else 14
    offs = [(0, 0), (-3, 5)] + ([(7, -20), (1, 1)] if big else [])
    m = 9 if big else 5
    for ix in range(1, m + 1):
        for iy in range(1, m + 1):
            yield "legacy %dx%d" % (ix, iy), small, ((ix, iy), "legacy", n, offs)
    for c in range(1, 5 if big else 4):
        for per in range(1, 7 if big else 5):
            yield "cells %d of %d" % (per, c), small, ((c, per), "cells", n, offs)
    for s in maps.menu(tier):
        yield repr(s), amap, (s,)
    from .. import small as sm
    for name, args in sm.vasts(tier):
        yield name, vast, args
