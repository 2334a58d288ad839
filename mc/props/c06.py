ID = "C06"
RULE = ("state = (tract extent in patches, patch dimensions, border, patch index); transitions = outer boxes compared with the lattice model; "
        "a trace = one tract")
BOUNDS = {"quick": "small tracts: 1..5 x 1..4 patches of 1..4 x 1..4 pixels, every border 0..(whole tract + 2), both builders; tracts of up to 301 x 20 and 9 x 270 patches with borders to 1000; 25 tracts of up to 2^30 pixels a side, patches next to every power of two; every tract of 27 maps and first, middle and last tracts of the default maps",
          "thorough": "1..7 x 1..6 patches of 1..6 x 1..6 pixels, every border; every tract of 237 maps"}
ASSUMPTIONS = ["lsst.geom box arithmetic as in the shim (integer boxes are closed intervals)"]


def outer(ctx, t, clipped, border):
    from .. import maps
    bb = maps.box(t.getBBox())
    ctx.equal(int(t.getPatchBorder()), border, "patch border of the tract")
    ctx.equal(int(t.patch_border), border, "patch_border property")
    for p in t:
        ij = tuple(int(v) for v in p.getIndex())
        ctx.state(bb.t, border, ij)
        ctx.step("patch", ij)
        want = maps.box(p.getInnerBBox()).grown(border)
        if clipped:
            want = want.clipped(bb)
        ctx.equal(maps.box(p.getOuterBBox()), want, "outer box of patch %r (inner %r, border %d, tract %r)",
                  ij, maps.box(p.getInnerBBox()), border, bb)
        ctx.equal(maps.box(p.outer_bbox), want, "outer_bbox property of patch %r", ij)


def small_legacy(ctx, ix, iy, nx, ny):
    from .. import small as sm
    for px in range(1, nx + 1):
        for py in range(1, ny + 1):
            top = max(px * ix, py * iy) + 2
            for border in range(top + 1):
                ctx.begin("legacy", (ix, iy), "patches", (px, py), "border", border)
                outer(ctx, sm.tract(sm.legacy(ix, iy, border), px * ix, py * iy), True, border)
                ctx.end((px, py, ix, iy, border))


def small_cells(ctx, c, per, nx, ny):
    from .. import small as sm
    for px in range(1, nx + 1):
        for py in range(1, ny + 1):
            for nb in range(0, 4):
                for cb in range(0, 2 * c + 2):
                    ctx.begin("cells", c, per, "patches", (px, py), "border", nb, cb)
                    outer(ctx, sm.tract(sm.cells(c, per, nb, cb), px * c * per, py * c * per), False, nb * c + cb)
                    ctx.end((px, py, c, per, nb, cb))


def amap(ctx, spec):
    for t in spec.make():
        ctx.begin(spec, "tract", t.getId())
        outer(ctx, t, spec.builder[0] == "legacy", spec.border())
        ctx.end()


def large(ctx, spec, nt, limit):
    m = spec.make()
    n = len(m)
    for k in sorted({int(f * (n - 1) / nt) for f in range(nt + 1)}):
        t = m[k]
        if len(t) > limit:
            continue
        ctx.begin(spec, "tract", k)
        outer(ctx, t, spec.builder[0] == "legacy", spec.border())
        ctx.end(k)


def many(ctx, px, py, border):
    from .. import small as sm
    ctx.begin("legacy", (2, 1), "patches", (px, py), "border", border)
    outer(ctx, sm.tract(sm.legacy(2, 1, border), px * 2, py), True, border)
    ctx.end((px, py, border))
    ctx.begin("cells", "patches", (px, py), "border", border)
    outer(ctx, sm.tract(sm.cells(1, 2, border, 1), px * 2, py * 2), False, border + 1)
    ctx.end((px, py, border, "cells"))


def vast(ctx, b, w, h):
    from .. import maps, small as sm
    ctx.begin("vast", b, w, h)
    t, inner, border, n, pairs = sm.vast(ctx, b, w, h)
    bb = maps.box(t.getBBox())
    ctx.equal((int(t.getPatchBorder()), int(t.patch_border)), (border, border), "patch border")
    for i, j in pairs:
        ctx.step("patch", i, j)
        ctx.state(b, w, h, i, j)
        want = maps.ref.Box.at(i * inner[0], j * inner[1], *inner).grown(border)
        if b[0] == "legacy":
            want = want.clipped(bb)
        ctx.equal(maps.box(t[i, j].getOuterBBox()), want, "outer box of patch (%d, %d)", i, j)
    ctx.end((b, w, h))



def scenarios(tier):
    from .. import maps
    for s in maps.real():
        yield "large %r" % s, large, (s, 2 if tier == "quick" else 8, 40000 if tier == "quick" else 200000)
    for px, py in ((301, 20), (9, 270), (128, 60)):
        for border in (0, 1, 130, 255, 256, 300, 1000):
            yield "many %dx%d border %d" % (px, py, border), many, (px, py, border)
    big = tier == "thorough"
    m, nx, ny = (6, 7, 6) if big else (4, 5, 4)
    for ix in range(1, m + 1):
        for iy in range(1, m + 1):
            yield "legacy %dx%d" % (ix, iy), small_legacy, (ix, iy, nx, ny)
    for c in range(1, 4 if big else 3):
        for per in range(1, 5 if big else 4):
            yield "cells %d of %d" % (per, c), small_cells, (c, per, nx, ny)
    for s in maps.menu(tier):
        yield repr(s), amap, (s,)
    from .. import small as sm
    for name, args in sm.vasts(tier):
        yield name, vast, args
