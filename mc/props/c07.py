ID = "C07"
RULE = ("state = (nx, ny, index form, index); transitions = lookups compared with the row-major model; a trace = one tract with every index form")
BOUNDS = {"quick": "tracts of 1..9 x 1..9 patches, both builders; every index from -nx-2 to nx+2 (pairs) and -2n..2n+2 (sequential), 7 access forms; 27 maps; 5 tracts of 45-300 patches with indices of the 8 numpy integer types; 6 tracts of 1350 to 9100 patches; 25 tracts of up to 10^16 patches, indices next to every power of two; every interleaving of two iterations over up to 4 patches, with restarts",
          "thorough": "tracts of 1..14 x 1..14 patches; same index ranges and forms; 237 maps; 8 tracts with the 8 numpy integer types; the same interleavings"}
ASSUMPTIONS = []


def forms(ctx, t, wide=True):
    import numpy as np
    from .. import maps
    from lsst.skymap import Index2D
    nx, ny = (int(v) for v in t.getNumPatches())
    ref = {(i, j): None for i in range(nx) for j in range(ny)}
    order = [(i, j) for j in range(ny) for i in range(nx)]
    ctx.equal(len(t), nx * ny, "len")
    seen = []
    for p in t:
        seen.append(tuple(int(v) for v in p.getIndex()))
        ref[seen[-1]] = maps.describe_patch(p)
    ctx.equal(seen, order, "iteration order")
    for s, ij in enumerate(order):
        ctx.state(nx, ny, s)
        ctx.step("index", s, ij)
        pair = t.getPatchIndexPair(s)
        ctx.equal((int(pair[0]), int(pair[1])), ij, "getPatchIndexPair(%d)", s)
        ctx.equal((int(pair.x), int(pair.y)), ij, "fields of getPatchIndexPair(%d)", s)
        for f in (ij, list(ij), Index2D(*ij), Index2D(x=ij[0], y=ij[1]), np.array(ij), np.array(ij, dtype=np.int16)):
            ctx.equal(int(t.getSequentialPatchIndexFromPair(f)), s, "getSequentialPatchIndexFromPair(%r)", f)
        ctx.equal(ref[ij][1], s, "sequential index of patch %r", ij)
        p0 = t[ij]
        ctx.equal(int(t.getSequentialPatchIndex(p0)), s, "getSequentialPatchIndex of patch %r", ij)
        ctx.equal((int(p0.getSequentialIndex()), int(p0.sequential_index)), (s, s), "sequential index")
        ctx.equal(tuple(p0.getIndex()), tuple(p0.index), "index property")
        for f in (ij, list(ij), Index2D(*ij), s, np.int64(s), np.int32(s), (np.int64(ij[0]), np.int64(ij[1]))):
            for how, get in (("[]", t.__getitem__), ("getPatchInfo", t.getPatchInfo)):
                ctx.step(how, f)
                ctx.equal(maps.describe_patch(get(f)), ref[ij], "patch from %s(%r)", how, f)
        ctx.check(t[ij] == t[s] and not (t[ij] != t[s]), "patches %r and %d compare unequal", ij, s)
    n = nx * ny
    gap = 2 if wide else 1
    bad = [(i, j) for i in range(-nx - gap, nx + gap + 1) for j in range(-ny - gap, ny + gap + 1)
           if not (0 <= i < nx and 0 <= j < ny)]
    seq = [s for s in range(-2 * n - gap, 2 * n + gap + 1) if not 0 <= s < n]
    seq += [nx * nx + n, 10 ** 6, -10 ** 6]
    if not wide:
        bad = [(a, b) for a, b in bad if a in (-nx, -1, nx, 0, nx - 1) and b in (-ny, -1, ny, 0, ny - 1)]
        seq = [-n, -nx, -1, n, n + 1, n + nx, n * 2, 10 ** 6]
    for ij in bad:
        ctx.state(nx, ny, "bad", ij)
        for f in (ij, Index2D(*ij)):
            ctx.step("bad", f)
            ctx.raises(IndexError, lambda: t[f], "subscript %r of %dx%d patches" % (f, nx, ny))
            ctx.raises(IndexError, lambda: t.getPatchInfo(f), "getPatchInfo(%r) of %dx%d patches" % (f, nx, ny))
    for s in seq:
        if 0 <= s < n:
            continue
        ctx.state(nx, ny, "bad", s)
        ctx.step("bad", s)
        ctx.raises(IndexError, lambda: t[s], "subscript %r of %dx%d patches" % (s, nx, ny))
        ctx.raises(IndexError, lambda: t.getPatchInfo(s), "getPatchInfo(%r) of %dx%d patches" % (s, nx, ny))


def small(ctx, kind, nx, n):
    from .. import small as sm
    for ny in range(1, n + 1):
        ctx.begin(kind, nx, ny)
        b, ix, iy = (sm.legacy(3, 2, 1), 3, 2) if kind == "legacy" else (sm.cells(2, 2, 1, 1), 4, 4)
        t = sm.tract(b, nx * ix, ny * iy)
        ctx.equal(tuple(t.getNumPatches()), (nx, ny), "number of patches")
        forms(ctx, t)
        ctx.end((nx, ny))


def interleave(ctx, t, n, describe, what):
    """Every interleaving of two iterations over the n pieces of t (up to and past their ends), one of them possibly abandoned for a third."""
    import itertools
    want = [describe(t[i]) for i in range(n)]
    for turns in itertools.combinations(range(2 * (n + 1)), n + 1):
        for restart in (None, 0, n):
            ctx.begin(what, n)
            its, pos = [iter(t), iter(t)], [0, 0]
            for k in range(2 * (n + 1)):
                w = 0 if k in turns else 1
                ctx.step("next of iteration", w)
                got = next(its[w], None)
                if pos[w] < n:
                    ctx.check(got is not None, "iteration %d of %s ended after %d of %d", w, what, pos[w], n)
                    ctx.equal(describe(got), want[pos[w]], "%d-th of iteration %d of %s", pos[w], w, what)
                else:
                    ctx.check(got is None, "iteration %d of %s goes on after %d", w, what, n)
                pos[w] += 1
                if restart is not None and k == restart:
                    its[w], pos[w] = iter(t), 0
            ctx.state(what, n, turns, restart)
            ctx.end((n, tuple(pos)))


def iterations(ctx, kind):
    from .. import maps, small as sm
    for nx, ny in ((1, 1), (2, 1), (1, 3), (2, 2)):
        b, ix, iy = (sm.legacy(3, 2, 1), 3, 2) if kind == "legacy" else (sm.cells(2, 2, 1, 1), 4, 4)
        t = sm.tract(b, nx * ix, ny * iy)
        interleave(ctx, t, nx * ny, maps.describe_patch, "the patches of a %s tract" % kind)


def large(ctx, kind, nx, ny):
    """Every patch of a tract of very many."""
    from .. import maps, small as sm
    b, d = (sm.legacy(2, 1, 1), (2, 1)) if kind == "legacy" else (sm.cells(1, 1, 1, 1), (1, 1))
    t = sm.tract(b, nx * d[0], ny * d[1], -nx, -ny)
    ctx.begin(kind, nx, ny)
    ctx.equal((tuple(t.getNumPatches()), len(t)), ((nx, ny), nx * ny), "number of patches")
    it = iter(t)
    for s in range(nx * ny):
        i, j = s % nx, s // nx
        ctx.step("patch", s)
        ctx.state(nx, ny, s)
        ctx.equal(tuple(int(v) for v in t.getPatchIndexPair(s)), (i, j), "getPatchIndexPair(%d)", s)
        ctx.equal(int(t.getSequentialPatchIndexFromPair((i, j))), s, "getSequentialPatchIndexFromPair(%r)", (i, j))
        box = (i * d[0], j * d[1], i * d[0] + d[0] - 1, j * d[1] + d[1] - 1)
        for what, p in (("iteration", next(it)), ("[%d]" % s, t[s])) + ((("pair", t[i, j]),) if s % 7 == 0 else ()):
            ctx.equal((tuple(int(v) for v in p.getIndex()), int(p.getSequentialIndex()), maps.box(p.getInnerBBox()).t), ((i, j), s, box), "patch from %s", what)
    ctx.check(next(it, None) is None, "the iteration goes on after %d patches", nx * ny)
    for bad in (nx * ny, nx * ny + 1, (nx, 0), (0, ny), (nx, ny)):
        ctx.raises(IndexError, lambda: t[bad], "subscript %r of %dx%d patches" % (bad, nx, ny))
    ctx.end((nx, ny))


KINDS = ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64")


def kinds(ctx, kind, size, nx, ny):
    """Indices of every numpy integer type that can hold them."""
    import numpy as np
    from .. import maps, small as sm
    from lsst.skymap import Index2D
    b, d = (sm.legacy(size, size, 1), size) if kind == "legacy" else (sm.cells(size, 2, 1, 1), 2 * size)
    t = sm.tract(b, nx * d, ny * d, -(nx * d) // 2, -(ny * d) // 2)
    ctx.equal(tuple(t.getNumPatches()), (nx, ny), "number of patches")
    for i in range(nx):
        for j in range(ny):
            s = j * nx + i
            want = maps.describe_patch(t[i, j])
            for k in KINDS:
                ty = getattr(np, k)
                top = np.iinfo(ty).max
                ctx.state(nx, ny, i, j, k)
                for pair in ((ty(i), ty(j)), [ty(i), j], (i, ty(j)), Index2D(ty(i), ty(j))) if max(i, j) <= np.iinfo(ty).max else ():
                    ctx.step(k, i, j)
                    ctx.equal(maps.describe_patch(t.getPatchInfo(pair)), want, "patch from the %s pair %r", k, (i, j))
                    ctx.equal(int(t.getSequentialPatchIndexFromPair(pair)), s, "getSequentialPatchIndexFromPair of the %s pair %r", k, (i, j))
                if s <= top:
                    ctx.step(k, s)
                    ctx.equal(maps.describe_patch(t[ty(s)]), want, "patch from the %s %d", k, s)
                    ctx.equal(tuple(int(v) for v in t.getPatchIndexPair(ty(s))), (i, j), "getPatchIndexPair of the %s %d", k, s)
        ctx.begin(kind, size, nx, ny, "column", i)
        ctx.end((nx, ny, i))


def amap(ctx, spec):
    m = spec.make()
    done = set()
    for t in m:
        ctx.begin(spec, "tract", t.getId())
        key = tuple(t.getNumPatches())
        if key in done and t.getId() % 7:
            continue        # same lattice as a tract already enumerated
        done.add(key)
        forms(ctx, t, wide=False)
        ctx.end(key)


def vast(ctx, b, w, h):
    """Sequential indices beyond any power of two."""
    from .. import small as sm
    ctx.begin("vast", b, w, h)
    t, inner, border, n, pairs = sm.vast(ctx, b, w, h)
    total = n[0] * n[1]
    if total < 2 ** 63:
        ctx.equal(len(t), total, "len")
    for i, j in pairs:
        s = j * n[0] + i
        ctx.step("patch", i, j)
        ctx.state(b, w, h, i, j)
        ctx.equal(int(t.getSequentialPatchIndexFromPair((i, j))), s, "getSequentialPatchIndexFromPair(%r)", (i, j))
        ctx.equal(tuple(int(v) for v in t.getPatchIndexPair(s)), (i, j), "getPatchIndexPair(%d)", s)
        for p in (t[i, j], t[s], t.getPatchInfo((i, j)), t.getPatchInfo(s)):
            ctx.equal((tuple(int(v) for v in p.getIndex()), int(p.getSequentialIndex()), int(t.getSequentialPatchIndex(p))), ((i, j), s, s), "patch")
    for bad in (total, total + 1, total + 2 ** 32, 2 * total, (n[0], 0), (0, n[1]), (n[0] + 2 ** 32, 0), (2 ** 32, 0) if n[0] <= 2 ** 32 else (-1, 0), (0, 2 ** 32), -1, (-1, 0), (0, -1)):
        ctx.step("bad", bad)
        ctx.raises(IndexError, lambda: t[bad], "subscript %r of %dx%d patches" % (bad, *n))
        ctx.raises(IndexError, lambda: t.getPatchInfo(bad), "getPatchInfo(%r) of %dx%d patches" % (bad, *n))
    ctx.end((b, w, h))



def scenarios(tier):
    for nx, ny in ((300, 7), (5, 270), (130, 70)) + (((1, 70000), (66000, 1), (400, 500)) if tier != "quick" else ()):
        for kind in ("legacy", "cells"):
            yield "large %s %dx%d" % (kind, nx, ny), large, (kind, nx, ny)
    from .. import maps
    n = 14 if tier == "thorough" else 9
    for kind in ("legacy", "cells"):
        for nx in range(1, n + 1):
            yield "%s %dxN" % (kind, nx), small, (kind, nx, n)
    for kind, size, nx, ny in [("legacy", 40, 20, 15), ("legacy", 1100, 30, 3), ("legacy", 1100, 3, 15), ("cells", 20, 20, 15), ("legacy", 1, 130, 2)] \
            + [("cells", 500, 33, 2), ("legacy", 3, 2, 130), ("legacy", 5000, 7, 3)] * (n > 9):
        yield "integer types, %s %d px, %dx%d" % (kind, size, nx, ny), kinds, (kind, size, nx, ny)
    for kind in ("legacy", "cells"):
        yield "interleaved iterations, %s" % kind, iterations, (kind,)
    for s in maps.menu(tier):
        yield repr(s), amap, (s,)
    from .. import small as sm
    for name, args in sm.vasts(tier):
        yield name, vast, args
