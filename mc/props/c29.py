ID = "C29"
RULE = ("state = (positions of all live iterators, set of tracts visited); transitions = next(), subscript and len operations on a real map, each compared with the sequence "
        "of its tracts, every one of which was taken from a map of its own; a trace = one interleaving from a fresh map to the end of all iterators")
BOUNDS = {"quick": "7 maps of up to 3072 tracts: every tract the same in 5 passes; 27 + 8 maps: every subscript in 4 orders and past the end, as Python integers and the 8 numpy integer types, nested, interrupted, reversed and simultaneous iteration; on 5 maps of 3-6 tracts, all interleavings of two iterators (and, to 4 tracts, of a subscript at every step); all sequences of subscripts to depth 4",
          "thorough": "237 + 8 maps; all interleavings of three iterators up to 4 tracts, subscripts to depth 5"}
ASSUMPTIONS = []


def brief(t):
    from .. import maps
    c = t.getCtrCoord()
    return (int(t.getId()), c.getLongitude().asRadians(), c.getLatitude().asRadians(), maps.box(t.getBBox()).t,
            tuple(int(x) for x in t.getNumPatches()),
            tuple((v.getLongitude().asRadians(), v.getLatitude().asRadians()) for v in t.getVertexList()))


def truth(ctx, spec, every=True):
    """Briefs of the tracts, each from a fresh map."""
    n = len(spec.make())
    m = spec.make()
    out = []
    for i in range(n):
        if every and (n <= 12 or i % 17 == 0):
            m = spec.make()
        t = m[i]
        ctx.equal(int(t.getId()), i, "ID of tract %d", i)
        out.append(brief(t))
    # a whole iteration says the same
    ctx.equal([brief(t) for t in spec.make()], out, "tracts of an iteration")
    return out


def past(ctx, m, n):
    import numpy
    for i in (n, n + 1, n + 7, 2 * n + 1, 10 ** 6 + n, numpy.int64(n)):
        ctx.step("subscript", i)
        ctx.raises(IndexError, lambda: m[i], "subscript %d of %d tracts" % (i, n))


def orders(n):
    yield list(range(n))
    yield list(range(n - 1, -1, -1))
    yield [(5 * i) % n for i in range(n)] if n % 5 else [(7 * i) % n for i in range(n)]
    yield [i // 2 if i % 2 else n - 1 - i // 2 for i in range(n)]


def whole(ctx, spec):
    import numpy
    want = truth(ctx, spec)
    n = len(want)
    for k, order in enumerate(orders(n)):
        m = spec.make()
        ctx.begin(spec, "order %d" % k)
        if k % 2:
            past(ctx, m, n)
        for i in order:
            j = numpy.int64(i) if k == 2 else i
            ctx.step("subscript", i)
            t = m[j]
            ctx.equal(brief(t), want[i], "tract %d", i)
            ctx.equal(brief(m[i]), want[i], "tract %d again", i)
            ctx.check(t == m[i] and not t != m[i], "tract %d asked for twice is unequal to itself", i)
            ctx.equal(len(m), n, "len")
            ctx.state(k, i)
        past(ctx, m, n)
        ctx.equal([brief(t) for t in m], want, "tracts after subscripts")
        ctx.end(k)
    # negative subscripts count from the end or raise IndexError, whatever was generated before
    full = spec.make()
    list(full)

    def negative(m, i):
        try:
            return brief(m[i])
        except IndexError:
            return "IndexError"
    for i in sorted({-1, -2, -((n + 1) // 2), -n, -n - 1, -2 * n} | ({1 - n} if n > 1 else set())):
        ctx.begin(spec, "subscript", i)
        ctx.state("negative", i)
        for m in (spec.make(), full):
            ctx.step("subscript", i)
            got = negative(m, i)
            ctx.check(got == "IndexError" or (-n <= i and got == want[n + i]), "subscript %d of %d tracts is %s", i, n, got)
            ctx.equal(negative(spec.make(), i), got, "subscript %d of a map none of whose tracts was used, of one all of whose were", i)
        ctx.end("negative")
    # iteration in its various forms
    m = spec.make()
    ctx.begin(spec, "iterations")
    ctx.equal([brief(t) for t in reversed([t for t in m])], want[::-1], "list of tracts, reversed")
    ctx.equal([brief(t) for t in reversed(spec.make())], want[::-1], "reversed(map)")
    m = spec.make()
    for k, t in enumerate(m):
        if k == min(2, n - 1):
            break
    ctx.step("interrupted")
    ctx.equal([brief(t) for t in m], want, "iteration after an interrupted one")
    m = spec.make()
    ctx.equal([(a, brief(b), brief(c)) for a, (b, c) in enumerate(zip(m, m))], [(i, w, w) for i, w in enumerate(want)], "zip(map, map)")
    ctx.step("zip")
    if n <= 60:
        m = spec.make()
        got = [(int(a.getId()), int(b.getId())) for a in m for b in m]
        ctx.steps(n * n, "nested")
        ctx.equal(got, [(i, j) for i in range(n) for j in range(n)], "nested iteration")
    ctx.end("iterations")


def real(ctx, spec):
    m = spec.make()
    n = len(m)
    ctx.begin(spec)
    for t, i in zip(m, range(n)):
        ctx.step("next", i)
        ctx.equal(int(t.getId()), i, "ID of tract %d", i)
        if i > 400:
            break
    ids = [i for i in range(n) if i < 20 or i > n - 20 or i % 97 == 0]
    for i in ids[::-1]:
        ctx.step("subscript", i)
        t = m[i]
        ctx.equal(int(t.getId()), i, "ID of tract %d", i)
        ctx.state(i)
    past(ctx, m, n)
    if n <= 2000:
        ctx.equal(sum(1 for _ in m), n, "number of tracts visited")
    ctx.end(n)


def kept(ctx, spec):
    """Tracts of maps of many tracts stay the same ones, however many others are used."""
    m = spec.make()
    n = len(m)
    ctx.begin(spec, n)
    first = list(m)
    ctx.equal(len(first), n, "tracts of an iteration")
    for what, order in (("forwards", range(n)), ("backwards", range(n - 1, -1, -1)), ("by strides", [(i * 389 + 5) % n for i in range(n)])):
        for i in order:
            ctx.step("subscript", i)
            t = m[i]
            ctx.check(t == first[i] and int(t.getId()) == i, "tract %d is another one (%s) once %d tracts are used", i, what, n)
            ctx.state(what, i)
        ctx.end(what)
    for i, t in enumerate(m):
        ctx.check(t == first[i], "tract %d of a second iteration is another one", i)
    for i in (0, n // 2, n - 1):
        ctx.equal(brief(first[i]), brief(spec.make()[i]), "tract %d", i)
    past(ctx, m, n)
    ctx.end("iterated")


def kinds(ctx, spec):
    """A tract is the same whatever integer type first asked for it."""
    import numpy
    from .c07 import KINDS
    n = len(spec.make())
    ids = [i for i in range(n) if i < 12 or i > n - 6 or i % 23 == 0 or i in (126, 127, 128, 129, 200, 255, 256)]
    m0 = spec.make()
    want = {i: brief(m0[i]) for i in ids}
    for k in KINDS:
        ty = getattr(numpy, k)
        m = spec.make()
        ctx.begin(spec, k)
        for i in ids:
            if i > numpy.iinfo(ty).max:
                continue
            ctx.step("subscript", k, i)
            ctx.state(k, i)
            t = m[ty(i)]
            ctx.equal(brief(t), want[i], "tract %d asked for by %s", i, k)
            for tr in (t, m[i]):
                v = tr.getId()
                ctx.equal((int(v * 1000 + 7), int(v - 1000)), (i * 1000 + 7, i - 1000), "1000*ID + 7 and ID - 1000 of tract %d first asked for by %s", i, k)
        if n > numpy.iinfo(ty).max:
            ctx.end(k)
            continue
        ctx.raises(IndexError, lambda: m[ty(n)], "subscript %s(%d) of %d tracts" % (k, n, n))
        ctx.end(k)


def interleavings(ctx, spec, iters, subs, part, parts):
    """All interleavings of several iterators, optionally with a subscript before each step."""
    want = truth(ctx, spec)
    n = len(want)
    count = [0]

    def runs(rest):
        if not any(rest):
            yield ()
            return
        for k in range(iters):
            if rest[k]:
                r = list(rest)
                r[k] -= 1
                for tail in runs(r):
                    yield (k,) + tail
    for path in runs([n + 1] * iters):
        for sub in ([None] + list(range(n)) if subs else [None]):
            count[0] += 1
            if count[0] % parts != part:
                continue
            m = spec.make()
            its = [iter(m) for _ in range(iters)]
            pos = [0] * iters
            ctx.begin(spec, "with m[%s] before each step" % sub if sub is not None else "iterators only")
            for s, k in enumerate(path):
                if sub is not None:
                    ctx.equal(brief(m[sub]), want[sub], "tract %d while iterating", sub)
                ctx.step("next", k)
                t = next(its[k], None)
                if pos[k] < n:
                    ctx.check(t is not None, "iterator %d ended after %d of %d tracts", k, pos[k], n)
                    ctx.equal(brief(t), want[pos[k]], "tract %d of iterator %d", pos[k], k)
                else:
                    ctx.check(t is None, "iterator %d gave more than %d tracts", k, n)
                pos[k] += 1
                ctx.state(tuple(pos), sub)
            ctx.end((path, sub))


def subscripts(ctx, spec, depth, part, parts):
    import itertools
    want = truth(ctx, spec)
    n = len(want)
    for k, seq in enumerate(itertools.product(range(n + 1), repeat=depth)):
        if k % parts != part:
            continue
        m = spec.make()
        ctx.begin(spec)
        for q, i in enumerate(seq):
            ctx.step("subscript", i)
            if i == n:
                ctx.raises(IndexError, lambda: m[n], "subscript %d of %d tracts" % (n, n))
            else:
                ctx.equal(brief(m[i]), want[i], "tract %d", i)
            ctx.equal(len(m), n, "len")
            ctx.state(seq[:q + 1])
        ctx.end(seq)


def small():
    from .. import maps
    a = maps.discrete(*maps.DISC_B, scale=200.0)
    yield a
    yield maps.discrete(*maps.DISC_A, scale=300.0, builder=maps.CELL0, rot=20.0)
    yield maps.equat(4, npix=40)
    yield maps.rings(1, ov=20.0, npix=30)
    yield maps.discrete([10., 20., 30., 40.], [1., 2., 3., 4.], [.1, .3, .2, .4], scale=200.0)


def scenarios(tier):
    from .. import maps as mk
    ras = [(.7 * i) % 360 for i in range(700)]
    lst = [mk.rings(30, 12.5), mk.rings(25, 12.5, version=0), mk.healpix(4, True, ov=.05), mk.healpix(3, False, ov=.05), mk.equat(300, ov=.05), mk.dodeca(True),
           mk.discrete(ras, [r / 6 - 30 for r in ras], [.01] * len(ras), ov=.001)]
    if tier != "quick":
        lst += [mk.rings(60, 12.5), mk.healpix(5, False, ov=.02), mk.equat(3000, ov=.01)]
    for s in lst:
        yield "kept %s" % str(s)[:200], kept, (s,)
    from .. import maps
    big = tier == "thorough"
    for s in maps.menu(tier):
        yield "whole %s" % s, whole, (s,)
        yield "integer types %s" % s, kinds, (s,)
    for s in maps.real():
        yield "real %s" % s, real, (s,)
    for k, s in enumerate(small()):
        n = len(s.make())
        for q in range(4):
            if n <= 6:
                yield "two iterators %d part %d" % (k, q), interleavings, (s, 2, n <= 4, q, 4)
            if n <= 6:
                yield "subscripts %d part %d" % (k, q), subscripts, (s, (5 if n <= 5 else 4) if big else (4 if n <= 4 else 3), q, 4)
        if big and n <= 3:
            for q in range(16):
                yield "three iterators %d part %d" % (k, q), interleavings, (s, 3, False, q, 16)
