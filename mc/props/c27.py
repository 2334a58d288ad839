import math

ID = "C27"
RULE = ("state = (orientation, face or vertex or vector); transitions = queries compared with a regular dodecahedron constructed independently; "
        "a trace = one face with its vertices, or one vector of the lattice at one scale located and compared with all faces")
BOUNDS = {"quick": "both orientations, queried in 4 orders and after modifying what was returned; all 9^3-1 integer lattice vectors at 13 scales from 1e-150 to 1e150, all face centers, vertices, edge midpoints and displacements around them",
          "thorough": "all 81^3-1 lattice vectors at 3 scales and 21^3-1 at 13 scales; 64 displacements"}
ASSUMPTIONS = ["vectors nearer than 1e-9 rad to the border of two faces may belong to either"]


def reference(poles):
    """Face centers in documented order, from the two latitudes of a regular dodecahedron."""
    out = []
    if poles:
        lat = math.atan(0.5)
        out = [(math.pi / 2, 0.0)] + [(lat, 2 * math.pi * k / 5) for k in range(5)] \
            + [(-lat, 2 * math.pi * (k + .5) / 5) for k in range(5)] + [(-math.pi / 2, 0.0)]
    else:
        # angle between a vertex and the faces meeting there, and the next faces
        a = math.acos(math.sqrt((5 + 2 * math.sqrt(5)) / 15))
        b = math.acos(math.sqrt((5 - 2 * math.sqrt(5)) / 15))
        up = math.pi / 2 - a
        mid = math.pi / 2 - b
        out = [(up, 2 * math.pi * k / 3) for k in range(3)] + [(mid, 2 * math.pi * (k + .5) / 3) for k in range(3)] \
            + [(-mid, 2 * math.pi * k / 3) for k in range(3)] + [(-up, 2 * math.pi * (k + .5) / 3) for k in range(3)]
    return out


def get():
    import shim
    shim.install()
    from lsst.skymap.detail import Dodecahedron
    return Dodecahedron


def dot(a, b):
    return sum(float(x) * float(y) for x, y in zip(a, b))


def sep(a, b):
    from .. import ref
    return ref.sep(tuple(map(float, a)), tuple(map(float, b)))


def vecs(poles):
    from .. import ref
    faces = [ref.vec(lon, lat) for lat, lon in reference(poles)]
    cosf = math.sqrt(5) / 5
    near = [[j for j in range(12) if j != i and abs(dot(faces[i], faces[j]) - cosf) < 1e-6] for i in range(12)]
    assert all(len(n) == 5 for n in near)
    trip = [(i, j, k) for i in range(12) for j in near[i] if j > i for k in near[j] if k > j and k in near[i]]
    assert len(trip) == 20
    vert = [ref.unit(tuple(faces[i][q] + faces[j][q] + faces[k][q] for q in range(3))) for i, j, k in trip]
    return faces, near, trip, vert


def check_face(ctx, d, i, faces, trip, vert, poles):
    c = d.getFaceCtr(i)
    ctx.begin("poles" if poles else "vertices on poles")
    ctx.step("getFaceCtr", i)
    ctx.check(len(c) == 3 and abs(math.sqrt(dot(c, c)) - 1) < 1e-12, "face %d is not a unit vector: %r", i, c)
    ctx.check(sep(c, faces[i]) < 1e-9, "face %d is at %r, expected %r", i, c, faces[i])
    v = d.getVertices(i)
    ctx.step("getVertices", i)
    ctx.equal(len(v), 5, "number of vertices of face %d", i)
    ids = []
    for q in v:
        ctx.check(abs(math.sqrt(dot(q, q)) - 1) < 1e-12, "vertex %r of face %d is not a unit vector", q, i)
        m = [k for k in range(20) if sep(q, vert[k]) < 1e-9]
        ctx.check(len(m) == 1 and i in trip[m[0]], "%r of face %d is not one of its vertices", q, i)
        ids.append(m[0])
    ctx.equal(len(set(ids)), 5, "different vertices of face %d", i)
    for a, b in zip(ids, ids[1:] + ids[:1]):
        ctx.check(len(set(trip[a]) & set(trip[b])) == 2, "vertices of face %d are not listed around it", i)
    ctx.state(poles, i, tuple(ids))
    ctx.end((poles, i))


def geometry(ctx, poles, order):
    D = get()
    faces, near, trip, vert = vecs(poles)
    d = D(poles) if order % 2 else D(withFacesOnPoles=poles)
    ctx.equal(d.getWithFacesOnPoles(), poles, "getWithFacesOnPoles")
    if not poles and order == 0:
        ctx.step("default orientation")
        ctx.equal(D().getWithFacesOnPoles(), False, "getWithFacesOnPoles by default")
        ctx.equal([tuple(map(float, v)) for v in D().getFaceCtrList()], [tuple(map(float, v)) for v in d.getFaceCtrList()],
                  "face centres of the default orientation")
    idx = [list(range(12)), list(range(11, -1, -1)), [(5 * k) % 12 for k in range(12)], [k // 2 + 6 * (k % 2) for k in range(12)]][order]
    for spoil in (False, True):
        for i in idx:
            check_face(ctx, d, i, faces, trip, vert, poles)
            if spoil:
                for q in d.getVertices(i) + [d.getFaceCtr(i)] + d.getFaceCtrList():
                    try:
                        q *= -3.0
                    except ValueError:
                        pass        # read-only is as good
        lst = d.getFaceCtrList()
        ctx.step("getFaceCtrList")
        ctx.equal(len(lst), 12, "number of faces")
        for i in range(12):
            ctx.check(sep(lst[i], faces[i]) < 1e-9, "getFaceCtrList()[%d] is %r, expected %r", i, lst[i], faces[i])
    for i in idx:
        check_face(ctx, d, i, faces, trip, vert, poles)
    if poles:
        ctx.check(sep(d.getFaceCtr(0), (0, 0, 1)) < 1e-9 and sep(d.getFaceCtr(11), (0, 0, -1)) < 1e-9, "no faces on the poles")
    else:
        allv = [v for i in range(12) for v in d.getVertices(i)]
        ctx.check(any(sep(v, (0, 0, 1)) < 1e-9 for v in allv) and any(sep(v, (0, 0, -1)) < 1e-9 for v in allv), "no vertices on the poles")


def nearest(ctx, d, faces, v, label):
    import numpy
    i = d.getFaceInd(numpy.array(v) if not isinstance(v, numpy.ndarray) else v)
    ctx.step("getFaceInd", label)
    n = math.sqrt(sum((float(x) / max(abs(float(q)) for q in v)) ** 2 for x in v)) * max(abs(float(q)) for q in v)
    w = [float(x) / n for x in v]
    dots = [dot(w, f) for f in faces]
    ctx.check(0 <= int(i) < 12 and dots[int(i)] > max(dots) - 1e-9, "getFaceInd(%r) is %r, but the nearest face is %d", v, i, dots.index(max(dots)))
    ctx.state(label, tuple(map(float, v)))
    ctx.end(int(i))


def lattice(ctx, poles, n, scales, part, parts):
    import itertools
    faces = vecs(poles)[0]
    d = get()(poles)
    for k, v in enumerate(itertools.product(range(-n, n + 1), repeat=3)):
        if k % parts != part or not any(v):
            continue
        for s in scales:
            ctx.begin("poles" if poles else "vertices on poles")
            if s == 0:
                nearest(ctx, d, faces, v, "integers")
            else:
                nearest(ctx, d, faces, [x * s for x in v], "x%g" % s)


def special(ctx, poles, many):
    from .. import ref
    faces, near, trip, vert = vecs(poles)
    d = get()(poles)
    pts = list(faces) + list(vert) + [ref.unit(tuple(faces[i][q] + faces[j][q] for q in range(3))) for i in range(12) for j in near[i] if j > i]
    for p in pts:
        lon, lat = ref.lonlat(p)
        for dist in (0.0, 1e-7, 1e-3, .1, .3):
            for k in range((64 if many else 16) if dist else 1):
                v = ref.move(lon, lat, k * 2 * math.pi / (64 if many else 16) + .01, dist)
                ctx.begin("poles" if poles else "vertices on poles")
                nearest(ctx, d, faces, v, "near %.3f %.3f" % (lon, lat))


def scenarios(tier):
    big = tier == "thorough"
    sc = [0, 1.0, 1e-150, 1e-40, 1e-5, .3, 7.0, 1e40, 1e150]
    for poles in (False, True):
        for o in range(4):
            yield "geometry %d %d" % (poles, o), geometry, (poles, o)
        yield "special %d" % poles, special, (poles, big)
        for q in range(4):
            yield "lattice %d part %d" % (poles, q), lattice, (poles, 10 if big else 4, sc + [1e-100, 1e-20, 1e20, 1e100], q, 4)
        if big:
            for q in range(16):
                yield "fine lattice %d part %d" % (poles, q), lattice, (poles, 40, [0, 1e-9, 1e9], q, 16)
