"""Positions and the tracts they belong to, for findTract and its relatives."""
import math

from . import maps, ref
from .maps import EPS


def adopt(spec, m):
    """The rings layout, with the implementation's choice where the documentation is ambiguous."""
    lay = spec.layout()
    if any(len(a) > 1 for a in lay.allowed):
        nums = [0] * lay.n
        for i in range(1, len(m) - 1):
            r, _ = m.getRingIndices(i)
            if not 0 <= r < lay.n:
                raise AssertionError("tract %d is in ring %r" % (i, r))
            nums[r] += 1
        if spec.version == 0:
            nums = [nums[0] - 1] + nums[1:-1] + [nums[-1] + 1] if lay.n > 1 else nums
        if not lay.ok(nums):
            raise AssertionError("rings hold %r tracts, expected %r" % (nums, lay.allowed))
        lay.adopt(nums)
    return lay


def around(lon, lat, eps=EPS):
    return [ref.move(lon, lat, k * math.pi / 4 + .05, eps) for k in range(8)]


def sky_points(spec, m, fine=False):
    """Unit vectors: centers, vertices, mid-boundaries (both sides), poles and a grid across RA=0."""
    pts = []
    ctr = []
    for t in m:
        c = t.getCtrCoord()
        lon, lat = c.getLongitude().asRadians(), c.getLatitude().asRadians()
        ctr.append(ref.vec(lon, lat))
        pts.append(ctr[-1])
        if fine:
            pts += around(lon, lat, .02)
        for v in t.getVertexList():
            lo, la = v.getLongitude().asRadians(), v.getLatitude().asRadians()
            pts += around(lo, la, 1e-5)[:: 1 if fine else 3]
    for i in range(len(ctr)):
        near = sorted(range(len(ctr)), key=lambda j: ref.sep(ctr[i], ctr[j]))[1:6]
        for j in near:
            if j > i and ref.sep(ctr[i], ctr[j]) > 1e-4:
                mid = ref.unit(tuple(a + b for a, b in zip(ctr[i], ctr[j])))
                for s in (EPS, -EPS, .01):
                    pts.append(ref.unit(tuple(mid[k] + s * (ctr[i][k] - ctr[j][k]) for k in range(3))))
    lats = [-90, -89.999999, -75.2, -41.7, -3.3, -1e-7, 0.0, 1e-7, 7.1, 33.3, 62.9, 89.9999, 90]
    lons = [0.0, 1e-9, 0.37, 44.0, 91.3, 135.0, 179.9999, 180.0, 201.7, 271.1, 315.5, 359.999999]
    if fine:
        lats += [x + 1.7 for x in range(-88, 88, 9)]
        lons += [x + .61 for x in range(0, 360, 13)]
    for la in lats:
        for lo in lons:
            pts.append(ref.vec(lo * maps.DEG, la * maps.DEG))
    return ctr, pts


def owners(spec, m, fine=False):
    """[(lon, lat, {acceptable tract ids})] for findTract."""
    if spec.cls == "rings":
        lay = adopt(spec, m)
        out = []
        for lon, lat, r, t in maps.rings_positions(lay, fine):
            out.append((lon, lat, set(lay.index_of(r, t))))
        return out
    if spec.cls == "healpix":
        import hpgeom
        nside, nest = 1 << spec.opts["log2NSide"], spec.opts["nest"]

        def pix(v):
            lo, la = ref.lonlat(v)
            return int(hpgeom.angle_to_pixel(nside, math.pi / 2 + la, lo, nest=nest, lonlat=False))
        _, pts = sky_points(spec, m, fine)
        out = []
        for v in pts:
            lo, la = ref.lonlat(v)
            out.append((lo, la, {pix(v)} | {pix(w) for w in around(lo, la, 1e-9)}))
        return out
    ctr, pts = sky_points(spec, m, fine)
    out = []
    for v in pts:
        d = [ref.sep(v, c) for c in ctr]
        lo, la = ref.lonlat(v)
        out.append((lo, la, {i for i in range(len(d)) if d[i] <= min(d) + 1e-9}))
    return out


def spec_opts(spec):
    """Fill in the class defaults of the default configurations."""
    if spec.cls == "healpix":
        spec.opts.setdefault("log2NSide", 0)
        spec.opts.setdefault("nest", False)
    return spec
