"""The alphabet of sky map configurations, and helpers to build and describe real maps."""
import itertools
import math
import warnings

import shim

skymap = shim.install()
import lsst.geom as geom                                        # noqa: E402
from lsst.afw import geom as afwgeom                            # noqa: E402
from lsst.skymap.discreteSkyMap import DiscreteSkyMap          # noqa: E402
from lsst.skymap.dodecaSkyMap import DodecaSkyMap              # noqa: E402
from lsst.skymap.equatSkyMap import EquatSkyMap                # noqa: E402
from lsst.skymap.healpixSkyMap import HealpixSkyMap            # noqa: E402
from lsst.skymap.ringsSkyMap import RingsSkyMap                # noqa: E402
from . import ref                                               # noqa: E402

warnings.filterwarnings("ignore", category=FutureWarning)

CLASSES = dict(rings=RingsSkyMap, dodeca=DodecaSkyMap, equat=EquatSkyMap,
               discrete=DiscreteSkyMap, healpix=HealpixSkyMap)
DEG = math.pi / 180


class Spec:
    """One configuration: class, class options, common options, builder options, version."""

    def __init__(self, cls, opts, common=None, builder=None, version=None):
        self.cls = cls
        self.opts = dict(opts)
        self.common = dict(common or {})
        self.builder = builder or ("legacy", dict(patchInnerDimensions=(20, 15), patchBorder=3))
        self.version = version

    def __repr__(self):
        def f(v):
            return "[%s]" % ",".join(f(x) for x in v) if isinstance(v, (list, tuple)) else \
                ("%g" % v if isinstance(v, float) else str(v))
        parts = ["%s=%s" % (k, f(v)) for k, v in sorted(self.opts.items())]
        parts += ["%s=%s" % (k, f(v)) for k, v in sorted(self.common.items())]
        parts += ["%s(%s)" % (self.builder[0], ",".join("%s=%s" % (k[:6] + k[-4:], f(v))
                                                          for k, v in sorted(self.builder[1].items())))]
        if self.version is not None:
            parts.append("v%d" % self.version)
        return "%s{%s}" % (self.cls, " ".join(parts))

    def but(self, **kw):
        s = Spec(self.cls, self.opts, self.common, self.builder, self.version)
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    def config(self):
        c = CLASSES[self.cls].ConfigClass()
        name, opts = self.builder
        c.tractBuilder.name = name
        for k, v in opts.items():
            setattr(c.tractBuilder[name], k, v)
        for k, v in itertools.chain(self.common.items(), self.opts.items()):
            setattr(c, k, v)
        return c

    def make(self):
        c = self.config()
        c.validate()
        if self.version is None:
            return CLASSES[self.cls](c)
        return CLASSES[self.cls](c, version=self.version)

    # ---- reference facts
    @property
    def scale(self):
        return self.common.get("pixelScale", {"dodeca": 0.2}.get(self.cls, 0.333)) / 3600.0 * DEG

    @property
    def rot(self):
        return self.common.get("rotation", {"healpix": 45.0}.get(self.cls, 0.0)) * DEG

    @property
    def proj(self):
        return self.common.get("projection", {"equat": "CEA"}.get(self.cls, "STG"))

    @property
    def overlap(self):
        return self.common.get("tractOverlap", {"dodeca": 3.5}.get(self.cls, 1.0)) * DEG

    def inner(self):
        b = self.builder[1]
        if self.builder[0] == "legacy":
            return tuple(b.get("patchInnerDimensions", (4000, 4000)))
        n = b.get("numCellsPerPatchInner", 20)
        return tuple(n * c for c in b.get("cellInnerDimensions", (150, 150)))

    def border(self):
        b = self.builder[1]
        if self.builder[0] == "legacy":
            return b.get("patchBorder", 250 if self.cls == "dodeca" else 100)
        return b.get("numCellsInPatchBorder", 1) * b.get("cellInnerDimensions", (150, 150))[0] \
            + b.get("cellBorder", 50)

    def layout(self):
        o = self.opts
        return ref.Rings(o["numRings"], o.get("raStart", 0.0) * DEG,
                         1 if self.version is None else self.version)


LEG = ("legacy", dict(patchInnerDimensions=(20, 15), patchBorder=3))
LEG2 = ("legacy", dict(patchInnerDimensions=(11, 31), patchBorder=14))
LEG0 = ("legacy", dict(patchInnerDimensions=(64, 64), patchBorder=0))
CELL = ("cells", dict(cellInnerDimensions=(5, 5), cellBorder=2, numCellsPerPatchInner=4, numCellsInPatchBorder=1))
CELL0 = ("cells", dict(cellInnerDimensions=(7, 7), cellBorder=0, numCellsPerPatchInner=3, numCellsInPatchBorder=0))
CELL2 = ("cells", dict(cellInnerDimensions=(4, 4), cellBorder=5, numCellsPerPatchInner=3, numCellsInPatchBorder=2))


def px(rad_size, npix):
    """pixelScale (arcsec) that makes rad_size about npix pixels."""
    return rad_size / npix / DEG * 3600.0


def rings(n, ra0=0.0, ov=None, npix=80, proj="TAN", rot=0.0, builder=LEG, version=None):
    h = math.pi / (n + 1)
    ov = 0.1 * h / DEG if ov is None else ov
    return Spec("rings", dict(numRings=n, raStart=ra0),
                dict(tractOverlap=ov, pixelScale=px(h, npix), projection=proj, rotation=rot), builder, version)


def dodeca(poles=False, ov=3.5, npix=90, proj="STG", rot=0.0, builder=LEG):
    return Spec("dodeca", dict(withTractsOnPoles=poles),
                dict(tractOverlap=ov, pixelScale=px(1.3, npix), projection=proj, rotation=rot), builder)


def equat(n=4, dec=(-1.25, 1.25), ov=1.0, npix=100, proj="CEA", rot=0.0, builder=LEG):
    return Spec("equat", dict(numTracts=n, decRange=tuple(dec)),
                dict(tractOverlap=ov, pixelScale=px(2 * math.pi / n, npix), projection=proj, rotation=rot), builder)


def discrete(ras, decs, rads, ov=0.1, scale=60.0, proj="TAN", rot=0.0, builder=LEG, version=None):
    return Spec("discrete", dict(raList=list(ras), decList=list(decs), radiusList=list(rads)),
                dict(tractOverlap=ov, pixelScale=scale, projection=proj, rotation=rot), builder, version)


def healpix(log2=1, nest=False, ov=1.0, npix=60, proj="STG", rot=45.0, builder=LEG):
    side = math.sqrt(4 * math.pi / (12 * 4 ** log2))
    return Spec("healpix", dict(log2NSide=log2, nest=nest),
                dict(tractOverlap=ov, pixelScale=px(side, npix), projection=proj, rotation=rot), builder)


DISC_A = ([10.0, 200.5, 359.95, 0.05, 45.0, 45.0], [0.0, 45.0, -5.0, -5.0, 90.0, -89.9], [0.3, 1.2, 0.5, 0.7, 0.4, 0.25])
DISC_B = ([150.123456789, 150.123456789, 150.6], [2.2345678912, 2.2345678912, 2.5], [0.2000123456, 0.9, 0.5])
DISC_1 = ([83.0], [-30.0], [0.01])


def menu(tier="quick"):
    """Small maps of all classes; the first ones are the simplest."""
    m = [
        discrete(*DISC_1, scale=20.0),
        discrete(*DISC_A),
        discrete(*DISC_B, builder=CELL, rot=30.0),
        discrete(*DISC_A, builder=CELL2, proj="STG", rot=-100.0, version=0),
        discrete(*DISC_B, builder=LEG2, ov=0.0, scale=97.0123456),
        equat(4),
        equat(3, (-10.0, 25.0), ov=0.0, rot=10.0, builder=CELL),
        equat(7, (0.0000123456, 5.0000678912), ov=3.0000456789, builder=LEG2),
        equat(5, (-40.0, 20.0), ov=2.0, proj="TAN", builder=CELL0),
        dodeca(False),
        dodeca(True, ov=10.0000123456, builder=CELL),
        dodeca(False, ov=0.0, proj="TAN", rot=45.0, builder=LEG2),
        dodeca(True, ov=3.0, proj="TAN", builder=LEG0),
        healpix(0, False),
        healpix(1, True, builder=CELL2),
        healpix(1, False, proj="TAN", rot=0.0, ov=0.0, builder=LEG2),
        healpix(2, False, ov=3.0000123456, builder=LEG0),
        rings(1, ov=20.0),
        rings(2, 30.0, builder=LEG2),
        rings(3),
        rings(3, 359.9, proj="STG", rot=30.0, builder=CELL),
        rings(3, 123.456789012, version=0, builder=LEG0),
        rings(4, 0.001, ov=0.0, rot=-45.0, builder=CELL0),
        rings(5, 200.000012345, proj="STG", version=0),
        rings(6, 0.0, ov=20.0123456789, version=1, builder=CELL2),
        rings(7, 90.0, rot=180.0, builder=LEG2),
        rings(10, 5.0, proj="STG", builder=LEG0),
    ]
    if tier == "thorough":
        for b in (LEG, LEG2, LEG0, CELL, CELL0, CELL2):
            for proj in ("TAN", "STG"):
                for rot in (0.0, 77.0, -135.0):
                    m.append(discrete(*DISC_A, builder=b, proj=proj, rot=rot, ov=0.33, scale=45.0))
                    m.append(dodeca(True, builder=b, proj=proj, rot=rot, ov=1.0, npix=60))
                    m.append(rings(5, 17.0, builder=b, proj=proj, rot=rot, ov=5.0, npix=60))
                    m.append(healpix(1, True, builder=b, proj=proj, rot=rot, ov=2.0, npix=50))
            m.append(equat(6, (-20.0, -3.0), ov=0.5, builder=b))
            m.append(equat(11, (-3.0, 33.0), ov=4.0, builder=b, npix=60))
        for n in (1, 2, 4, 6, 8, 9, 11, 12, 13):
            for ra0 in (0.0, 12.5, 359.999):
                m.append(rings(n, ra0, npix=40, ov=30.0 if n == 1 else None))
                m.append(rings(n, ra0, npix=40, ov=30.0 if n == 1 else None, version=0, proj="STG"))
    seen, out = set(), []
    for s in m:
        if repr(s) not in seen:
            seen.add(repr(s))
            out.append(s)
    return out


def uneven():
    """Maps without any tract that has both the most columns and the most rows of patches."""
    odd = ("legacy", dict(patchInnerDimensions=(7, 7), patchBorder=1))
    return [healpix(1, False, npix=12, rot=20.0, builder=odd), healpix(1, True, npix=10, rot=45.0, builder=odd)]


def real():
    """Default configurations of all classes, and full-size survey maps. Do not iterate over patches of these."""
    none = ("legacy", {})
    return [
        Spec("discrete", dict(raList=list(DISC_A[0]), decList=list(DISC_A[1]), radiusList=list(DISC_A[2])), {}, none),
        Spec("equat", {}, {}, none),
        Spec("dodeca", {}, {}, none),
        Spec("dodeca", dict(withTractsOnPoles=True), {}, ("cells", {})),
        Spec("healpix", {}, {}, none),
        Spec("rings", dict(numRings=3), {}, none),
        Spec("rings", dict(numRings=18, raStart=0.0), {}, ("cells", {})),
        Spec("rings", dict(numRings=45), dict(tractOverlap=1.0 / 60, projection="TAN", pixelScale=0.2),
             ("legacy", dict(patchInnerDimensions=(4000, 4000), patchBorder=100))),
    ]


def huge():
    """Tracts of more than 65536 pixels across. Do not iterate over patches of these."""
    return [discrete([10.0], [0.0], [8.0], scale=.2, ov=0.0, builder=("legacy", dict(patchInnerDimensions=(4000, 4000), patchBorder=100))),
            discrete([200.0, 203.0], [-70.0, 40.0], [1.9, 9.9], scale=.2, proj="STG", rot=33.0, builder=("legacy", dict(patchInnerDimensions=(4001, 3003), patchBorder=7))),
            discrete([200.0, 203.0], [-70.0, 40.0], [1.9, 4.9], scale=.2, builder=("cells", dict(cellInnerDimensions=(150, 150), cellBorder=50, numCellsPerPatchInner=20, numCellsInPatchBorder=1)))]


def many():
    """Maps of more than 256 tracts, and tracts of more than 256 patches."""
    n = 310
    return [discrete([(i * 137.508) % 360 for i in range(n)], [-85 + 170 * i / (n - 1) for i in range(n)], [.05 + .001 * (i % 70) for i in range(n)]),
            equat(257, (-2.0, 2.5), npix=20), equat(300, (10.0, 11.0), npix=20, builder=CELL0),
            rings(20, 12.0, npix=14, builder=CELL0), healpix(3, True, npix=14), healpix(3, False, npix=14, builder=CELL0),
            rings(3, 10.0, npix=160, builder=("legacy", dict(patchInnerDimensions=(9, 5), patchBorder=2)))]


# ------------------------------------------------------------------ converting
def sp(lon, lat):
    return geom.SpherePoint(lon * geom.radians, lat * geom.radians)


def spv(v):
    return sp(*ref.lonlat(v))


def tov(coord):
    """lsst SpherePoint -> unit vector."""
    return ref.vec(coord.getLongitude().asRadians(), coord.getLatitude().asRadians())


def box(b):
    return ref.Box.of(b)


def wcs_proj(spec, tract, ctr=None):
    """Reference projection for a tract, anchored by the WCS's own pixel at its reference position."""
    lon, lat = ctr if ctr is not None else (tract.getCtrCoord().getLongitude().asRadians(),
                                             tract.getCtrCoord().getLatitude().asRadians())
    return ref.Proj(spec.proj, lon, lat, spec.scale, spec.rot)


def crval(spec, tract):
    """Documented reference position of the tract's WCS."""
    c = tract.getCtrCoord()
    lon, lat = c.getLongitude().asRadians(), c.getLatitude().asRadians()
    return (lon, 0.0) if spec.cls == "equat" else (lon, lat)


def describe_tract(t, cells=False):
    """Everything observable about a tract, as plain comparable data."""
    w = t.getWcs()
    ctr = t.getCtrCoord()
    d = [("id", int(t.getId())), ("ctr", ctr.getLongitude().asRadians(), ctr.getLatitude().asRadians()),
         ("bbox",) + box(t.getBBox()).t, ("n",) + tuple(int(i) for i in t.getNumPatches()),
         ("inner",) + tuple(int(i) for i in t.getPatchInnerDimensions()), ("border", int(t.getPatchBorder())),
         ("overlap", t.getTractOverlap().asRadians()), ("len", len(t)),
         ("vert",) + tuple((c.getLongitude().asRadians(), c.getLatitude().asRadians()) for c in t.getVertexList())]
    for x, y in ((0, 0), (7.5, 3.25)):
        s = w.pixelToSky(geom.Point2D(x, y))
        d.append(("wcs", s.getLongitude().asRadians(), s.getLatitude().asRadians()))
    for p in t:
        d.append(describe_patch(p, cells))
    return tuple(d)


def describe_patch(p, cells=False):
    d = ("patch", int(p.getSequentialIndex())) + tuple(int(i) for i in p.getIndex()) \
        + box(p.getInnerBBox()).t + box(p.getOuterBBox()).t + tuple(int(i) for i in p.getNumCells()) \
        + (int(p.getCellBorder()),) + tuple(int(i) for i in p.getCellInnerDimensions())
    if cells:
        d += tuple(describe_cell(c) for c in p)
    return d


def describe_cell(c):
    return ("cell", int(c.getSequentialIndex())) + tuple(int(i) for i in c.getIndex()) \
        + box(c.getInnerBBox()).t + box(c.getOuterBBox()).t


# ------------------------------------------------------------------ positions
EPS = 2e-9      # radians either side of a boundary


def rings_positions(lay, fine=False):
    """(lon, lat, ring, t) at the center, boundaries +-EPS and corners of every inner region; poles; RA seam."""
    out = []
    for r in range(-1, lay.n + 1):
        lo = -ref.PI / 2 if r < 0 else lay.h * (r + .5) - ref.PI / 2
        hi = ref.PI / 2 if r >= lay.n else lay.h * (r + 1.5) - ref.PI / 2
        lats = [(lo + hi) / 2, lo + EPS, hi - EPS]
        if fine:
            lats += [lo + .3 * (hi - lo), lo + .85 * (hi - lo)]
        if r < 0:
            lats.append(lo)
        if r >= lay.n:
            lats.append(hi)
        k = 8 if r in (-1, lay.n) else lay.nums[r]
        w = 2 * ref.PI / k
        ra0 = 0.0 if r in (-1, lay.n) else lay.ra0
        for t in range(k):
            fr = [0.0, -.5, .5, .25] + ([-.31, .44] if fine else [])
            for f in fr:
                lon = ra0 + (t + f) * w
                if f == .5:
                    lon -= EPS * 3
                elif f == -.5:
                    lon += EPS * 3
                for lat in lats:
                    out.append((lon % (2 * ref.PI), lat, r, 0 if r in (-1, lay.n) else t))
        if 0 <= r < lay.n:
            for lon in (0.0, 1e-12, 2 * ref.PI - EPS, EPS):
                for lat in lats:
                    x = ((lon - lay.ra0) % (2 * ref.PI)) / w + .5
                    if abs(x - round(x)) * w < 1e-8:
                        continue        # on a boundary
                    out.append((lon, lat, r, int(math.floor(x)) % k))
    return out
