"""Helpers for the demonstrations: sky maps from the code in the current directory (or SKYMAP_REPO)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import shim  # noqa: E402

skymap = shim.install(os.environ.get("SKYMAP_REPO", os.getcwd()))
import lsst.geom as geom  # noqa: E402
from lsst.skymap.discreteSkyMap import DiscreteSkyMap  # noqa: E402,F401
from lsst.skymap.dodecaSkyMap import DodecaSkyMap  # noqa: E402,F401
from lsst.skymap.equatSkyMap import EquatSkyMap  # noqa: E402,F401
from lsst.skymap.ringsSkyMap import RingsSkyMap  # noqa: E402,F401
from lsst.skymap.healpixSkyMap import HealpixSkyMap  # noqa: E402,F401


def make(cls, builder=None, version=None, **opts):
    c = cls.ConfigClass()
    if builder:
        c.tractBuilder.name = builder[0]
        for k, v in builder[1].items():
            setattr(c.tractBuilder[builder[0]], k, v)
    for k, v in opts.items():
        setattr(c, k, v)
    return cls(c) if version is None else cls(c, version=version)


def legacy(nx, ny, border):
    return ("legacy", dict(patchInnerDimensions=[nx, ny], patchBorder=border))


def cells(n, border, per, ring):
    return ("cells", dict(cellInnerDimensions=[n, n], cellBorder=border, numCellsPerPatchInner=per,
                          numCellsInPatchBorder=ring))


def sp(ra, dec):
    return geom.SpherePoint(ra, dec, geom.degrees)


def bb(b):
    return (b.getMinX(), b.getMinY(), b.getMaxX(), b.getMaxY())


def packer(**kw):
    from lsst.daf.butler import DataCoordinate, DimensionUniverse
    from lsst.skymap.packers import SkyMapDimensionPacker
    u = DimensionUniverse()
    fixed = DataCoordinate.from_full_values(u.conform(["skymap"]), values=("sm",))
    rec = kw.pop("record", None)
    if rec:
        fixed = fixed.expanded(records={"skymap": u["skymap"].RecordClass(
            name="sm", tract_max=rec[0], patch_nx_max=rec[1], patch_ny_max=rec[2])})
    p = SkyMapDimensionPacker(fixed, **kw)

    def did(tract, patch, band=None):
        d = dict(skymap="sm", tract=tract, patch=patch)
        if band:
            d["band"] = band
        return DataCoordinate.standardize(d, universe=u)
    return p, did, u, fixed


def fail(msg):
    print("FAIL:", msg)
    sys.exit(1)


def raises(exc, f, *a):
    try:
        r = f(*a)
    except exc:
        return
    except Exception as e:
        fail("%r raised %r instead of %s" % (a, e, exc))
    fail("%r returned %r instead of raising %s" % (a, r, exc))
