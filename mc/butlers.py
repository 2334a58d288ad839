"""Real butlers (SQLite registry, file datastore) in scratch directories, with fault points."""
import contextlib
import os
import shutil
import tempfile

from . import maps

from lsst.daf.butler import Butler                                       # noqa: E402
from lsst.daf.butler.registry import ConflictingDefinitionError          # noqa: E402,F401

_template = None
_owner = None


def template():
    global _template, _owner
    if _template is None or _owner != os.getpid():
        _template = tempfile.mkdtemp(prefix="mc-butler-template")
        _owner = os.getpid()
        Butler.makeRepo(os.path.join(_template, "r"))
    return os.path.join(_template, "r")


@contextlib.contextmanager
def repo():
    """Path of a fresh, empty repository."""
    src = template()
    d = tempfile.mkdtemp(prefix="mc-butler")
    try:
        shutil.copytree(src, os.path.join(d, "r"))
        yield os.path.join(d, "r")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def close(b):
    f = getattr(b, "close", None)
    if f:
        f()
        return
    with contextlib.suppress(Exception):
        b.registry._managers.dimensions  # noqa: B018
    with contextlib.suppress(Exception):
        b._registry._db._engine.dispose()


@contextlib.contextmanager
def opened(path, **kw):
    b = Butler.from_config(path, writeable=True, **kw)
    try:
        yield b
    finally:
        close(b)


def snapshot(b):
    """All sky map dimension records and datasets, as plain comparable data."""
    out = {}
    out["skymap"] = sorted((r.name, bytes(r.hash), int(r.tract_max), int(r.patch_nx_max), int(r.patch_ny_max))
                           for r in b.registry.queryDimensionRecords("skymap"))
    out["tract"] = sorted((r.skymap, int(r.id), r.region.encode()) for r in b.registry.queryDimensionRecords("tract"))
    out["patch"] = sorted((r.skymap, int(r.tract), int(r.id), int(r.cell_x), int(r.cell_y), r.region.encode())
                          for r in b.registry.queryDimensionRecords("patch"))
    out["datasets"] = []
    try:
        refs = list(b.registry.queryDatasets("skyMap", collections=..., findFirst=False))
    except Exception:
        refs = []          # not even the dataset type is registered
    for ref in refs:
        out["datasets"].append((ref.dataId["skymap"], ref.run, b.get(ref)))
    out["datasets"].sort(key=lambda t: t[:2])
    return out


def empty(snap):
    return not any(snap.values())


def expected(name, m):
    """The snapshot after registering map m, from the map's own public description."""
    out = dict(skymap=[], tract=[], patch=[], datasets=[(name, "skymaps", m)])
    nx = ny = 0
    n = 0
    for t in m:
        n += 1
        k = t.getNumPatches()
        nx, ny = max(nx, int(k[0])), max(ny, int(k[1]))
        out["tract"].append((name, int(t.getId()), t.getOuterSkyPolygon().encode()))
        for p in t:
            i, j = p.getIndex()
            out["patch"].append((name, int(t.getId()), int(p.getSequentialIndex()), int(i), int(j),
                                 p.getOuterSkyPolygon(t.getWcs()).encode()))
    out["skymap"].append((name, m.getSha1(), n, nx, ny))
    out["tract"].sort()
    out["patch"].sort()
    return out


def merge(*snaps):
    out = {}
    for k in ("skymap", "tract", "patch", "datasets"):
        out[k] = sorted((r for s in snaps for r in s[k]), key=lambda t: t[:5] if k != "datasets" else t[:2])
    return out


def diff(a, b):
    """First difference of two snapshots, or None."""
    for k in ("skymap", "tract", "patch", "datasets"):
        if a[k] != b[k]:
            x = [r for r in a[k] if r not in b[k]]
            y = [r for r in b[k] if r not in a[k]]
            return "%s: %d vs %d records; first only in one: %s | only in other: %s" % (k, len(a[k]), len(b[k]), str(x[:1])[:300], str(y[:1])[:300])
    return None
