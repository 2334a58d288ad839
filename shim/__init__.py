"""Close the system: make `import lsst.skymap` work from /repo/python.

``install()`` registers stand-ins for lsst.geom, lsst.afw.geom,
lsst.pex.exceptions and the generated lsst.skymap.version, and puts
/repo/python first on sys.path.  Nothing under /repo is written.
"""
import os
import sys
import types
import warnings

REPO = os.environ.get("SKYMAP_REPO", "/repo")


def install(repo=None):
    repo = repo or REPO
    sys.dont_write_bytecode = True
    warnings.filterwarnings("ignore", category=FutureWarning)
    python = os.path.join(repo, "python")
    if python not in sys.path:
        sys.path.insert(0, python)
    import lsst
    import lsst.pex
    from . import geomshim, pexexcshim, afwgeomshim
    sys.modules["lsst.geom"] = lsst.geom = geomshim
    sys.modules["lsst.pex.exceptions"] = lsst.pex.exceptions = pexexcshim
    pexexcshim.wrappers = pexexcshim
    afw = types.ModuleType("lsst.afw")
    afw.__path__ = []
    afw.geom = afwgeomshim
    sys.modules["lsst.afw"] = lsst.afw = afw
    sys.modules["lsst.afw.geom"] = afwgeomshim
    version = types.ModuleType("lsst.skymap.version")
    version.__version__ = "0"
    version.__all__ = ["__version__"]
    sys.modules["lsst.skymap.version"] = version
    import lsst.skymap
    return lsst.skymap
