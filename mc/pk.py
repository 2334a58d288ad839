"""Packer alphabet and reference model (mixed-radix arithmetic on explicit tables)."""
import itertools

import shim

shim.install()
from lsst.daf.butler import DataCoordinate, DimensionUniverse     # noqa: E402
from lsst.skymap.packers import SkyMapDimensionPacker as Packer   # noqa: E402

U = DimensionUniverse()
SUPPORTED = [None] + list("ugrizyUBGVRIZYJHK") + ["N%d" % d for d in (387, 515, 656, 816, 921, 1010)] \
    + ["N%d" % d for d in (419, 540, 708, 964)]
DEFAULT_BANDS = {b: i for i, b in enumerate(SUPPORTED)}

BANDS = [
    {"r": 0},
    {"r": 0, "i": 1},
    {"i": 1, "r": 0},
    {"g": 0, "r": 1, "i": 2},
    {"g": 2, "r": 0, "i": 1},
    {"z": 2, "y": 1, "u": 0},
    {"r": 0, "y": 3},
    {"z": 5, "g": 1},
    {"g": 4, "r": 2, "i": 0, "z": 1},
    {"N921": 1, "HSC-R": 0, "odd name": 2},
    {},
    None,
]
NBANDS = [None, 0, 1, 2, 3, 4, 6]


def fixed(nx=None, ny=None, tract_max=None, name="sm"):
    c = DataCoordinate.from_full_values(U.conform(["skymap"]), values=(name,))
    if nx is not None:
        c = c.expanded(records={"skymap": U["skymap"].RecordClass(
            name=name, tract_max=tract_max, patch_nx_max=nx, patch_ny_max=ny)})
    return c


class Model:
    """What a packer of this configuration must do."""

    def __init__(self, bands, n_bands, T, P):
        self.bands = dict(DEFAULT_BANDS if bands is None else bands)
        self.B = len(self.bands) if n_bands is None else n_bands
        self.T, self.P = T, P
        self.by_index = {i: b for b, i in self.bands.items() if b is not None}

    def has_band(self):
        return self.B != 0

    def size(self):
        return self.T * self.P * (self.B or 1)

    def accepts(self, tract, patch, band):
        if not (0 <= tract < self.T and 0 <= patch < self.P):
            return False
        return not self.B or (band in self.bands and 0 <= self.bands[band] < self.B)

    def pack(self, tract, patch, band):
        k = tract * self.P + patch
        if self.B:
            k += self.bands[band] * self.T * self.P
        return k

    def bits(self):
        n, m = 0, self.size() - 1
        while m > 0:
            n, m = n + 1, m // 2
        return n

    def bandlist(self):
        return [b for b in self.bands if b is not None and 0 <= self.bands[b] < self.B] if self.B else [None]

    def ids(self, tracts=None, patches=None):
        return itertools.product(tracts or range(self.T), patches or range(self.P), self.bandlist())


def data_id(tract, patch, band, name="sm"):
    d = dict(skymap=name, tract=tract, patch=patch)
    if band is not None:
        d["band"] = band
    return DataCoordinate.standardize(d, universe=U)


def key(d):
    """Comparable form of a data ID."""
    m = d.required if hasattr(d, "required") else d
    return tuple(sorted((str(k), v) for k, v in dict(m).items()))


def make(bands, n_bands, T, P, fx=None):
    return Packer(fx or fixed(), bands=bands, n_bands=n_bands, n_tracts=T, n_patches=P)
