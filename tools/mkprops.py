#!/usr/bin/env python3
"""Write properties.jsonl (one place to edit the statements)."""
import json, os
P = "python/lsst/skymap/"
S = {k: P + v for k, v in dict(
    base="baseSkyMap.py", cach="cachingSkyMap.py", disc="discreteSkyMap.py", dod="dodecaSkyMap.py",
    eq="equatSkyMap.py", hp="healpixSkyMap.py", rings="ringsSkyMap.py", tb="tractBuilder.py",
    tract="tractInfo.py", patch="patchInfo.py", cell="cellInfo.py", pack="packers.py",
    reg="skyMapRegistry.py", utils="detail/utils.py", wcs="detail/wcsFactory.py",
    dode="detail/dodecahedron.py").items()}
rows = []


def add(id, title, statement, over, text, why, files, mech, observe, state=()):
    rows.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=[S[f] for f in files],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=S[b.split(":")[0]] + (":" + b.split(":")[1] if ":" in b else ""))
                                for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))


NOTEST = ("None of the tests that run here imports this module; the upstream tests that do look at a "
          "handful of positions of one default configuration per map class. ")

# ------------------------------------------------------------------ packers
add("C01", "Packed skymap data IDs unpack to the data ID that was packed",
    """For every packer configuration (any band mapping with distinct integers, in any order, dense or sparse,
    possibly covering more bands than are reserved; any n_bands including None, 0 and 1; any numbers of tracts
    and patches) and every data ID the packer accepts, unpacking the packed integer gives back exactly that
    data ID: the same skymap, tract, patch and, if packed, band (tracts and patches of
    built-in or numpy integer types, packed integers of built-in or 64-bit type), also after the mapping or
    configuration the packer was made from has been changed.""",
    ["inputs", "configurations", "histories"],
    """all packer configurations over a small alphabet of band mappings, n_bands, n_tracts and n_patches; all
    data IDs of each; any order of pack and unpack calls on one packer""",
    """The tests pack one or two data IDs with 5 tracts, 9 patches and band mappings whose integers equal their
    positions; a wrong stride or a lookup by position is invisible there.""",
    ["pack"], [("mixed-radix packing and its inverse", "pack:SkyMapDimensionPacker._pack/unpack")],
    ["SkyMapDimensionPacker.pack", "SkyMapDimensionPacker.unpack"],
    [("bands", "band name to integer", "SkyMapDimensionPacker")])
add("C02", "Packed IDs are distinct, gap-free and fit in the advertised number of bits",
    """Over all data IDs a packer accepts the packed integers are pairwise distinct and lie in
    [0, T*P*B), with T tracts, P patches and B bands reserved (B=1 if bands are not packed), and with B bands
    mapped to 0..B-1 they fill that range completely. The advertised maxBits is the smallest number of bits
    that holds T*P*B-1. pack(..., returnMaxBits=True) reports the same number.""",
    ["inputs", "configurations"],
    "all configurations of the alphabet and all data IDs of each; counts up to several million tracts for maxBits",
    "The tests check no collision and no maxBits of a packer that is not the default one.",
    ["pack"], [("maxBits", "pack:SkyMapDimensionPacker.maxBits"), ("packing", "pack:SkyMapDimensionPacker._pack")],
    ["pack", "maxBits"])
add("C03", "Data IDs and dimensions a packer cannot represent are rejected",
    """Packing a data ID whose tract or patch is negative or not below the configured number, whose band has no
    configured integer, or whose band's integer is not in [0, n_bands), raises ValueError and never returns an
    integer. Constructing a packer for dimensions other than skymap+tract+patch, with or without band, or for dimensions
    with band but n_bands 0, raises ValueError.""",
    ["inputs", "configurations"],
    "all configurations of the alphabet and every out-of-range value adjacent to a bound, one field at a time and combined",
    "The tests try one unsupported band.",
    ["pack"], [("range checks", "pack:SkyMapDimensionPacker._pack"), ("dimension checks", "pack:SkyMapDimensionPacker.__init__")],
    ["pack raising ValueError", "constructor raising ValueError"])
add("C04", "All ways to build a packer agree, and defaults come from the skymap record",
    """A packer built by the constructor (with dimensions given or implied), by from_config, and by applying a
    config field from make_config_field, from the same settings, have the same dimensions and maxBits and pack
    every data ID to the same integer. Settings left at None come from the skymap dimension record
    (tract_max; patch_nx_max*patch_ny_max), the fixed list of supported bands, and the size of the band
    mapping; explicit settings always take precedence over them. The default configuration packs tract and
    patch only.""",
    ["configurations", "inputs"],
    "all combinations of explicit/None for the four settings, with and without explicit dimensions, for several skymap records",
    "The tests build the packer in three fixed ways and compare each to a hard-coded number.",
    ["pack"], [("defaults", "pack:SkyMapDimensionPacker.__init__"), ("from_config", "pack:SkyMapDimensionPacker.from_config")],
    ["dimensions", "maxBits", "pack"])

# ------------------------------------------------------------------ patches & cells
add("C05", "Patch inner regions tile the tract exactly",
    """The bounding box of every tract has its minimum at pixel (0,0) and every pixel of it belongs to the inner
    region of exactly one patch; all patch inner regions have the configured inner dimensions (for cell-based
    tracts, cells per patch times the cell inner dimensions), and the tract has exactly num_patches of them in x and y.
    Patch (i,j) is the one i-th in x and j-th in y counted from pixel (0,0).""",
    ["configurations", "inputs"],
    """every minimum bounding box up to 14x14 pixels at several offsets, every inner dimension up to 5x5
    (non-square too), both builders; and every tract of a menu of sky maps of all classes""",
    NOTEST + "Gaps of a pixel at the far edge or exchanged x and y need sizes the tests do not use.",
    ["tb", "tract", "patch"], [("setupPatches rounds up to a multiple", "tb:BaseTractBuilder.setupPatches"),
                               ("inner box from index", "tb:LegacyTractBuilder.getPatchInfo")],
    ["TractInfo.getBBox", "PatchInfo.getInnerBBox", "TractInfo.getNumPatches"])
add("C06", "Patch outer regions extend by exactly the configured border",
    """With the legacy builder the outer region of a patch is its inner region grown by patchBorder on every side
    and clipped to the tract, so it never leaves the tract. With the cell builder it is the inner region grown on
    every side by numCellsInPatchBorder cells plus cellBorder, and is not clipped. get_patch_border of the tract
    reports that border.""",
    ["configurations", "inputs"],
    "as C05, with every border from 0 to more than a whole tract",
    NOTEST + "Borders larger than a patch and patches on two tract edges at once are not covered.",
    ["tb", "patch"], [("grow and clip", "tb:LegacyTractBuilder.getPatchInfo"), ("grow only", "tb:CellTractBuilder.getPatchInfo")],
    ["PatchInfo.getOuterBBox", "TractInfo.getPatchBorder"])
add("C07", "Patch indices are a bijection and every access form finds the same patch",
    """In every tract the sequential indices are 0..nx*ny-1, row by row from patch (0,0), and conversion between
    sequential index and (x,y) pair is its own inverse. Subscript and getPatchInfo return the same patch for the
    sequential index, the pair as tuple, list or Index2D, of built-in or numpy integers, and iteration visits the patches in sequential order,
    also when several iterations are under way; len is their number. Any index outside the range, negative or too large, in either form, raises
    IndexError from subscript and getPatchInfo.""",
    ["configurations", "inputs", "histories"],
    "all tracts of up to 9x9 patches (including 1xN and Nx1), both builders, every index from below 0 to past the end, every access form",
    NOTEST + "Square tracts hide exchanged dimensions.",
    ["tb", "tract"], [("index arithmetic", "tb:BaseTractBuilder.getSequentialPatchIndexFromPair/getPatchIndexPair"),
                      ("range check", "tb:LegacyTractBuilder.getPatchInfo")],
    ["TractInfo.__getitem__", "getPatchInfo", "getSequentialPatchIndex", "__iter__", "__len__"])
add("C08", "Cells tile each patch with its border ring and line up between patches",
    """In a cell-based tract every patch has (numCellsPerPatchInner + 2*numCellsInPatchBorder) squared cells, whose
    inner regions are equal boxes that exactly tile the patch inner region grown by numCellsInPatchBorder cells;
    each cell's outer region is its inner region grown by cellBorder and lies in the patch outer region. Cells of
    neighbouring patches that cover the same area are the same boxes.""",
    ["configurations", "inputs"],
    "every small combination of cell size, cell border, cells per patch and border cells; every patch and cell of each; every pair of adjacent patches",
    NOTEST + "The cell tests use one configuration with one border cell.",
    ["patch", "cell", "tb"], [("cell origin from patch inner box", "patch:PatchInfo.getCellInfo"),
                              ("builder passes the cell parameters", "tb:CellTractBuilder.getPatchInfo")],
    ["PatchInfo.getCellInfo", "CellInfo.getInnerBBox", "CellInfo.getOuterBBox", "PatchInfo.getNumCells"])
add("C09", "Cell indices are a bijection, and bad cell indices raise IndexError",
    """In every patch with n x n cells the sequential cell indices are 0..n*n-1, row by row, and conversion to and from
    the (x,y) pair is its own inverse. All access forms (sequential, tuple, list, Index2D, subscript, iteration,
    built-in or numpy integers) give the same cell, also when several iterations are under way. getSequentialCellIndex goes by the index of the cell it is
    given, whatever patch the cell is of. An index out of range raises IndexError from getCellInfo, subscript
    and both index conversions; a patch without cells has length 0, cell dimensions and border 0, iterates over
    nothing and raises IndexError for any cell index.""",
    ["configurations", "inputs"],
    "n from 1 to 9 through all combinations of inner and border cells; every index from below 0 to past the end; legacy patches",
    NOTEST + "Out-of-range conversions are untested.",
    ["patch"], [("index arithmetic and checks", "patch:PatchInfo.getCellInfo/getCellIndexPair/getSequentialCellIndexFromPair")],
    ["PatchInfo.__getitem__", "getCellInfo", "getSequentialCellIndex", "getCellIndexPair"])

# ------------------------------------------------------------------ tract geometry
add("C10", "Every tract is the smallest whole number of patches that holds its sky area",
    """The tract bounding box holds the sky area the tract must cover: for maps that give the tract an inner region by
    vertices, everything within half of tractOverlap of a vertex; for rings and discrete maps, the square of
    half-size radius+tractOverlap about the tract center, aligned with the pixel axes. It is larger than that by less than one patch in x and
    in y (plus pixel rounding), and that area is centered in it to within two pixels and one percent of the overlap.""",
    ["configurations"],
    "every tract of a menu of sky maps of all five classes over overlap (including 0), projection, rotation, pixel scale and patch dimensions",
    NOTEST + "Nothing checks the extent of a tract against the overlap that was asked for.",
    ["tract", "tb"], [("minimum bounding box", "tract:TractInfo._minimumBoundingBox"),
                      ("explicit radius", "tract:ExplicitTractInfo._minimumBoundingBox"),
                      ("grow to patches", "tb:BaseTractBuilder.setupPatches"), ("shift to origin", "tract:TractInfo._finalOrientation")],
    ["TractInfo.getBBox", "TractInfo.getWcs", "TractInfo.getTractOverlap"])
add("C11", "The WCS of a tract has the configured center, scale, projection and rotation",
    """The WCS of a tract uses the configured projection, has the configured pixel scale at the tract's reference
    position, its +y axis there at the configured rotation (position angle from north through east), is not flipped,
    and its reference position is the tract center (for the equatorial map, the point of the equator on the
    center's meridian; at a pole, north is the direction of the configured RA of a discrete tract, and of RA 0 for
    the polar tracts of a rings map). The patches and cells of a tract report that same WCS.""",
    ["configurations"],
    "every tract of the menu, over all combinations of projection, rotation (including negative and beyond 90 degrees) and pixel scale",
    NOTEST + "Rotation is never tested.",
    ["wcs", "tract", "patch", "cell"], [("CD matrix", "wcs:WcsFactory.__init__"), ("shifted origin", "tract:TractInfo._finalOrientation")],
    ["TractInfo.getWcs", "PatchInfo.getWcs", "CellInfo.getWcs"])
add("C12", "Reported sky polygons are the corresponding pixel boxes seen through the WCS",
    """The outer sky polygon of a tract, and the inner and outer sky polygons of every patch and cell, are the convex
    polygons whose vertices are the four corners of the matching pixel bounding box (edges at half-integer pixels)
    mapped to the sky by the tract's WCS; a WCS passed explicitly to a patch or cell is used instead of its own.
    Property and getter forms agree.""",
    ["configurations", "inputs"],
    "every tract, patch and cell of the menu; every combination of inner/outer, own/explicit WCS, getter/property",
    NOTEST + "One tract and one patch polygon are compared at one configuration.",
    ["utils", "tract", "patch", "cell"], [("makeSkyPolygonFromBBox", "utils:makeSkyPolygonFromBBox")],
    ["outer_sky_polygon", "inner_sky_polygon", "getOuterSkyPolygon", "getInnerSkyPolygon"])

# ------------------------------------------------------------------ lookup
add("C13", "findTract returns the tract the position belongs to",
    """findTract returns the tract whose center is nearest to the position (discrete, equatorial and dodecahedron
    maps), or whose inner region holds it (rings: the RA/Dec range; HEALPix: the pixel). In particular the center of
    every tract of a full-sky map is found in that tract, for every position including the poles, RA near 0/360 and
    positions just either side of a boundary.""",
    ["configurations", "inputs"],
    """every tract of every map of the menu; positions at every tract center, both sides of every boundary, both
    poles, and a grid crossing RA=0; RA given beyond [0,360)""",
    NOTEST + "They look up centers and a few offsets only.",
    ["base", "rings", "dod", "hp", "dode"], [("nearest center", "base:BaseSkyMap.findTract"), ("ring and RA arithmetic", "rings:RingsSkyMap.findTract"),
                                    ("nearest face", "dode:Dodecahedron.getFaceInd")],
    ["findTract"])
add("C14", "findTractIdArray agrees with findTract for every input form",
    """findTractIdArray returns, for each element of its input, exactly the ID of the tract findTract returns for that
    position, in order, whether RA and Dec are scalars, lists, tuples or arrays (of any length including 0 and 1, and any integer or floating type), in
    radians or degrees, and with RA negative, in [0,360) or above, and does not modify its inputs.""",
    ["inputs", "configurations"],
    "every map of the menu, including both numbering versions of the rings map; all positions of C13; all input forms",
    NOTEST + "One upstream test compares arrays in degrees for one rings configuration.",
    ["rings", "base"], [("vectorized lookup", "rings:RingsSkyMap.findTractIdArray"), ("loop", "base:BaseSkyMap.findTractIdArray")],
    ["findTractIdArray", "findTract"])
add("C15", "Rings maps partition the sphere into numbered RA/Dec ranges",
    """A rings map has a south cap (tract 0), rings of equal height numbered south to north each holding the smallest
    number of equal tracts narrower than the ring height at the ring edge nearest the equator (where a whole number of
    ring heights fits exactly, the number that released versions of the code chose), numbered eastward
    from the one centered at raStart, and a north cap (last tract). Ring indices, tract centers and getRaDecRange follow from
    that numbering; the ranges cover the sphere without gap or overlap, and inner_sky_region is that RA/Dec box.""",
    ["configurations"],
    "every numRings from 1 to 24 (thorough: 60) and 120, several raStart including just below 360, every tract",
    NOTEST + "One numRings is used and the ranges of adjacent tracts are never compared.",
    ["rings"], [("ring division", "rings:RingsSkyMap.__init__"), ("numbering", "rings:RingsSkyMap.getRingIndices"),
                ("ranges", "rings:RingsSkyMap.getRaDecRange")],
    ["getRingIndices", "getRaDecRange", "TractInfo.getCtrCoord", "TractInfo.getInnerSkyRegion"])
add("C16", "findAllTracts returns exactly the tracts that contain the position, once each",
    """For a rings map (version 1), findAllTracts returns every tract whose bounding box contains the position and no
    other tract, each exactly once, whatever the tract overlap, including at the poles and across RA=0 and raStart.""",
    ["configurations", "inputs"],
    "numRings, overlaps from 0 to a whole ring, raStart; all positions of C13 plus positions around every tract corner",
    NOTEST + "They compare with a brute-force search at a few positions for a small overlap.",
    ["rings"], [("search window", "rings:RingsSkyMap.findAllTracts")],
    ["findAllTracts", "TractInfo.contains"])
add("C17", "contains and findPatch agree with the pixel position of a coordinate",
    """A tract contains a position if and only if the pixel the WCS maps it to lies in the tract's bounding box, and then
    findPatch returns the one patch whose inner region holds that pixel. For every other position, including those
    the WCS cannot map (whether it reports that by a non-finite pixel or by an exception), contains is False and
    findPatch raises LookupError.""",
    ["configurations", "inputs", "fault_sequences"],
    """every tract of the menu; pixels at all corners and edges of all patches (just inside and just outside), the
    tract's opposite side of the sky and both poles; each of the three ways a WCS reports an unmappable position""",
    NOTEST + "Only positions well inside a tract and WCS failures of one kind occur.",
    ["tract"], [("contains", "tract:TractInfo.contains"), ("findPatch", "tract:TractInfo.findPatch")],
    ["TractInfo.contains", "TractInfo.findPatch"])
add("C18", "findPatchList returns exactly the patches near the region",
    """findPatchList returns, each once, exactly the patches whose inner region grown by the patch border meets the pixel
    bounding box of the given positions, ignoring positions that have no pixel position; the result is
    empty if there are none, for an empty list, or if the region misses the tract by more than the border.""",
    ["inputs", "configurations", "fault_sequences"],
    """every rectangle spanned by a lattice of positions finer than a patch over and around small tracts, in every order
    of two corners; single positions; unmappable positions mixed in, for each kind of WCS failure; both builders""",
    NOTEST + "They test a few boxes around one patch.",
    ["tract"], [("box, grow, clip, index range", "tract:TractInfo.findPatchList")],
    ["TractInfo.findPatchList"])
add("C19", "Tract/patch list searches are consistent with the per-tract searches",
    """findTractPatchList pairs each selected tract, listed once, with exactly its findPatchList of the whole coordinate list; for
    general maps it selects every tract with a non-empty list, in order, and for rings maps every tract that contains at least one
    of the coordinates. findClosestTractPatchList does the same for the tracts findTract gives for the coordinates, in first-seen order, listing
    no tract twice. Tracts without patches near the region are left out.""",
    ["inputs", "configurations"],
    "every map of the menu; all coordinate lists of length 0, 1 and 2, and selected ones of length 4, over an alphabet of positions in and between tracts",
    NOTEST + "They use coordinate lists inside one or two adjacent tracts.",
    ["base", "rings"], [("loop over tracts", "base:BaseSkyMap.findTractPatchList"), ("rings override", "rings:RingsSkyMap.findTractPatchList"),
                        ("closest", "base:BaseSkyMap.findClosestTractPatchList")],
    ["findTractPatchList", "findClosestTractPatchList"])

# ------------------------------------------------------------------ whole map
add("C20", "Equality and hash of sky maps identify exactly their definition",
    """Two sky maps are equal, and have the same 20-byte SHA1 and the same hash, if and only if they are of the same class,
    version of the tract numbering and configuration (the selected tract builder with its options, overlap, pixel scale, projection, rotation, and
    every option of the class). Options of a tract builder that is not selected do not matter, nor does how or
    when the map was built or used; comparison with anything that is not a sky map is False.""",
    ["configurations", "histories"],
    "all pairs of maps that differ in exactly one option, and all pairs of a menu of all classes; before and after use, copying and pickling",
    NOTEST + "They compare the SHA1 of a few maps; most options are never varied alone.",
    ["base", "tb", "rings", "disc", "dod", "eq", "hp"], [("SHA1", "base:BaseSkyMap.getSha1"), ("packed config", "tb:LegacyTractBuilder.getPackedConfig"),
                                              ("class options", "rings:RingsSkyMap.updateSha1")],
    ["getSha1", "__eq__", "__ne__", "__hash__"])
add("C21", "A sky map survives persistence unchanged",
    """A sky map restored from pickle (any protocol), copy or deepcopy, or rebuilt by its registry name from a saved and reloaded
    configuration, equals the original and has the same class, version, configuration, number of tracts and identical tracts, patches
    and lookups, no matter which tracts had been used before it was saved; restoring is possible repeatedly.
    Pickled state of an unsupported future version is refused.""",
    ["configurations", "histories"],
    "every map of the menu, both rings versions; every persistence route, chained up to depth 2, after every subset of prior uses",
    NOTEST + "One pickle round trip of a fresh map per class.",
    ["cach", "dod", "eq", "reg"], [("__reduce__", "cach:CachingSkyMap.__reduce__"), ("__getstate__/__setstate__", "dod:DodecaSkyMap.__setstate__")],
    ["pickle", "copy", "skyMapRegistry", "Config.save/load"])
add("C22", "Answers do not depend on what was asked before",
    """Every query on a sky map, tract, patch or cell returns the same answer whatever queries were made before it, in
    whatever order tracts were generated, and however the values returned by earlier queries (boxes, dimensions, lists, arrays of
    coordinates and IDs) were modified by the caller; queries leave their arguments unchanged. The configuration of a sky map cannot be changed once it is built.""",
    ["histories"],
    "all sequences of queries up to depth 3 (thorough: 4) over an alphabet that includes every lazily generated tract, on maps whose tracts differ in size; every returned mutable value modified in place",
    "Every test builds a fresh map and asks in one order.",
    ["cach", "tract", "tb", "patch", "base", "dode"], [("tract cache", "cach:CachingSkyMap.__getitem__"), ("per-tract builder state", "tb:BaseTractBuilder.setupPatches")],
    ["all queries"], [("tract cache", "tracts generated so far", "CachingSkyMap"), ("builder state", "patch grid of a tract", "BaseTractBuilder"),
                      ("sha1", "cached hash", "BaseSkyMap")])
add("C23", "Concurrent use of one sky map or packer gives the sequential answers",
    """When several threads use the same sky map, tract or packer at once, each call returns what it would have returned alone,
    in every interleaving, and no call fails.""",
    ["schedules"],
    "all schedules of 2 threads (thorough: also 3), each making 1-2 calls on colliding tracts of a fresh map, with up to 2 preemptions at source-line granularity",
    "No test uses threads; a race needs a preemption between two particular lines.",
    ["cach", "tract", "tb", "base", "pack"], [("cache publication", "cach:CachingSkyMap.__getitem__"), ("lazy SHA1", "base:BaseSkyMap.getSha1"),
                                     ("lazy band list", "pack:SkyMapDimensionPacker.unpack")],
    ["results of all calls"])
add("C24", "Registering a sky map records its whole definition exactly once",
    """After register, the butler holds one skymap record (with the map's SHA1, its number of tracts and the largest number of patches
    in x and in y of any tract), one tract record per tract, one patch record per patch with its sequential index,
    (x,y) index and outer sky polygon, and the map itself as the skyMap dataset in the skymaps run, equal to the original. Registering
    the same map again under the same name changes nothing; a different map under that name, or the same map under another name,
    raises ConflictingDefinitionError and changes nothing.""",
    ["configurations", "histories"],
    "maps of all classes whose tracts differ in size; all sequences of registrations of 2 maps under 2 names up to depth 3",
    "No test registers a sky map.",
    ["base"], [("register", "base:BaseSkyMap.register")],
    ["butler.registry.queryDimensionRecords", "butler.get"])
add("C25", "A failed registration leaves nothing behind and can be repeated",
    """If any butler operation or geometry computation during register fails, before or after taking effect, or the process dies, the exception reaches the caller and the
    butler holds no skymap, tract or patch record and no skyMap dataset of the failed registration; repeating register afterwards
    succeeds with the same result as an undisturbed registration.""",
    ["fault_sequences", "crash_points"],
    "a fault before and after every butler call, SQL statement and WCS evaluation of register; a crash before every SQL statement; thorough: every pair of faults in two successive attempts",
    "No test registers a sky map, let alone with a failing butler.",
    ["base"], [("transaction", "base:BaseSkyMap.register")],
    ["butler.registry", "butler.get"])
add("C26", "Every registered tract and patch can be packed with the registered record",
    """For every tract and patch of a registered sky map, a packer built from the registered skymap record packs the
    (tract, patch) data ID to a distinct integer that fits maxBits and unpacks to the same data ID, although tracts may differ in their numbers of patches.""",
    ["configurations"],
    "maps of all classes, including ones whose tracts differ in size; every tract and patch",
    "No test combines registration and packing.",
    ["base", "pack"], [("tract_max, patch_nx_max, patch_ny_max", "base:BaseSkyMap.register"), ("packer defaults", "pack:SkyMapDimensionPacker.__init__")],
    ["registered skymap record", "pack", "unpack"])
add("C27", "The dodecahedron is regular, oriented and consistently numbered",
    """Both orientations of the dodecahedron have 12 unit face centers and 20 unit vertices with the regular geometry:
    every face has 5 vertices at equal distance, listed in order around it, each shared by exactly 3 faces. With faces on poles the first face is
    at the north and the last at the south pole, otherwise a vertex is on each pole; faces are numbered by decreasing latitude
    and then increasing longitude, and the first face off the poles is at longitude 0. getFaceInd returns a nearest face for any vector of any length. By default a vertex is on each pole.""",
    ["configurations", "inputs"],
    "both orientations; all faces, vertices and pairs; every vector of an integer lattice up to magnitude 4 (thorough: 40), scaled over many orders of magnitude",
    NOTEST + "The module imports here but no test exercises it.",
    ["dode"], [("construction and sorting", "dode:Dodecahedron"), ("nearest face", "dode:Dodecahedron.getFaceInd")],
    ["Dodecahedron.getFaceCtr", "getFaceCtrList", "getVertices", "getFaceInd"])
add("C28", "Backward-compatible patch options are aliases of the legacy builder options",
    """On every sky map configuration, patchInnerDimensions and patchBorder (as attributes or through their get/set methods)
    read and write the options of the legacy tract builder and nothing else, so the last write through either name wins, whichever
    builder is selected, and survives saving and loading the configuration. Maps built after equal writes through either route are
    equal.""",
    ["histories", "configurations"],
    "all sequences up to length 3 of writes through each route, selections of the builder and save/load, for every map class",
    NOTEST + "Only the legacy names are used upstream.",
    ["base"], [("aliases", "base:BaseSkyMapConfig.setPatchInnerDimensions/setPatchBorder")],
    ["config attributes", "skymap patches"])
add("C29", "A sky map is a sequence of tracts numbered by their position",
    """len of a sky map is its number of tracts; iterating visits exactly that many tracts, subscript i, of any
    integer type, gives the tract with the integer i as its ID for 0 <= i < len, repeated access gives the same tract, and nested or interrupted iterations do not disturb each
    other. Subscripts at or beyond the length raise IndexError; a negative subscript counts from the end or raises
    IndexError, whichever tracts were used before.""",
    ["configurations", "histories"],
    "every map of the menu; every subscript from 0 to past the end in several orders; nested iteration",
    NOTEST + "IDs are compared for default configurations only.",
    ["cach", "base"], [("__getitem__/__iter__/__len__", "cach:CachingSkyMap")],
    ["__len__", "__getitem__", "__iter__", "TractInfo.getId"])
add("C30", "Version 0 rings maps keep the historical numbering",
    """A rings map built with version=0 has the same number of tracts as version 1 but numbers the tracts after the first ring so
    that the tract at raStart of every ring but the first comes last in its ring, the first tract of the first ring appears twice (as
    first and last of its ring), and the tract at raStart of the last ring is missing. Its ring indices, centers, findTract and
    findTractIdArray all follow that numbering, findTract finds the center of every tract in a tract with that center, findAllTracts lists no tract
    twice, only tracts containing the position, and all of these but for the duplicate, and the version survives pickling.""",
    ["configurations", "inputs"],
    "numRings 1 to 12, several raStart, every tract",
    "The upstream test compares a few version-0 positions at one numRings.",
    ["rings"], [("off-by-one kept for version 0", "rings:RingsSkyMap.getRingIndices"), ("lookup", "rings:RingsSkyMap.findTract")],
    ["getRingIndices", "findTract", "findTractIdArray", "findAllTracts"])
add("C31", "Tracts are placed where the configuration says",
    """A discrete map has one tract per configured (ra, dec, radius), in order, centered there; an equatorial map has numTracts
    tracts of equal RA width, the first starting at RA 0, whose inner regions span the declination range; a dodecahedron map has one
    tract per face, centered on it, with the face's vertices; a HEALPix map has one tract per pixel of the configured resolution and ordering (with
    north and south exchanged, as always), centered on it, with the pixel's corners. Every tract reports the configured overlap.""",
    ["configurations"],
    "every tract of a menu of configurations of the four classes: all combinations of counts, ranges, orderings and orientations",
    NOTEST + "Only default configurations are used and vertices are not compared.",
    ["disc", "eq", "dod", "hp", "utils"], [("placement", "disc:DiscreteSkyMap.generateTract"), ("placement", "eq:EquatSkyMap.__init__"),
                           ("placement", "dod:DodecaSkyMap.__init__"), ("placement", "hp:HealpixSkyMap.generateTract")],
    ["TractInfo.getCtrCoord", "TractInfo.getVertexList", "TractInfo.getInnerSkyRegion"])
add("C32", "Maps cover their sky, with the configured overlap between neighbours",
    """Every position in the area a map covers lies in the tract findTract returns for it, and in the patch of it that findPatch returns.
    That area is the declination band of an equatorial map (with CEA projection, or with a band that holds the equator), and the whole sky for
    dodecahedron maps (TAN, or an overlap of at least 3 degrees), for HEALPix maps, and for version 1 rings maps of 3 or more rings rotated by a multiple
    of 90 degrees, the latter two with an overlap of at least a tenth of the tract size. In all these maps, any position within (98 percent of) half the overlap of a vertex
    shared by the inner regions of several tracts lies in all of these tracts.""",
    ["configurations", "inputs"],
    "every full-sky map of the menu; positions on a lattice of boundaries, corners and centers of all inner regions, displaced in 8 directions",
    NOTEST + "They check centers and a few offsets.",
    ["tract", "rings", "dod", "eq", "hp"], [("minimum bounding box with overlap", "tract:TractInfo._minimumBoundingBox")],
    ["findTract", "TractInfo.contains", "findPatch"])
add("C33", "Invalid configurations and indices are refused when given",
    """A discrete map configuration whose RA, Dec and radius lists differ in length, a cell builder configuration
    whose cells are not square, a rings configuration with no rings or raStart outside [0,360), a projection
    code that is not three letters, an outer box that does not contain the inner box, cell dimensions that are not a pair of
    numbers, a rings version other than 0 or 1, a pair option (patch dimensions, cell dimensions, declination range)
    that is not two numbers, an option without a value, and any option, type of option value or tract builder name that a class does not know
    are each refused with an exception, and all valid neighbours of
    these are accepted.""",
    ["configurations", "inputs"],
    "all combinations of list lengths 0..3, cell dimensions 1..3 squared, numRings and raStart around their bounds, projection lengths 0..4, boxes and versions around theirs",
    NOTEST + "Two of these are tried once.",
    ["disc", "tb", "rings", "wcs", "patch", "cell"], [("validate", "disc:DiscreteSkyMapConfig.validate"), ("validate", "tb:CellTractBuilderConfig.validate"),
                                               ("length check", "wcs:WcsFactory.__init__")],
    ["exceptions from validate and constructors"])

add("C34", "The inner sky region of a tract is the area its vertices or ranges enclose",
    """The inner sky region of a tract is the convex polygon of its vertices or, for rings maps, the RA/Dec range of the tract, and its inner sky
    polygon is the polygon of its vertices; it contains the center of the tract, and the tract contains all the vertices. In dodecahedron and rings maps
    a position is in the inner region of exactly the tract findTract returns for it.""",
    ["configurations", "inputs"],
    "every tract of a menu of maps of all classes; positions at the center, both sides of every vertex and edge, and on a lattice of the whole sky",
    NOTEST + "Membership of positions in inner regions is tried at a few tract centers only.",
    ["tract", "rings", "dod", "eq", "hp"], [("inner region", "tract:TractInfo.getInnerSkyRegion"), ("box corners", "rings:RingsSkyMap.generateTract")],
    ["inner_sky_region", "inner_sky_polygon", "vertex_list"])
add("C35", "Patches and cells are equal exactly when they are the same piece",
    """Two patches are equal if and only if they have the same index, inner and outer box, number of cells and cell border, and two cells if and only if
    they have the same index, inner and outer box; != is the opposite of ==, both are symmetric, and a comparison with anything else than a patch (cell) is
    unequal without failing.""",
    ["inputs", "configurations"],
    "all pairs of directly built patches and cells that differ in any set of fields, and all pairs from maps of all classes, also built twice",
    "One test compares a patch with itself and with one other.",
    ["patch", "cell"], [("__eq__/__ne__", "patch:PatchInfo"), ("__eq__/__ne__", "cell:CellInfo")], ["== and != of patches and cells"])
add("C36", "Properties of tracts, patches and cells are their getters, and read-only",
    """Every property of a tract, patch or cell (bbox, ctr_coord, tract_id, num_patches, wcs, index, inner_bbox, ...) gives the value of its getter and cannot
    be assigned to. Indices and numbers of patches and cells are (x, y) named pairs equal to plain pairs.""",
    ["configurations", "inputs"],
    "all 29 pairs of accessors on tracts, patches and cells of maps of all classes, reached by number and by pair, before and after attempted assignments",
    "The tests read a few properties of one tract, patch and cell.",
    ["tract", "patch", "cell", "utils"], [("properties", "tract:TractInfo"), ("properties", "patch:PatchInfo"), ("properties", "cell:CellInfo")],
    ["bbox", "tract_id", "index", "inner_bbox", "outer_bbox", "num_cells", "wcs"])
add("C37", "Direction, angle and polygon helpers are exact in every form and at the poles",
    """The helper that makes a sky position from a vector gives the vector's direction whatever its length and container, with RA the requested default
    exactly where the vector is at a pole, and refuses to give an RA there if none is requested. The HEALPix angle conversions are inverses of each other, and the sky
    polygon of a pixel box is the polygon of its corners (edges at half-integer pixels for integer boxes) through the given WCS.""",
    ["inputs"],
    "a lattice of directions including all axes and the neighbourhood of the poles to 1e-300, lengths, container types and defaults; angle lattices; boxes and WCSs",
    NOTEST + "The helpers are used on one dodecahedron.",
    ["utils", "hp"], [("coordFromVec", "utils:coordFromVec"), ("makeSkyPolygonFromBBox", "utils:makeSkyPolygonFromBBox"), ("angToCoord/coordToAng", "hp")],
    ["coordFromVec", "angToCoord", "coordToAng", "makeSkyPolygonFromBBox"])
add("C38", "Options left out take their documented defaults, and names select the classes",
    """A map whose configuration leaves out any set of options equals, in definition and tracts, the one that states their documented defaults (per class, for
    instance STG projection but CEA for equatorial maps, a patch border of 100 pixels but 250 for dodecahedron maps), in whatever order the tract builder is selected and the
    options are set. A rings map made without a version is version 1. The registry offers exactly dodeca, equat, discrete, rings and healpix, and legacy and cells
    builders, and a field that selects one builds the map of its options, whatever was selected before.""",
    ["configurations", "histories"],
    "every subset of the options stated or left out, for every class and builder; all sequences of up to 3 selections by name",
    NOTEST + "No test states the defaults.",
    ["base", "disc", "dod", "eq", "hp", "rings", "tb", "reg"], [("setDefaults", "dod:DodecaSkyMapConfig.setDefaults"), ("registry", "reg:skyMapRegistry"), ("options", "base:BaseSkyMapConfig")],
    ["configuration values", "== of maps", "registry names"])
add("C39", "What maps, tracts, patches and cells report about themselves is right",
    """The log of a sky map tells, at level INFO on the given logger, its number of tracts and then, one record per tract in order, the ID of the tract, the sky
    positions of the four corners of its box, from the minimum one and going round along x first, to 3 decimals of a degree, and its numbers of patches in x and y. The strings of tracts, patches and cells give their ID or index, and the
    detailed ones also the center, or the boxes and the cell layout.""",
    ["configurations", "histories"],
    "every tract of maps of all classes, with 0 to hundreds of tracts, asked before and after other queries; every number parsed back",
    "The log is never read by a test.",
    ["base", "tract", "patch", "cell"], [("logSkyMapInfo", "base:BaseSkyMap.logSkyMapInfo"), ("__str__/__repr__", "tract:TractInfo"), ("__str__/__repr__", "patch:PatchInfo")],
    ["log records", "str", "repr"])
add("C40", "A tract builder answers for the area it was last set up for",
    """Setting up a tract builder for a minimum area returns the smallest whole number of patches that hold it, centered on it within a pixel, leaves its argument unchanged, and from
    then on the builder gives exactly the patches of that area, whatever it was set up for before; it refuses to give patches before the first set-up. Tracts made with one builder, and other builders made from
    the same configuration, keep their own patches.""",
    ["histories", "configurations", "inputs"],
    "all sequences of set-ups, queries and tract constructions on one and on two builders; every area of up to 13x13 pixels at several positions",
    NOTEST + "Builders are used only through one tract each.",
    ["tb", "tract"], [("setupPatches", "tb:BaseTractBuilder.setupPatches"), ("getPatchInfo", "tb:LegacyTractBuilder.getPatchInfo"), ("getPatchInfo", "tb:CellTractBuilder.getPatchInfo")],
    ["setupPatches", "getPatchInfo", "getPatchIndexPair"])
add("C41", "The WCS factory honours scale, rotation, flip, projection and reference point",
    """A WCS made by the factory maps the reference position to the reference pixel and positions around it to the pixels the projection, scale and rotation imply, mirrored in x if and only
    if a flip was requested; rotation and flip default to none. All WCSs made from one factory are independent of each other.""",
    ["inputs", "configurations"],
    "all combinations of scales, rotations, flip, projections, reference pixels and reference positions including the poles",
    NOTEST + "The flip is never used.",
    ["wcs"], [("cd matrix", "wcs:WcsFactory.__init__"), ("makeWcs", "wcs:WcsFactory.makeWcs")], ["skyToPixel", "pixelToSky"])
add("C42", "User-defined sky maps generate each tract once, when it is first needed",
    """A sky map class that defines only how many tracts it has, how to generate one, and its own part of the SHA1 gets all the services of a sky map: length, subscripts, iteration, searches
    (findTract returns the tract with the nearest center), equality, pickling, copying, log and registration, each with right answers. Each tract is generated at most once per map, when first needed, and
    then kept; making, comparing, hashing, pickling and copying a map generates none, and a subscript only its own. A failure to generate a tract reaches the caller and the next request tries again.""",
    ["programs", "histories", "fault_sequences"],
    "own classes of 0 to 5 tracts; all sequences of operations; a failure injected at every tract",
    "No test defines a sky map.",
    ["cach", "base"], [("cache", "cach:CachingSkyMap.__getitem__"), ("generic searches", "base:BaseSkyMap")], ["generateTract calls", "answers of all services"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for r in rows:
            assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
            f.write(json.dumps(r) + "\n")
    print(len(rows))
