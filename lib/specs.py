from driver import H
SPECS = {}
COMMON = ["clang 18 lowers the C++ source to LLVM IR faithfully", "the IR is interpreted by /verif/engine with Z3 and cvc5 deciding queries; sampled paths are replayed natively", "what() texts of exceptions are not modelled"]


def P(pid, title, harnesses, assumptions=(), level="model_checking", **kw):
    SPECS[pid] = dict(title=title, harnesses=harnesses, level=level, assumptions=COMMON + list(assumptions), **kw)


def RSH(n, ka=2, kb=2, jobs=1, **kw):
    d = ["-DKA=%d" % ka, "-DKB=%d" % kb]
    t = kw.pop("thorough", dict(defs=["-DKA=3", "-DKB=%d" % (3 if kb else 2)], jobs=8, time=2400))
    return H(n, "rangeset.cc", "harness_" + n, defs=d, jobs=jobs, thorough=t, bounds="at most %d and %d ranges, arbitrary 64-bit end points" % (ka, kb), **kw)


P("C01", "RangeSet algebra", [
    RSH("symmetricDifference", jobs=4), RSH("join", jobs=3), RSH("difference", jobs=2), RSH("intersection", jobs=2), RSH("complement"),
    RSH("insert"), RSH("erase"), RSH("equality"), RSH("anyorder")])
P("C02", "RangeSet canonical form and iteration", [RSH("construct", ka=3)])
P("C03", "RangeSet predicates", [RSH("predicates"), RSH("setpredicates")])
P("C04", "RangeSet simplify and scale", [RSH("simplify", jobs=3), RSH("scale")])
P("C05", "curves", [
    H("morton", "curve.cc", "harness_morton", reach=["morton"], bounds="all 2^64 inputs"),
    H("log2", "curve.cc", "harness_log2", reach=["log2"], bounds="all inputs"),
    H("adjacent", "curve.cc", "harness_hilbert_adjacent", reach=["adjacent"], opts=["--oneshot"], jobs=8, bounds="every index of every order 1 to 32"),
    H("hilbert", "curve.cc", "harness_hilbert_roundtrip", reach=["roundtrip"], opts=["--oneshot"], jobs=4, bounds="every index of every order 1 to 32"),
    H("definition", "curve.cc", "harness_hilbert_definition", reach=["definition"], opts=["--oneshot"], jobs=2, bounds="every index of every order 1 to 32"),
    H("compose", "curve.cc", "harness_hilbert_compose", reach=["compose"], opts=["--oneshot"], bounds="every point and index, orders 1 to 32"),
])
P("C06", "BigInteger", [H("multiply", "bigint.cc", "harness_multiply", jobs=8, time=400, bounds="operands of up to 3 and 2 digits", thorough=dict(defs=["-DNM=3", "-DNB=3"], jobs=8, time=800))] +
  [H(n, "bigint.cc", "harness_" + n) for n in ["square", "setto", "add", "subtract", "self", "pow2"]])
P("C10", "interval", [H(n + s, "interval.cc", "harness_" + n, defs=d, jobs=(4 if n == "dilate" else 1), time=400, bounds="every pair of doubles as end points (NaN and infinite included)")
  for s, d in (("1d", []), ("angle", ["-DANGLE"])) for n in ("dilate", "pair", "relate", "clip", "expand", "make")])
P("C11", "normalized", [H(n, "nangle.cc", "harness_" + n, jobs=(4 if n in ("clip", "angles", "dilate") else 1), time=400, opts=["--branch-ms=600"] if n == "clip" else [],
    bounds="every pair of end points in [0, 2 pi] or NaN") for n in ("angles", "clip", "dilate", "expand1", "expand", "clip1", "pair", "relate", "normalize", "make")])
P("C08", "codec", [H("circle", "codec.cc", "harness_circle", bounds="all field values")] +
  [H(n, "codec.cc", "harness_" + n, bounds="all field values") for n in ("primitives", "polygon", "box", "ellipse")] +
  [H("compound", "codec.cc", "harness_compound", bounds="operands of every type, the first nested up to depth 1", jobs=2)] +
  [H("portable_" + n, "codec.cc", "harness_" + n, defs=["-DNO_OPTIMIZED_PATHS"], srcdefs=["-DNO_OPTIMIZED_PATHS"], bounds="all field values; portable codec") for n in ("primitives", "polygon")])
P("C09", "decode", [H("sizes", "codec.cc", "harness_sizes", jobs=4, defs=["-DNMIN=1", "-DNMAX=140", '-DOPS="cep"'], reach=["accepted", "rejected"],
    bounds="compound regions in 1 to 140 bytes, all operand sizes, operands that are circles, ellipses, polygons or invalid",
    thorough=dict(defs=["-DNMIN=1", "-DNMAX=260", '-DOPS="cep"'], jobs=8))] +
  [H("any", "codec.cc", "harness_decode", jobs=3, defs=["-DNMAX=34"], reach=["accepted", "rejected", "invalid"], bounds="0 to 34 arbitrary bytes", thorough=dict(defs=["-DNMAX=50"], jobs=8))] +
  [H(d, "codec.cc", "harness_decode", defs=["-DNMAX=%d" % n, "-DDECODER=" + d], reach=["accepted", "rejected"] if a else ["rejected"], bounds="0 to %d arbitrary bytes" % n)
   for d, n, a in (("Box", 121, 1), ("Circle", 121, 1), ("ConvexPolygon", 121, 1), ("Ellipse", 121, 1), ("CompoundRegion", 24, 0), ("UnionRegion", 24, 0), ("IntersectionRegion", 24, 0))])

B6 = ["--branch-ms=600"]
EVB = "every box with double end points (longitudes in [0, 2 pi], latitudes in [-pi/2, pi/2], or empty)"
P("C12", "box", [H("clip", "box.cc", "harness_clip", jobs=8, opts=B6, bounds=EVB, time=400), H("dilate_lon", "box.cc", "harness_dilate", defs=["-DAXIS=1"], jobs=4, opts=B6, bounds=EVB, time=400),
  H("radius", "box.cc", "harness_radius", override=True, defs=["-DSTUB_HALFWIDTH", "-DAXIS=2", "-DWRAPS=1"], jobs=4, opts=B6, bounds=EVB + "; latitudes, wrapping longitudes", stubs="Box::halfWidthForCircle replaced by the contract that harness_halfwidth proves", time=400,
    thorough=dict(defs=["-DSTUB_HALFWIDTH", "-DAXIS=1"], jobs=8, time=800)),
  H("forms", "box.cc", "harness_forms", jobs=4, opts=B6, bounds="every longitude arc; two latitude intervals and amounts (four in the thorough tier)", time=400, thorough=dict(defs=["-DDEEP"], jobs=8)),
  H("dilate_lat", "box.cc", "harness_dilate", defs=["-DAXIS=2"], jobs=2, opts=B6, bounds=EVB, time=400), H("halfwidth", "box.cc", "harness_halfwidth", opts=B6, bounds="all radii and latitudes", time=400)] +
  [H(n, "box.cc", "harness_" + n, opts=B6, bounds=EVB) for n in ("expand1", "expand", "make", "lonlat", "pair", "equal", "relate", "dispatch", "point")])
P("C13", "box3d", [H(n, "box3d.cc", "harness_" + n, bounds="every box of non-NaN or empty intervals") for n in ("make", "vectors", "pair", "relate", "relate1", "clip", "point", "expand")] +
  [H("dilate%d" % a, "box3d.cc", "harness_dilate", defs=["-DAXIS=%d" % a], bounds="every box; axis %d" % a) for a in range(3)])

PX = {"htm": [], "q3c": ["-DPIX=Q3cPixelization", "-DROOT0=0", "-DNROOTS=6"], "mq3c": ["-DPIX=Mq3cPixelization", "-DROOT0=10", "-DNROOTS=6"]}


def PF(pix, kind, k, l, maxr, jobs=1, thorough=None, **kw):
    d = PX[pix]
    mk = lambda k, l, m: d + ["-DK=%d" % k, "-DL=%d" % l, "-DMAXR=%d" % m]
    th = thorough or (k, l, maxr)
    return H("%s_%s_%d_%d" % (pix, kind, k, l), "pixfind.cc", "harness_" + kind, reach=[kind], override=True, srcdefs=["-fno-inline"], defs=mk(k, l, maxr), jobs=jobs, time=400,
      bounds="%s level %d, regions of %d symbolic pixels of any level, maxRanges up to %d" % (pix, l, k, maxr),
      stubs="detail::relate (pixel polygon against region) replaced by an oracle over the symbolic region",
      thorough=dict(defs=mk(*th), jobs=8, time=2400), **kw)


P("C16", "pixel finding", [
    PF("htm", "simple", 2, 1, 1, 4, thorough=(3, 1, 2)), PF("q3c", "simple", 2, 1, 1, 2, thorough=(3, 1, 2)), PF("mq3c", "simple", 2, 1, 1, 2, thorough=(3, 1, 2))] +
  [PF(p, "simple", 3, 0, 2) for p in PX] + [PF(p, "simple", 1, 2, 1, thorough=(1, 3, 1)) for p in PX] +
  [PF("htm", "compound", 1, 0, 2, 2, thorough=(2, 0, 2)), PF("q3c", "compound", 1, 0, 1, thorough=(1, 1, 1)), PF("mq3c", "compound", 1, 0, 1, thorough=(1, 1, 1))] +
  [PF(p, "types", 1, 1, 1) for p in PX] + [PF("htm", "ellipse", 0, 0, 0)])


PIX = {"htm": "-DPIX=0", "q3c": "-DPIX=1", "mq3c": "-DPIX=2"}


def PI(pix, kind, bounds, levels="1", reach=None, **kw):
    th = kw.pop("th", None)
    return H(pix + "_" + kind, "pixidx.cc", "harness_" + kind, reach=reach or [kind], defs=[PIX[pix], "-DLEVELS=" + levels], bounds=bounds,
             thorough=dict(defs=[PIX[pix], "-DLEVELS=" + th], jobs=8, time=1500) if th else None, **kw)


ALL31 = ",".join(map(str, range(31)))
P("C14", "pixel index", [PI(p, "level", "all 64-bit integers") for p in ("htm", "mq3c")] +
  [PI(p, "ctor", "all 32-bit levels", reach=["accepted", "rejected"]) for p in PIX] + [PI(p, "universe", "all levels, all 64-bit integers") for p in PIX] +
  [PI(p, "invalid", "all levels, all invalid 64-bit integers", reach=["rejected"]) for p in PIX] + [PI(p, "string", "all pixels of all levels", jobs=2) for p in PIX] +
  [PI(p, "face", "every vector with components in [-1, 1]; some levels", levels="0,1,3,9,20", opts=["--fp=uf"], jobs=4, th=ALL31) for p in ("q3c", "mq3c")] +
  [PI(p, "cells", "points in a representative set of grid cells (concrete)", levels="0,1,2,3,9,20", jobs=2, th="0,1,2,3,4,5,6,7,8,12,16,20,22") for p in ("q3c", "mq3c")] +
  [PI("htm", "centers", "centers of triangles with at most two distinct digits (concrete)", levels="0,1,2,5,16,17,20", jobs=2, th=",".join(map(str, range(21)))),
   H("htm_index", "htmidx.cc", "harness_htm", override=True, defs=["-DLMAX=3"], jobs=4, reach=["htm"], bounds="levels 0 to 3; every side of a point on the great circles met",
     stubs="orientation replaced by an oracle: symbolic side of the point on each great circle", thorough=dict(defs=["-DLMAX=6"], jobs=8, time=1500))])


def NB(pix, lv, th, **kw):
    d = ["-DMQ3C"] if pix == "mq3c" else []
    return H(pix + "_neighborhood", "neigh.cc", "harness_neighborhood", override=True, srcdefs=["-fno-inline"], defs=d + ["-DLEVELS=" + lv], jobs=4, reach=["neighborhood"], time=400,
             bounds="all pairs of pixels of levels " + lv, stubs="space filling curves replaced by another bijection (see C05), std::sort and std::unique by removal of duplicates",
             thorough=dict(defs=d + ["-DLEVELS=" + th], jobs=8, time=2400), **kw)


P("C15", "neighborhood", [NB("q3c", "0,1,2,3,15,30", ALL31), NB("mq3c", "0,1,2,30", ALL31)] +
  [H(p + "_faces", "neigh.cc", "harness_faces", defs=["-DREAL", "-DLEVELS=0,1,2"] + (["-DMQ3C"] if p == "mq3c" else []), reach=["faces"], bounds="all pixels of levels 0 to 2 (concrete)") for p in ("q3c", "mq3c")])

CB = "operands are subsets of four points; nesting up to depth %d"
P("C17", "compound regions", [H("contains", "compound.cc", "harness_contains", defs=["-DDEPTH=2"], reach=["contains"], bounds=CB % 2, thorough=dict(defs=["-DDEPTH=4"], jobs=4)),
  H("relate", "compound.cc", "harness_relate", defs=["-DDEPTH=2"], reach=["relate"], jobs=5, bounds=CB % 2, thorough=dict(defs=["-DDEPTH=2"], jobs=8)),
  H("circle", "compound.cc", "harness_circle", override=True, defs=["-DDEPTH=1", "-DSTUB_CIRCLE"], reach=["circle"], bounds=CB % 1, stubs="Circle::expandTo and clipTo replaced by operations on sets of points")] +
  [H(n, "compound.cc", "harness_" + n, defs=["-DDEPTH=1"], reach=[n], bounds=b) for n, b in (("precise", CB % 1), ("overloads", "all relationships of the operands with a box, circle, polygon, ellipse"),
    ("operands", CB % 1), ("box", "all latitude intervals within [-1.5, 1.5]"), ("box3d", "all finite intervals, the same for each axis"))])


def CH(kind, pairs, lon=False, th=None, few=False, **kw):
    mk = lambda p: ["-DCHUNKERS=" + ",".join("{%d,%d}" % q for q in p)] + (["-DLON"] if lon else []) + (["-DCHOICES=1"] if few else [])
    return H(kind + ("_lon" if lon else "") + ("_few" if few else ""), "chunker.cc", "harness_" + kind, defs=mk(pairs), reach=kw.pop("reach", [kind]),
             bounds="(stripes, sub-stripes per stripe) in " + str(pairs) + ("; longitudes of regions near and between borders of sub-chunks" if lon else ""),
             thorough=dict(defs=mk(th) + ["-DDEEP"], jobs=8, time=1500) if th else None, **kw)


MANY = [(a, b) for a in range(1, 8) for b in range(1, 4)]
P("C20", "chunker", [CH("ctor", [(1, 1)], reach=["accepted", "rejected"])] +
  [CH(k, [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (4, 2), (5, 1)], th=MANY, jobs=2) for k in ("ids", "cover", "subcover")] +
  [CH("search", [(1, 1), (2, 1), (3, 1), (2, 2)], th=[(3, 2), (4, 1), (4, 2), (5, 1)], jobs=3), CH("search", [(1, 1), (2, 1), (3, 1), (2, 2), (3, 2)], lon=True, th=[(a, b) for a in range(1, 6) for b in (1, 2)], jobs=3),
   CH("subsearch", [(1, 1), (2, 1), (1, 2)], th=[(2, 2), (3, 1)], jobs=2), CH("subsearch", [(1, 1), (2, 2), (3, 1)], lon=True, th=[(1, 1), (2, 2), (3, 1)], jobs=3), CH("subsearch", [(3, 2)], lon=True, few=True, th=[(3, 2)], jobs=4)])


def CP(name, kind, n, uniform=False, dup=False, th=None, extra=(), b="", **kw):
    mk = lambda n: ["-DNPOINTS=%d" % n] + ["-DUNIFORM=%d" % uniform] + (["-DDUPLICATE"] if dup else []) + list(extra)
    return H(name, "polygon.cc", "harness_" + kind, override=True, opts=["--no-lia"], defs=mk(n), reach=kw.pop("reach", [kind]), bounds=b or "every configuration of %d points%s%s" % (n, ", no three on a great circle" if uniform else "", ", one of them twice" if dup else ""),
             stubs="orientation replaced by an oracle: symbolic signs that satisfy the Grassmann-Pluecker relations", thorough=th and dict(defs=mk(th[0]) + list(th[1:]), jobs=8, time=1500), **kw)


HR = dict(reach=["hull", "rejected"])
P("C18", "convex polygon", [CP("relate", "relate", 0, b="every configuration of two triangles and a point, with up to two shared vertices", jobs=8, th=(0, "-DNA=4")), CP("hull5", "hull", 5, jobs=4, th=(6,), **HR), CP("order", "order", 4, jobs=4, th=(5,)),
  CP("hull4dup", "hull", 4, dup=True, jobs=2, th=(5,), **HR), CP("hull6", "hull", 6, uniform=True, jobs=8, **HR), CP("contains", "contains", 0, b="every configuration of a quadrilateral or triangle, and a point"),
  CP("equal", "equal", 0, b="all cycles of 3 or 4 of 5 vertices", jobs=2)])
