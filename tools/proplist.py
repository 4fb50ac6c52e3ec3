RS = ["src/RangeSet.cc", INC + "RangeSet.h"]
P("C01", "RangeSet operations are exact set algebra over [0, 2^64)",
  "Inserting or erasing a range, and the union, intersection, difference, symmetric difference and complement of two RangeSets (with or without assignment) contain an unsigned 64-bit integer exactly when the corresponding mathematical set does, for ranges that wrap around, touch 2^64 or are full included. The operands that are not assigned to are unchanged. The outcome does not depend on the order in which ranges are given.",
  "All sets built from up to KA x KB ranges with arbitrary 64-bit end points, all inserted/erased ranges, every integer x for membership.",
  "The tests use a handful of small integer sets; end points at 2^64, wrap-around, equal or adjacent end points in combination with each operator are a huge space of cases.",
  RS, [("sorted boundary vector with sentinels at 0 and end", "src/RangeSet.cc: _insert, _erase, _intersectOne, _intersect, _begin flag"), ("De Morgan implementation of union/difference through complemented offsets", "include/lsst/sphgeom/RangeSet.h: join, difference, operator~")],
  [("_ranges", "sorted range boundaries", INC + "RangeSet.h"), ("_begin", "whether the first boundary belongs to the set", INC + "RangeSet.h")],
  ["RangeSet public API"],
  "Bounds: operands of at most 2 ranges each (3 for single-operand operations in the thorough tier), all 64-bit end points; one operation per path. Larger sets are outside the claim.")
P("C02", "RangeSets are canonical: sorted, maximal ranges, faithfully iterated",
  "A RangeSet always presents its contents as sorted, non-empty, disjoint, non-adjacent ranges, so equal sets compare equal; size, emptiness, fullness and cardinality agree with them, and complement iteration yields the exact complement. Iterators obey random-access arithmetic. Construction from integers, pairs, and lists gives the union of the arguments.",
  "All sets of up to 3 ranges with arbitrary 64-bit end points, and all iterator offsets inside them.",
  "Tests check a few constructed sets; canonical form has to hold for every pattern of adjacency and wrap-around, and iterator arithmetic for every offset.",
  RS, [("iterator arithmetic and sentinels", INC + "RangeSet.h: Iterator, beginc/endc"), ("merging on insertion", "src/RangeSet.cc: _insert")],
  [("_ranges", "sorted range boundaries", INC + "RangeSet.h")], ["begin/end/beginc/endc, size, cardinality, =="],
  "Bounds: up to 3 ranges.")
P("C03", "RangeSet predicates agree with set membership",
  "intersects, contains, isWithin and isDisjointFrom on integers, ranges and RangeSets return exactly what the corresponding statement about members says, including for empty, full and wrapping ranges. Duality (within vs. contains, disjoint vs. intersects) always holds.",
  "All sets of up to 2 ranges against all integers, all ranges, and all other sets of up to 2 ranges.",
  "Predicates have many boundary cases (touching, wrapping, full) that examples sample only sparsely.",
  RS, [("binary search on boundaries", "src/RangeSet.cc: _intersects, _contains, _find")], [], ["RangeSet predicates"],
  "Bounds: sets of at most 2 ranges, 3 in the thorough tier; every 64-bit value.")
P("C04", "RangeSet simplify and scale give the exact documented superset/multiple",
  "Simplifying by n replaces every range by the smallest enclosing range aligned to 2^n and never loses a member; scaling by i multiplies every range end point by i. Both leave a canonical set; simplifying by 0 and scaling by 1 change nothing.",
  "All sets of up to 2 ranges, all n in 0..65 and all scale factors that do not overflow.",
  "n is a shift amount with edge cases at 0, 63, 64 and overflow at the top of the range; examples test two or three of them.",
  RS, [("boundary rounding with wrap handling", "src/RangeSet.cc: simplify, scale")], [], ["RangeSet::simplify/simplified/scale/scaled"],
  "Bounds: sets of at most 2 ranges; all n up to 65.")
P("C05", "Morton, Hilbert and log2 index functions are exact inverse bijections",
  "Interleaving two 32-bit coordinates to a Morton index and back is the identity in both directions; the Hilbert curve index of a grid point inverts to that point at every order and consecutive indices are grid neighbours; the integer base-2 logarithm is exact, with 0 for 0. The vectorised and portable implementations of the curve helpers agree.",
  "All 2^64 inputs of each function (log2 and Morton), and all orders/points of the Hilbert mappings within the stated bounds.",
  "Bit-twiddling functions over 64-bit words with lookup tables: one wrong mask bit or table entry affects only specific inputs that sampled tests miss.",
  [INC + "curve.h"], [("magic-mask bit interleaving, SSE2 variant", INC + "curve.h: mortonIndex, mortonIndexInverse"), ("lookup-table state machine", INC + "curve.h: mortonToHilbert, hilbertToMorton"), ("perfect-hash log2", INC + "curve.h: log2")], [],
  ["curve.h functions"], "Bounds: Morton and log2: every input; Hilbert: every index of the checked orders.")
P("C06", "BigInteger arithmetic is exact and canonical or reports overflow",
  "Addition, subtraction, multiplication, and multiplication by powers of two on arbitrary-precision integers give the exact result with the right sign and no leading zero digits, also when an operand is the object itself. When the result does not fit in the digit buffer an overflow error is raised instead of writing past it.",
  "All digit values for operands of up to 3 digits (multiplication 3 x 2), all signs, all buffer capacities up to the result size, all aliasing patterns.",
  "Carry and borrow chains, leading-zero stripping and capacity checks depend on rare digit patterns; tests check a few dozen constants.",
  ["src/BigInteger.cc", INC + "BigInteger.h"], [("schoolbook digit loops", "src/BigInteger.cc: _add, _sub, _mul"), ("capacity checks and canonical trimming", "src/BigInteger.cc: add/subtract/multiply, BigInteger.h: _trim, _checkCapacity")],
  [("_digits/_size/_sign", "sign-magnitude value", INC + "BigInteger.h")], ["BigInteger public API"],
  "Bounds: operands of at most 3 digits (multiply: 3 by 2, 3 by 3 in the thorough tier).")
P("C10", "Interval1d and AngleInterval behave as closed intervals of the real line",
  "For Interval1d and AngleInterval, every predicate (isEmpty, contains, intersects, isDisjointFrom, isWithin, relate, equality) on scalars and intervals says exactly what the closed sets [a, b] say, with NaN or unordered end points meaning the empty set. clipTo is the exact intersection and expandTo the smallest enclosing interval, in both the assigning and returning forms. Dilating by a non-negative amount never loses a point and moves the end points out by that amount; eroding by more than half the size gives the empty interval.",
  "Every pair of double end points, including NaN, infinities, signed zeros and unordered pairs, every scalar and dilation amount.",
  "Three predicates over five kinds of end points each have dozens of orderings; tests try a few numbers.",
  [INC + "Interval.h", INC + "Interval1d.h", INC + "AngleInterval.h"],
  [("comparisons arranged so that NaN means empty", INC + "Interval.h: isEmpty, contains, isDisjointFrom"), ("min/max updates", INC + "Interval.h: clipTo, expandTo, dilateBy")],
  [("_a, _b", "end points", INC + "Interval.h")], ["Interval1d and AngleInterval public API"], "No bounds beyond the 64-bit double inputs; a single operation per path.")
P("C11", "NormalizedAngle(Interval) behave as angles and arcs of the circle",
  "Normalizing an angle yields a value in [0, 2 pi] and leaves values already in that range unchanged; getAngleTo is in that range and the distance between two angles in [0, pi] and symmetric. For NormalizedAngleInterval, wrapping or not, the predicates (isEmpty, isFull, wraps, contains, intersects, isDisjointFrom, isWithin, relate, equality) say exactly what the closed arcs say. clipTo contains the intersection, is empty only for disjoint operands, and is exact when the intersection is an arc; expandTo contains both operands and is their exact union when they overlap; dilation by a positive angle never loses a point, by a negative angle never gains one. Construction rejects unordered end points outside [0, 2 pi].",
  "Every pair of arcs with double end points in [0, 2 pi] or NaN, every angle for membership, every dilation amount.",
  "Wrap-around makes each operation a case analysis over cyclic orders of four end points plus ties and NaN; examples cover a few of them.",
  ["src/NormalizedAngle.cc", "src/NormalizedAngleInterval.cc", INC + "NormalizedAngle.h", INC + "NormalizedAngleInterval.h"],
  [("case analysis on wraps()", "src/NormalizedAngleInterval.cc: contains, isDisjointFrom, isWithin, relate, clipTo, expandTo, dilatedBy"), ("normalization by fmod", "src/NormalizedAngle.cc, include/lsst/sphgeom/NormalizedAngle.h")],
  [("_a, _b", "end points in [0, 2 pi], wrapping if a > b", INC + "NormalizedAngleInterval.h")], ["NormalizedAngle, NormalizedAngleInterval public API"],
  "fmod is modelled by its defining bounds; construction is checked for finite end points. Minimality of clipTo is claimed only when the operands do not meet at both ends.")
RG = ["src/Region.cc", "src/Box.cc", "src/Circle.cc", "src/ConvexPolygon.cc", "src/Ellipse.cc", "src/CompoundRegion.cc", INC + "codec.h"]
P("C08", "Encoding a region and decoding it reproduces the region",
  "Region::encode emits a one byte type code followed by the region's fields as little-endian 64-bit values in the documented order (for compound regions: the size and encoding of each operand in order). Decoding such bytes, through the concrete class or through Region::decode, yields a region of the same type with bit-identical fields that compares equal to the original and re-encodes to the same bytes; clones too. A union never decodes as an intersection or vice versa. The portable and optimized codecs produce the same bytes.",
  "Every field value of every region type (all doubles, NaN included), polygons of 3 or 4 vertices, all compound regions of nesting depth up to 2.",
  "Tests round-trip a few regions; swapped fields, lost bits, or a wrong nested size show only for particular values or type combinations.",
  RG, [("fixed field order, raw IEEE bits", "encode/decode in src/{Box,Circle,ConvexPolygon,Ellipse}.cc"), ("type dispatch", "src/Region.cc: Region::decode"), ("nested length prefixes", "src/CompoundRegion.cc: _encode, _decode")],
  [], ["encode, decode, clone, accessors"], "Bounds: polygons of 3 or 4 vertices; compound nesting depth 2.")
P("C09", "Decoding arbitrary bytes is memory-safe and accepts only valid encodings",
  "Decoding any byte string, of any length and content, reads nothing outside of it and either throws std::runtime_error (or std::invalid_argument for a box with impossible longitudes) or returns a region. What is accepted has exactly the size of an encoding of its type, and, boxes aside, re-encodes to the very same bytes. Null buffers are rejected.",
  "All byte strings up to the stated lengths, and compound encodings with every value of the operand size fields.",
  "Malformed input is an unbounded space: size fields that overrun or wrap around, truncated tails, surplus bytes, wrong type codes.",
  RG, [("size and type checks before reading", "decode in src/{Box,Circle,ConvexPolygon,Ellipse}.cc"), ("operand sizes checked against the end of the buffer", "src/CompoundRegion.cc: _decode")],
  [], ["Region::decode and the decode of each class"],
  "Bounds: 34 arbitrary bytes (50 thorough) with compound types nested arbitrarily; 121 bytes for the simple types; compound regions of circles, ellipses and polygons up to 140 bytes (260 thorough) with arbitrary sizes.", over=("inputs",))
P("C12", "Boxes behave as products of a longitude arc and a latitude interval",
  "A Box is empty exactly when either of its intervals is, and then both are; latitudes never leave [-pi/2, pi/2]. contains, intersects, isDisjointFrom, isWithin, relate, equality and isFull, on points and boxes, and relate through the Region interface, say what the product of the closed arc and the closed latitude interval says. clipTo contains the intersection of the operands, and is exact when that is a box; expandTo contains both operands. Dilation never loses a point, erosion never gains one, and the poles are never treated as boundaries; dilating by a radius covers halfWidthForCircle, which is pi when the circle contains a pole and 0 for an empty circle.",
  "Every pair of boxes with double bounds, wrapping, full, pole-touching, degenerate or empty ones included; every point; every dilation amount.",
  "Wrap-around in longitude, poles in latitude and emptiness of one component interact; examples sample few of the combinations.",
  ["src/Box.cc", INC + "Box.h", "src/NormalizedAngleInterval.cc"],
  [("emptiness of both intervals enforced together", INC + "Box.h: _enforceInvariants, clipTo"), ("pole-aware dilation", "src/Box.cc: dilateBy"), ("predicates by component", INC + "Box.h: contains, intersects, relate")],
  [("_lon, _lat", "longitude arc and latitude interval", INC + "Box.h")], ["Box public API"],
  "sin, cos, asin and sqrt are uninterpreted functions with documented ranges and signs, so the exact width of a dilation by radius is outside the claim. Dilation is checked one axis at a time.")
P("C13", "Box3d behaves as a product of three closed intervals",
  "A Box3d is empty exactly when any of its intervals is, and then all are. contains, intersects, isDisjointFrom, isWithin, relate and equality, on vectors and boxes, say what the product of the closed intervals says; clipTo is the exact intersection; expandTo is the smallest box with both operands in it; dilation by a non-negative amount never loses a point, by a negative amount never gains one, and eroding by more than half a side gives the empty box. Center, width, height and depth agree with the intervals.",
  "Every pair of boxes with double bounds (infinite and empty ones included), every vector, every dilation amount.",
  "Six bounds and three axes make many combinations of overlap, touching and emptiness, of which examples sample few; a mistake on one axis shows only there.",
  [INC + "Box3d.h", "src/Box3d.cc", INC + "Interval.h"],
  [("component-wise predicates and updates", INC + "Box3d.h"), ("emptiness of all intervals enforced together", INC + "Box3d.h: _enforceInvariants")],
  [("_intervals", "one interval per axis", INC + "Box3d.h")], ["Box3d public API"],
  "Dilation is checked one axis at a time; boxes have no NaN bounds unless empty.")
P("C16", "Pixel envelopes never miss a pixel, interiors never include a bad one",
  "For the HTM, Q3C and MQ3C pixelizations: envelope(r, maxRanges) contains every pixel that intersects r, whatever maxRanges is; interior(r, maxRanges) contains only pixels inside r; with maxRanges 0 neither misses nor adds a pixel with respect to the pixel/region test; otherwise the result has at most maxRanges ranges. This holds for circles, boxes, polygons, unions and intersections; ellipses are approximated by a circle around them for envelopes, and by a circle inside them for interiors.",
  "Every region made of the stated number of symbolic pixels of any level (intersecting or within), every cap up to the stated one.",
  "Which pixels a region touches, in which order the traversal meets them and when the cap lowers the level is a combinatorial space; a lost root pixel or a merged range that is too small shows only for particular patterns.",
  ["src/PixelFinder.h", "src/HtmPixelization.cc", "src/Q3cPixelization.cc", "src/Mq3cPixelization.cc", "src/RangeSet.cc", INC + "Pixelization.h"],
  [("top-down traversal", "src/PixelFinder.h: visit"), ("level reduction and simplification under the cap", "src/PixelFinder.h: _insert"), ("subdivision of a pixel", "HtmPixelFinder, Q3cPixelFinder, Mq3cPixelFinder: subdivide"), ("dispatch on the region type", "src/PixelFinder.h: findPixels")],
  [("_level", "current subdivision level, lowered to honour the cap", "src/PixelFinder.h"), ("_ranges", "pixels found", "src/PixelFinder.h")], ["Pixelization::envelope and interior"],
  "The test of one pixel polygon against the region (detail::relate) is replaced by an oracle that answers for the symbolic region; its floating point accuracy is not part of the claim. Levels 0 to 2 (3 thorough).")

P("C14", "Pixel indexes are valid, nested, and identify the pixel of a point",
  "For HTM, Q3C and MQ3C: exactly the levels 0 to MAX_LEVEL can be constructed; universe() is the set of valid indexes; level(i) is the level of i, or -1 for an integer that is no index; functions of an index throw std::invalid_argument for invalid ones; strings are the root followed by a base 4 digit per level, so distinct pixels have distinct strings. The index of any point is a valid index; for Q3C and MQ3C its cube face is one whose component is largest; for HTM the triangle of the index contains the point (given the side of the point on each great circle), and the index at a level is the parent of that at the next.",
  "Every 64-bit integer, level and point (HTM: every combination of sides on the great circles of the subdivision).",
  "Tests use a few indexes and random points; wrong behaviour confined to the border of two pixels or faces, a single level or an index just outside the valid range is not sampled.",
  ["src/HtmPixelization.cc", "src/Q3cPixelization.cc", "src/Mq3cPixelization.cc", "src/Q3cPixelizationImpl.h", INC + "HtmPixelization.h", INC + "Q3cPixelization.h", INC + "Mq3cPixelization.h", INC + "Pixelization.h"],
  [("index validation", "HtmPixelization::level, Mq3cPixelization::level, Q3cPixelization::quad"), ("choice of the cube face", "src/Q3cPixelizationImpl.h: faceNumber, FACE_NUM tables"), ("clamping of grid coordinates", "src/Q3cPixelizationImpl.h: faceToGrid"), ("descent", "HtmPixelization::index, triangle"), ("formatting", "asString, toString")],
  [("_level", "subdivision level", INC + "Q3cPixelization.h")], ["index, level, quad/triangle, pixel, toString, universe"],
  "HtmPixelization::pixel(i) and the static functions accept the pixels of every level. The rounding of vertices and grid coordinates is not part of the claim: Q3C/MQ3C grid cells are checked on representative points only. Levels 0 to 3 for HTM descent.")
P("C15", "Q3C and MQ3C neighborhoods are exactly the pixels sharing a vertex",
  "neighborhood(i) contains i and exactly the valid pixels of the same level that share at least one vertex with pixel i (cube corner pixels have 7 neighbors, others 8, and 4 at level 0), each once; in particular it is symmetric.",
  "Every pair of pixels (i, j) of the stated levels.",
  "Only pixels at cube edges and corners exercise wrapping between faces, and each of the 24 directed edges has its own orientation; tests compare a few of them.",
  ["src/Q3cPixelization.cc", "src/Mq3cPixelization.cc", INC + "Q3cPixelization.h", INC + "Mq3cPixelization.h"],
  [("wrapping to adjacent faces", "src/Q3cPixelization.cc, src/Mq3cPixelization.cc: wrapIndex"), ("collection of neighbors", "findNeighborhood"), ("pixel vertices", "makeQuad, quad")],
  [("_level", "subdivision level", INC + "Q3cPixelization.h")], ["neighborhood, quad"],
  "Vertices are integer points on the cube; that pixel polygons have them as vertices is checked at levels 0 to 2. Space filling curves are abstracted by another bijection (their correctness is C05).")

P("C17", "Unions and intersections behave as the point sets they denote",
  "A UnionRegion (IntersectionRegion) contains exactly the points that either (both) of its operands contain; relate, through every overload and with the compound on either side, is sound for the denoted sets if it is for the operands, and as precise as the relationships of the operands allow; getBoundingBox, getBoundingBox3d and getBoundingCircle contain the union (intersection) of the operands' bounds; operands are deep copied by construction, copying and clone, keep their order and type, and getRegions returns copies of the two operands of a compound, or of a simple region itself.",
  "Every pair (or nested triple, on both sides of relate) of operands as subsets of a universe of four points, every sound relationship between them, and every latitude or coordinate interval as bounds.",
  "Correctness depends on combinations of relationships and nesting, including degenerate ones (empty operands are both disjoint and within); the tests relate a few circles and boxes.",
  ["src/CompoundRegion.cc", "src/Region.cc", INC + "CompoundRegion.h", INC + "Region.h", INC + "Relationship.h"],
  [("combination of relationships", "UnionRegion::relate, IntersectionRegion::relate"), ("combination of bounds", "getUnionBounds, getIntersectionBounds"), ("ownership of operands", INC + "CompoundRegion.h: _operands"), ("decomposition", "Region::getRegions")],
  [("_operands", "owned operands", INC + "CompoundRegion.h")], ["contains, relate, bounds, clone, getRegions"],
  "Operands are harness-defined Region subclasses (symbolic sets), so their geometry is not involved; unions and intersections of bounding circles are abstracted as set operations.")

P("C20", "Chunkers partition the sphere into valid, distinct, findable chunks",
  "A Chunker can be constructed exactly when both numbers are positive and there are at most 180*3600 sub-stripes in all. valid(id) holds exactly for the ids of getAllChunks, which are distinct, ascending, and have stripes within range, and each chunk has distinct, ascending sub-chunk ids. Every point of the sphere is in the bounding box of some chunk, and every point of a chunk is in one of its sub-chunks, which lie inside it. getChunksIntersecting and getSubChunksIntersecting find a chunk and a sub-chunk with each point of a region, nothing twice, nothing invalid, nothing that is disjoint from the region, and all sub-chunks of chunks inside the region.",
  "Every point of the sphere; regions bounded by longitudes or latitudes at, near and between borders of (sub-)chunks and stripes; every 32-bit chunk id and pair of constructor arguments.",
  "The borders of chunks in longitude are different in each stripe and computed with rounding; a missed neighbor, or wrong handling of wrap-around, depends on the exact position and extent of the region.",
  ["src/Chunker.cc", INC + "Chunker.h"],
  [("epsilon around stripes and chunks", "src/Chunker.cc: getStripesBetween-like loops of getChunksIntersecting, _getSubChunks"), ("number of segments per stripe", "src/Chunker.cc: Chunker, computeNumSegments"), ("id arithmetic", INC + "Chunker.h: _getChunkId, getStripe, getChunk; src/Chunker.cc: valid, getAllChunks")],
  [("_stripes, _numChunksPerStripe, _maxSubChunksPerSubStripeChunk", "geometry of stripes", INC + "Chunker.h")], ["getAllChunks, valid, getChunksIntersecting, getSubChunksIntersecting, bounding boxes"],
  "Up to 5 stripes (7 in the thorough tier) with up to 2 sub-stripes each; of the pairs that are to be accepted only 6 are constructed, and one of each pair of positive numbers to be rejected is from a list of 11. Regions relate honestly to boxes with respect to one symbolic point; the bounds of regions are representative values, the point is symbolic.")

P("C18", "Convex polygons are the hulls of their points, whatever their position",
  "The convex hull of a set of points exists exactly when the points lie in an open hemisphere and not on one great circle; otherwise std::invalid_argument is thrown. Its vertices are among the points, distinct and counter-clockwise with no three on a great circle, and it contains every given point. It does not depend on order or repetition of the points. contains(v) holds exactly for the points on the left of, or on, every edge. relate says DISJOINT only for polygons without common points, and always when no edges cross and no vertex of either is in the other, WITHIN and CONTAINS exactly when all vertices of one are in the other. Polygons are equal exactly if their vertices are the same cycle.",
  "Every configuration (oriented matroid) of the stated numbers of points, collinear ones included; two triangles (quadrilateral and triangle) and a point in every mutual position, shared vertices included.",
  "Points exactly on a great circle through others (on the equator, say) and the order in which points are met select among many cases of the incremental hull; random points in tests are never coplanar.",
  ["src/ConvexPolygon.cc", "src/ConvexPolygonImpl.h", INC + "ConvexPolygon.h"],
  [("search of a first triangle among coplanar points", "src/ConvexPolygon.cc: findPlane, findTriangle"), ("incremental hull in place", "src/ConvexPolygon.cc: computeHull"), ("half space tests and edge crossings", "src/ConvexPolygonImpl.h: contains, relate")],
  [("_vertices", "vertices in counter-clockwise order", INC + "ConvexPolygon.h")], ["ConvexPolygon(points), getVertices, contains, relate(ConvexPolygon), =="],
  "orientation is replaced by an oracle with symbolic signs, constrained to be those of points on the sphere (chirotopes of up to 8 points, all of which are realizable); its floating point filters are outside the claim, and so are bounding boxes and circles, and relationships with circles, ellipses and boxes. Hulls of up to 5 points, 6 in general position (6 in the thorough tier).")
