// Pixel finding (envelope / interior) of the HTM, Q3C and MQ3C pixelizations, for an abstract
// region. The geometric test "how does this pixel polygon relate to this region" is replaced by
// an oracle over symbolic sets of pixels; the tree traversal, the pixel geometry that identifies
// a visited pixel, the range bookkeeping and the capping of the number of ranges are the real code.
//
// A region is a union of up to K "nodes". A node is a pixel at some level 0..L; all the level L
// pixels below it intersect the region, and are within it iff the node is marked as such.
#include <cmath>
#include <vector>
#include "lsst/sphgeom/Circle.h"
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/CompoundRegion.h"
#include "lsst/sphgeom/Ellipse.h"
#include "lsst/sphgeom/Box.h"
#include "lsst/sphgeom/HtmPixelization.h"
#include "lsst/sphgeom/Q3cPixelization.h"
#include "lsst/sphgeom/Mq3cPixelization.h"
#include "lsst/sphgeom/RangeSet.h"
#include "vf.h"
using namespace lsst::sphgeom;
#ifndef PIX
#define PIX HtmPixelization
#define ROOT0 8
#define NROOTS 8
#endif
#ifndef L
#define L 1
#endif
#ifndef K
#define K 2
#endif
#ifndef MAXR
#define MAXR 2
#endif

struct Pixel { double x, y, z; uint64_t lo, hi; };
struct Node { uint64_t lo, hi; bool within; };
struct Set { Node node[K + 2]; int n; UnitVector3d id; };

static Pixel table[16 << (2 * L + 1)];
static int nPixels;
static Set sets[2];
static int nSets;
static bool called, isEllipse, isInterior;
static double alpha, beta;
static int const DISJ = (int)DISJOINT.to_ulong(), WITH = (int)WITHIN.to_ulong();

static void centroid(UnitVector3d const* b, UnitVector3d const* e, double& x, double& y, double& z) {
    x = y = z = 0;
    for (; b != e; ++b) { x += b->x(); y += b->y(); z += b->z(); }
}

static void makeTable() {
    nPixels = 0;
    for (int l = 0; l <= L; ++l) {
        PIX p(l);
        for (uint64_t i = (uint64_t)ROOT0 << (2 * l); i < (uint64_t)(ROOT0 + NROOTS) << (2 * l); ++i) {
            std::unique_ptr<Region> r = p.pixel(i);
            ConvexPolygon const& c = dynamic_cast<ConvexPolygon const&>(*r);
            Pixel& t = table[nPixels++];
            centroid(c.getVertices().data(), c.getVertices().data() + c.getVertices().size(), t.x, t.y, t.z);
            t.lo = i << (2 * (L - l));
            t.hi = (i + 1) << (2 * (L - l));
        }
    }
}

static Pixel const* lookup(UnitVector3d const* b, UnitVector3d const* e) {
    double x, y, z;
    centroid(b, e, x, y, z);
    for (int i = 0; i < nPixels; ++i) {
        if (std::fabs(table[i].x - x) < 1e-9 && std::fabs(table[i].y - y) < 1e-9 && std::fabs(table[i].z - z) < 1e-9) return &table[i];
    }
    return nullptr;
}

static int oracle(UnitVector3d const* b, UnitVector3d const* e, UnitVector3d const& id) {
    called = true;
    Pixel const* p = lookup(b, e);
    VF_ASSERT(p != nullptr, "pixels of the region search are pixels of the pixelization");
    if (!p) vf_stop();
    Set const& s = (nSets > 1 && id == sets[1].id) ? sets[1] : sets[0];
    bool touch = false;
    for (int j = 0; j < s.n; ++j) {
        Node const& d = s.node[j];
        if (vf_split(AND(d.lo <= p->lo, p->hi <= d.hi))) {
            if (vf_split(d.within)) return WITH;   // the pixel is within the region
            return 0;                          // all of it intersects only
        }
        if (vf_split(AND(d.lo < p->hi, p->lo < d.hi))) touch = true;
    }
    return touch ? 0 : DISJ;
}

// Replaces detail::relate(UnitVector3d const*, UnitVector3d const*, Circle const&).
Relationship vf_relate(UnitVector3d const* b, UnitVector3d const* e, Circle const& c)
    __asm__("_ZN4lsst7sphgeom6detail6relateIPKNS0_12UnitVector3dEEESt6bitsetILm3EET_S8_RKNS0_6CircleE");
Relationship vf_relate(UnitVector3d const* b, UnitVector3d const* e, Circle const& c) {
    if (isEllipse && !called) {
        // The circle stands for an ellipse with semi-axis angles alpha and beta.
        double r = c.getOpeningAngle().asRadians();
        VF_ASSERT(c.getCenter() == UnitVector3d::Z(), "the circle that approximates an ellipse has its center");
        if (isInterior) VF_ASSERT(AND(r <= alpha, r <= beta) || r < 0, "the circle that approximates an ellipse from the inside is inside it");
        else VF_ASSERT(AND(r >= alpha, r >= beta) || r >= PI, "the circle that approximates an ellipse from the outside contains it");
    }
    return Relationship((unsigned long long)oracle(b, e, c.getCenter()));
}

// The same for boxes and polygons; the operand is recognised by its address-independent centre.
Relationship vf_relate(UnitVector3d const* b, UnitVector3d const* e, Box const&)
    __asm__("_ZN4lsst7sphgeom6detail6relateIPKNS0_12UnitVector3dEEESt6bitsetILm3EET_S8_RKNS0_3BoxE");
Relationship vf_relate(UnitVector3d const* b, UnitVector3d const* e, Box const&) {
    return Relationship((unsigned long long)oracle(b, e, sets[0].id));
}
Relationship vf_relate(UnitVector3d const* b, UnitVector3d const* e, ConvexPolygon const&)
    __asm__("_ZN4lsst7sphgeom6detail6relateIPKNS0_12UnitVector3dEEESt6bitsetILm3EET_S8_RKNS0_13ConvexPolygonE");
Relationship vf_relate(UnitVector3d const* b, UnitVector3d const* e, ConvexPolygon const&) {
    return Relationship((unsigned long long)oracle(b, e, sets[0].id));
}

static Set& newSet(UnitVector3d const& id, int k) {
    Set& s = sets[nSets++];
    s.id = id;
    s.n = k;
    for (int j = 0; j < k; ++j) {
        int l = (int)vf_choose("level", L + 1);
        uint64_t i = nd64("node");
        vf_assume(AND(i >= (uint64_t)ROOT0 << (2 * l), i < (uint64_t)(ROOT0 + NROOTS) << (2 * l)));
        s.node[j].lo = i << (2 * (L - l));
        s.node[j].hi = (i + 1) << (2 * (L - l));
        s.node[j].within = ndb("within");
        if (j > 0) vf_assume(s.node[j - 1].hi <= s.node[j].lo);
    }
    return s;
}

static bool touches(Set const& s, uint64_t q) {
    bool r = false;
    for (int j = 0; j < s.n; ++j) r = OR(r, AND(s.node[j].lo <= q, q < s.node[j].hi));
    return r;
}
static bool within(Set const& s, uint64_t q) {
    bool r = false;
    for (int j = 0; j < s.n; ++j) r = OR(r, AND(s.node[j].within, AND(s.node[j].lo <= q, q < s.node[j].hi)));
    return r;
}
static bool member(RangeSet const& r, uint64_t q) {
    bool in = false;
    for (auto t : r) in = OR(in, AND(std::get<0>(t) <= q, OR(q < std::get<1>(t), std::get<1>(t) == 0)));
    return in;
}
static uint64_t leaf() {
    uint64_t q = nd64("q");
    vf_assume(AND(q >= (uint64_t)ROOT0 << (2 * L), q < (uint64_t)(ROOT0 + NROOTS) << (2 * L)));
    return q;
}
static UnitVector3d ID0() { return UnitVector3d(1, 0, 0); }
static UnitVector3d ID1() { return UnitVector3d(0, 1, 0); }

extern "C" void harness_simple() {
    makeTable();
    size_t cap = vf_choose("maxRanges", MAXR + 1);
    bool interior = vf_choose("interior", 2);
    Set& s = newSet(ID0(), K);
    PIX p(L);
    Circle c(ID0(), Angle(0.5));
    RangeSet r = interior ? p.interior(c, cap) : p.envelope(c, cap);
    if (!called) return;   // another implementation: nothing is decided here
    uint64_t q = leaf();
    bool in = member(r, q);
    if (interior) {
        VF_ASSERT(IMP(in, within(s, q)), "interior pixels are inside the region");
        if (cap == 0) VF_ASSERT(in == within(s, q), "all pixels inside the region are found");
    } else {
        VF_ASSERT(IMP(touches(s, q), in), "envelope contains every pixel that intersects the region");
        if (cap == 0) VF_ASSERT(in == touches(s, q), "pixels disjoint from the region are not in its envelope");
    }
    if (cap) VF_ASSERT(r.size() <= cap, "the number of ranges is at most maxRanges");
    vf_reach("simple");
}

static void check(PIX const& p, Region const& g, bool interior, size_t cap, Set const& s) {
    RangeSet r = interior ? p.interior(g, cap) : p.envelope(g, cap);
    if (!called) return;
    uint64_t q = leaf();
    bool in = member(r, q);
    if (interior) VF_ASSERT(IMP(in, within(s, q)), "interior pixels are inside the region");
    else VF_ASSERT(IMP(touches(s, q), in), "envelope contains every pixel that intersects the region");
    if (cap) VF_ASSERT(r.size() <= cap, "the number of ranges is at most maxRanges");
}

// Every type of region is searched for in the same way.
extern "C" void harness_types() {
    makeTable();
    bool interior = vf_choose("interior", 2);
    Set& s = newSet(ID0(), K);
    PIX p(L);
    if (vf_choose("type", 2)) {
        check(p, Box::fromRadians(0, 0, 0.5, 0.5), interior, 0, s);
    } else {
        check(p, ConvexPolygon(UnitVector3d::X(), UnitVector3d::Y(), UnitVector3d::Z()), interior, 0, s);
    }
    vf_reach("types");
}

extern "C" void harness_ellipse() {
    makeTable();
    isEllipse = true;
    isInterior = vf_choose("interior", 2);
    newSet(UnitVector3d::Z(), 0);
    // An ellipse centered on the north pole with arbitrary semi-axis angles.
    double a = ndd("a"), b = ndd("b"), w[14] = {1, 0, 0, 0, 1, 0, 0, 0, 1, a, b, 0.5, 1, 1};
    vf_assume(AND(AND(a >= -1.5, a <= 1.5), AND(b >= -1.5, b <= 1.5)));
    std::vector<uint8_t> bytes(1, (uint8_t)'e');
    for (double d : w) for (int i = 0; i < 8; ++i) bytes.push_back((uint8_t)(bitsof(d) >> (8 * i)));
    std::unique_ptr<Ellipse> e = Ellipse::decode(bytes);
    alpha = e->getAlpha().asRadians();
    beta = e->getBeta().asRadians();
    PIX p(L);
    RangeSet r = isInterior ? p.interior(*e, 0) : p.envelope(*e, 0);
    if (!called) return;
    VF_ASSERT(r.empty(), "pixels disjoint from the ellipse are not found");
    vf_reach("ellipse");
}

extern "C" void harness_compound() {
    makeTable();
    size_t cap = vf_choose("maxRanges", MAXR + 1);
    bool interior = vf_choose("interior", 2);
    bool inter = vf_choose("intersection", 2);
    Set& a = newSet(ID0(), K);
    Set& b = newSet(ID1(), 1);
    PIX p(L);
    Circle ca(ID0(), Angle(0.5)), cb(ID1(), Angle(0.5));
    UnionRegion u(ca, cb);
    IntersectionRegion n(ca, cb);
    Region const& g = inter ? (Region const&)n : (Region const&)u;
    RangeSet r = interior ? p.interior(g, cap) : p.envelope(g, cap);
    if (!called) return;
    uint64_t q = leaf();
    bool in = member(r, q), ta = touches(a, q), tb = touches(b, q), wa = within(a, q), wb = within(b, q);
    if (interior) {
        if (inter) VF_ASSERT(IMP(in, AND(wa, wb)), "interior pixels are inside both operands of an intersection");
        else VF_ASSERT(IMP(in, OR(OR(wa, wb), AND(ta, tb))), "interior pixels are inside the union of the operands");
        if (cap == 0) VF_ASSERT(IMP(inter ? AND(wa, wb) : OR(wa, wb), in), "pixels inside the compound region are found");
    } else {
        if (inter) VF_ASSERT(IMP(OR(AND(wa, tb), AND(ta, wb)), in), "envelope contains every pixel that intersects the intersection");
        else VF_ASSERT(IMP(OR(ta, tb), in), "envelope contains every pixel that intersects the union");
        if (cap == 0) VF_ASSERT(IMP(in, inter ? AND(ta, tb) : OR(ta, tb)), "pixels disjoint from the compound region are not in its envelope");
    }
    if (cap) VF_ASSERT(r.size() <= cap, "the number of ranges is at most maxRanges");
    vf_reach("compound");
}
