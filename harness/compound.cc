// Unions and intersections of regions.
//
// Operands are harness-defined regions: subsets of a universe of four points, given by symbolic
// bit masks, with symbolic bounds.
#include <cmath>
#include <cstdlib>
#include <memory>
#include <stdexcept>
#include <vector>
#include "lsst/sphgeom/Box.h"
#include "lsst/sphgeom/Box3d.h"
#include "lsst/sphgeom/Circle.h"
#include "lsst/sphgeom/CompoundRegion.h"
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/Ellipse.h"
#include "vf.h"
using namespace lsst::sphgeom;

static UnitVector3d atom(int k) { return UnitVector3d::fromNormalized(k == 0, k == 1, k == 2); }
static int live = 0;  // number of SetRegions
static bool exact = false;

struct SetRegion : Region {
    uint8_t mask;
    int id;
    uint8_t rel;  // relationship with any region that is not made of SetRegions
    double lo, hi, x0, x1;
    SetRegion(const char* name, int id_) : id(id_) {
        mask = nd8(name) & 15;
        rel = 0, lo = hi = x0 = x1 = 0.0;
        ++live;
    }
    SetRegion(SetRegion const& o) : Region(o), mask(o.mask), id(o.id), rel(o.rel), lo(o.lo), hi(o.hi), x0(o.x0), x1(o.x1) { ++live; }
    ~SetRegion() { --live; }
    std::unique_ptr<Region> clone() const override { return std::unique_ptr<Region>(new SetRegion(*this)); }
    Box getBoundingBox() const override { return Box(NormalizedAngleInterval::full(), AngleInterval(Angle(lo), Angle(hi))); }
    Box3d getBoundingBox3d() const override { return Box3d(Interval1d(x0, x1), Interval1d(x0, x1), Interval1d(x0, x1)); }
    Circle getBoundingCircle() const override { return Circle(UnitVector3d::X(), (double)mask * 0.25); }
    bool contains(UnitVector3d const& v) const override {
        int k = v.x() != 0.0 ? 0 : v.y() != 0.0 ? 1 : v.z() != 0.0 ? 2 : 3;
        return (mask >> k) & 1;
    }
    // sound, and as precise as it could be only if `exact` is set
    Relationship relate(Region const& r) const override {
        if (auto s = dynamic_cast<SetRegion const*>(&r)) {
            uint8_t b = (uint8_t)(((mask & s->mask) == 0) | ((s->mask & ~mask) == 0) << 1 | ((mask & ~s->mask) == 0) << 2);
            if (!exact) b &= (id < s->id ? nd8("relation") : nd8("relation2"));
            return Relationship(b);
        }
        if (dynamic_cast<CompoundRegion const*>(&r)) return invert(r.relate(static_cast<Region const&>(*this)));
        return Relationship(rel & 7);
    }
    Relationship relate(Box const& r) const override { return relate(static_cast<Region const&>(r)); }
    Relationship relate(Circle const& r) const override { return relate(static_cast<Region const&>(r)); }
    Relationship relate(ConvexPolygon const& r) const override { return relate(static_cast<Region const&>(r)); }
    Relationship relate(Ellipse const& r) const override { return relate(static_cast<Region const&>(r)); }
    std::vector<std::uint8_t> encode() const override { vf_unsupported(); }
};

struct Expr {
    std::unique_ptr<Region> region;
    uint8_t mask;
    bool simple, isUnion;
};
static int nextId = 0;
static std::unique_ptr<Region> join(bool u, Region const& a, Region const& b) {
    if (u) return std::unique_ptr<Region>(new UnionRegion(a, b));
    return std::unique_ptr<Region>(new IntersectionRegion(a, b));
}
static Expr leaf(const char* n) {
    SetRegion* s = new SetRegion(n, nextId++);
    return Expr{std::unique_ptr<Region>(s), s->mask, true, false};
}
// A compound of two SetRegions, or of a SetRegion and such a compound.
static Expr compound(int depth) {
    Expr a = leaf("a");
    Expr b = depth > 1 ? compound(depth - 1) : leaf("b");
    bool u = vf_choose("union", 2), swap = depth > 1 && vf_choose("swap", 2);
    Expr r;
    r.simple = false, r.isUnion = u, r.mask = u ? a.mask | b.mask : a.mask & b.mask;
    if (vf_choose("array", 2)) {
        std::array<std::unique_ptr<Region>, 2> ops;
        ops[swap] = std::move(a.region);
        ops[!swap] = std::move(b.region);
        if (u) r.region.reset(new UnionRegion(std::move(ops)));
        else r.region.reset(new IntersectionRegion(std::move(ops)));
    } else {
        r.region = swap ? join(u, *b.region, *a.region) : join(u, *a.region, *b.region);
    }
    return r;
}
static Expr any(int depth) { return vf_choose("simple", 2) ? leaf("r") : compound(depth); }

static void sameSet(Region const& r, uint8_t mask, const char* msg) {
    for (int k = 0; k < 4; ++k) VF_ASSERT(vf_split(r.contains(atom(k))) == (bool)((mask >> k) & 1), msg);
}

extern "C" void harness_contains() {
    Expr e = compound(DEPTH);
    int k = (int)vf_choose("atom", 4);
    VF_ASSERT(e.region->contains(atom(k)) == (bool)((e.mask >> k) & 1), "a compound contains the points it should");
    vf_reach("contains");
}

extern "C" void harness_relate() {
    exact = vf_choose("exact", 2);
    Expr a = compound(DEPTH), b = any(DEPTH);
    bool swapped = vf_choose("swapped", 2);
    Relationship r = swapped ? b.region->relate(static_cast<Region const&>(*a.region)) : a.region->relate(static_cast<Region const&>(*b.region));
    uint8_t x = swapped ? b.mask : a.mask, y = swapped ? a.mask : b.mask;
    VF_ASSERT(IMP((r & DISJOINT) != 0, (x & y) == 0), "disjoint regions have no common point");
    VF_ASSERT(IMP((r & CONTAINS) != 0, (y & ~x) == 0), "a containing region has all points of the other");
    VF_ASSERT(IMP((r & WITHIN) != 0, (x & ~y) == 0), "a region within another has no further points");
    vf_reach("relate");
}

// Compounds of two regions are as precise as their operands allow.
extern "C" void harness_precise() {
    exact = true;
    Expr a = compound(1), b = leaf("r");
    auto& c = static_cast<CompoundRegion&>(*a.region);
    Relationship r = c.relate(static_cast<Region const&>(*b.region));
    uint8_t m[2] = {static_cast<SetRegion const&>(c.getOperand(0)).mask, static_cast<SetRegion const&>(c.getOperand(1)).mask};
    bool dis[2], con[2], wit[2];
    for (int k = 0; k < 2; ++k) dis[k] = (m[k] & b.mask) == 0, con[k] = (b.mask & ~m[k]) == 0, wit[k] = (m[k] & ~b.mask) == 0;
    if (a.isUnion) {
        VF_ASSERT(((r & DISJOINT) != 0) == AND(dis[0], dis[1]), "a union is disjoint from a region iff both operands are");
        VF_ASSERT(((r & WITHIN) != 0) == AND(wit[0], wit[1]), "a union is within a region iff both operands are");
        VF_ASSERT(IMP(OR(con[0], con[1]), (r & CONTAINS) != 0), "a union contains a region that an operand contains");
    } else {
        VF_ASSERT(((r & CONTAINS) != 0) == AND(con[0], con[1]), "an intersection contains a region iff both operands do");
        VF_ASSERT(IMP(OR(dis[0], dis[1]), (r & DISJOINT) != 0), "an intersection is disjoint from a region that an operand is disjoint from");
        VF_ASSERT(IMP(OR(wit[0], wit[1]), (r & WITHIN) != 0), "an intersection is within a region that an operand is within");
    }
    vf_reach("precise");
}

// All overloads and both directions agree.
extern "C" void harness_overloads() {
    Expr a = compound(1);
    auto& c = static_cast<CompoundRegion&>(*a.region);
    for (int k = 0; k < 2; ++k) const_cast<SetRegion&>(static_cast<SetRegion const&>(c.getOperand(k))).rel = nd8("relation");
    Region const& r = c;
    Box box(LonLat::fromDegrees(10, 10), LonLat::fromDegrees(20, 20));
    Circle circle(UnitVector3d::X(), 0.25);
    ConvexPolygon poly(UnitVector3d::X(), UnitVector3d::Y(), UnitVector3d::Z());
    Ellipse ellipse(UnitVector3d::X(), Angle(0.25));
    Relationship r1, r2, r3;
    switch (vf_choose("type", 4)) {
        case 0: r1 = r.relate(box); r2 = r.relate(static_cast<Region const&>(box)); r3 = box.relate(r); break;
        case 1: r1 = r.relate(circle); r2 = r.relate(static_cast<Region const&>(circle)); r3 = circle.relate(r); break;
        case 2: r1 = r.relate(poly); r2 = r.relate(static_cast<Region const&>(poly)); r3 = poly.relate(r); break;
        default: r1 = r.relate(ellipse); r2 = r.relate(static_cast<Region const&>(ellipse)); r3 = ellipse.relate(r); break;
    }
    uint8_t x = static_cast<SetRegion const&>(c.getOperand(0)).rel & 7, y = static_cast<SetRegion const&>(c.getOperand(1)).rel & 7;
    uint8_t want = (uint8_t)(a.isUnion ? (x & y & 5) | ((x | y) & 2) : (x & y & 2) | ((x | y) & 5));
    VF_ASSERT(r1.to_ulong() == want, "relate, for a type of region");
    VF_ASSERT(r2.to_ulong() == want, "relate, for any region");
    VF_ASSERT(r3.to_ulong() == ((want & 1) | (want & 2) << 1 | (want & 4) >> 1), "relate, inverted");
    vf_reach("overloads");
}

// Operands belong to the compound, and copies are independent.
extern "C" void harness_operands() {
    {
        Expr a = leaf("a"), b = leaf("b");
        bool u = vf_choose("union", 2);
        uint8_t ma = a.mask, mb = b.mask, m = u ? ma | mb : ma & mb;
        std::unique_ptr<Region> r = join(u, *a.region, *b.region);
        static_cast<SetRegion&>(*a.region).mask = 0;
        static_cast<SetRegion&>(*b.region).mask = 15;
        a.region.reset();
        sameSet(*r, m, "operands are copied");
        auto& c = static_cast<CompoundRegion&>(*r);
        VF_ASSERT(static_cast<SetRegion const&>(c.getOperand(0)).mask == ma && static_cast<SetRegion const&>(c.getOperand(1)).mask == mb, "order of operands");
        std::unique_ptr<Region> d;
        switch (vf_choose("copy", 3)) {
            case 0: d = r->clone(); break;
            case 1: if (u) d.reset(new UnionRegion(static_cast<UnionRegion const&>(*r))); else d.reset(new IntersectionRegion(static_cast<IntersectionRegion const&>(*r))); break;
            default: if (u) d.reset(new UnionRegion(std::move(static_cast<UnionRegion&>(*r)))); else d.reset(new IntersectionRegion(std::move(static_cast<IntersectionRegion&>(*r)))); break;
        }
        std::vector<std::unique_ptr<Region>> ops = Region::getRegions(*d);
        VF_ASSERT(ops.size() == 2, "getRegions returns the operands of a compound");
        for (int k = 0; k < 2; ++k) {
            auto s = dynamic_cast<SetRegion const*>(ops[k].get());
            VF_ASSERT(s != nullptr && s->mask == (k ? mb : ma), "getRegions returns the operands of a compound, in order");
            VF_ASSERT(s != &static_cast<CompoundRegion&>(*d).getOperand(k), "getRegions returns copies");
        }
        r.reset();
        sameSet(*d, m, "copies are independent");
        VF_ASSERT(u == (dynamic_cast<UnionRegion*>(d.get()) != nullptr), "copies have the type of the original");
        ops = Region::getRegions(*b.region);
        VF_ASSERT(ops.size() == 1 && static_cast<SetRegion&>(*ops[0]).mask == 15 && ops[0] != b.region, "getRegions of a simple region");
        // a nested compound is not flattened, and not split
        std::unique_ptr<Region> n = join(!u, *d, *b.region);
        ops = Region::getRegions(*n);
        VF_ASSERT(ops.size() == 2, "getRegions of a nested compound");
        sameSet(*ops[0], m, "getRegions of a nested compound: first operand");
        sameSet(*ops[1], 15, "getRegions of a nested compound: second operand");
    }
    VF_ASSERT(live == 0, "operands are destroyed once");
    vf_reach("operands");
}

// Bounds. Boxes cover all longitudes and a symbolic latitude interval.
extern "C" void harness_box() {
    Expr e = compound(1);
    auto& c = static_cast<CompoundRegion&>(*e.region);
    for (int k = 0; k < 2; ++k) {
        auto& s = const_cast<SetRegion&>(static_cast<SetRegion const&>(c.getOperand(k)));
        s.lo = ndd("lo"), s.hi = ndd("hi");
        vf_assume(AND(AND(s.lo >= -1.5, s.lo <= 1.5), AND(s.hi >= -1.5, s.hi <= 1.5)));
    }
    Box b = c.getBoundingBox(), b0 = c.getOperand(0).getBoundingBox(), b1 = c.getOperand(1).getBoundingBox();
    double p = ndd("p");
    vf_assume(AND(p >= -1.5, p <= 1.5));
    LonLat v(NormalizedAngle::fromDegrees(30), Angle(p));
    bool in0 = b0.contains(v), in1 = b1.contains(v);
    VF_ASSERT(IMP(e.isUnion ? OR(in0, in1) : AND(in0, in1), b.contains(v)), "bounding box");
    VF_ASSERT(IMP(!e.isUnion, IMP(b.contains(v), AND(in0, in1))), "the bounding box of an intersection is within those of its operands");
    vf_reach("box");
}

extern "C" void harness_box3d() {
    Expr e = compound(1);
    auto& c = static_cast<CompoundRegion&>(*e.region);
    for (int k = 0; k < 2; ++k) {
        auto& s = const_cast<SetRegion&>(static_cast<SetRegion const&>(c.getOperand(k)));
        s.x0 = ndd("x0"), s.x1 = ndd("x1");
        vf_assume(AND(finite_(s.x0), finite_(s.x1)));
    }
    Box3d b = c.getBoundingBox3d(), b0 = c.getOperand(0).getBoundingBox3d(), b1 = c.getOperand(1).getBoundingBox3d();
    double p = ndd("p");
    vf_assume(finite_(p));
    bool in0 = b0.contains(p, p, p), in1 = b1.contains(p, p, p);
    VF_ASSERT(IMP(e.isUnion ? OR(in0, in1) : AND(in0, in1), b.contains(p, p, p)), "3d bounding box");
    VF_ASSERT(IMP(!e.isUnion, IMP(b.contains(p, p, p), AND(in0, in1))), "the 3d bounding box of an intersection is within those of its operands");
    vf_reach("box3d");
}

#ifdef STUB_CIRCLE
// Circles carry sets too: expandTo and clipTo give some superset of the union and intersection.
static uint8_t setOf(Circle const& c) { return (uint8_t)(c.getSquaredChordLength() * 4.0); }
Circle& vf_expand(Circle* c, Circle const& o) __asm__("_ZN4lsst7sphgeom6Circle8expandToERKS1_");
Circle& vf_expand(Circle* c, Circle const& o) {
    *c = Circle(UnitVector3d::X(), (double)(setOf(*c) | setOf(o)) * 0.25);
    return *c;
}
Circle& vf_clip(Circle* c, Circle const& o) __asm__("_ZN4lsst7sphgeom6Circle6clipToERKS1_");
Circle& vf_clip(Circle* c, Circle const& o) {
    *c = Circle(UnitVector3d::X(), (double)(setOf(*c) & setOf(o)) * 0.25);
    return *c;
}
extern "C" void harness_circle() {
    Expr e = compound(1);
    auto& c = static_cast<CompoundRegion&>(*e.region);
    for (int k = 0; k < 2; ++k) {
        auto& s = const_cast<SetRegion&>(static_cast<SetRegion const&>(c.getOperand(k)));
        s.mask = (uint8_t)vf_concrete(s.mask);
    }
    VF_ASSERT((e.mask & ~setOf(c.getBoundingCircle())) == 0, "bounding circle");
    vf_reach("circle");
}
#endif
