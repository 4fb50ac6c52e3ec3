// Interval1d and AngleInterval against the set of reals they denote, for every pair of
// intervals with arbitrary double end points (NaN, infinities and signed zeros included).
// Membership is judged at an arbitrary double p.
#include "vf.h"
#include "lsst/sphgeom/Interval1d.h"
#include "lsst/sphgeom/AngleInterval.h"
#include "lsst/sphgeom/Relationship.h"
using namespace lsst::sphgeom;
#ifdef ANGLE
typedef AngleInterval I;
typedef Angle S;
static double val(Angle a) { return a.asRadians(); }
#else
typedef Interval1d I;
typedef double S;
static double val(double a) { return a; }
#endif
static bool inS(double a, double b, double p) { return AND(a <= p, p <= b); }
static bool emptyS(double a, double b) { return !(a <= b); }
static bool bit(Relationship r, Relationship b) { return (r & b).any(); }

extern "C" void harness_pair() {
    double a = ndd("a"), b = ndd("b"), c = ndd("c"), d = ndd("d"), p = ndd("p");
    vf_assume(!isnan_(p));
    I x{S(a), S(b)}, y{S(c), S(d)};
    bool ex = emptyS(a, b), ey = emptyS(c, d);
    VF_ASSERT(x.isEmpty() == ex, "isEmpty iff no double lies between the end points");
    bool px = inS(a, b, p), py = inS(c, d, p);
    VF_ASSERT(x.contains(S(p)) == px, "contains(point)");
    VF_ASSERT(x.intersects(S(p)) == px, "intersects(point)");
    VF_ASSERT(x.isDisjointFrom(S(p)) == !px, "isDisjointFrom(point)");
    VF_ASSERT(x.isWithin(S(p)) == OR(ex, AND(a == p, b == p)), "isWithin(point)");
    VF_ASSERT((x == S(p)) == AND(a == p, b == p), "equality with a point");
    VF_ASSERT((x != S(p)) == !(x == S(p)), "!= is the negation of ==");
    // relations between intervals: universally quantified over p one way, witnessed the other
    bool cont = x.contains(y), dis = x.isDisjointFrom(y);
    VF_ASSERT(cont == OR(ey, AND(inS(a, b, c), inS(a, b, d))), "contains(interval) is the subset relation");
    VF_ASSERT(IMP(AND(cont, py), px), "every point of a contained interval is contained");
    VF_ASSERT(dis == OR(OR(ex, ey), !OR(inS(a, b, c), inS(c, d, a))), "isDisjointFrom(interval) iff there is no common point");
    VF_ASSERT(IMP(AND(px, py), !dis), "a common point precludes disjointness");
    VF_ASSERT(x.intersects(y) == !dis, "intersects is the negation of isDisjointFrom");
    VF_ASSERT(x.isWithin(y) == y.contains(x), "isWithin is the converse of contains");
    bool eq = x == y;
    VF_ASSERT(eq == AND(cont, y.contains(x)), "equality is mutual containment");
    VF_ASSERT((x != y) == !eq, "!= is the negation of ==");
    vf_observe(eq + 2 * cont + 4 * dis);
    vf_reach("pair");
}
extern "C" void harness_relate() {
    double a = ndd("a"), b = ndd("b"), c = ndd("c"), d = ndd("d"), p = ndd("p");
    I x{S(a), S(b)}, y{S(c), S(d)};
    Relationship r = x.relate(y);
    VF_ASSERT(bit(r, DISJOINT) == x.isDisjointFrom(y), "DISJOINT bit");
    VF_ASSERT(bit(r, CONTAINS) == x.contains(y), "CONTAINS bit");
    VF_ASSERT(bit(r, WITHIN) == x.isWithin(y), "WITHIN bit");
    Relationship q = y.relate(x);
    VF_ASSERT(AND(bit(q, DISJOINT) == bit(r, DISJOINT), AND(bit(q, CONTAINS) == bit(r, WITHIN), bit(q, WITHIN) == bit(r, CONTAINS))), "relate inverts when the operands are swapped");
    Relationship s = x.relate(S(p));
    bool ep = isnan_(p);      // NaN denotes the empty set
    VF_ASSERT(bit(s, DISJOINT) == OR(ep, x.isDisjointFrom(S(p))), "DISJOINT bit for a point");
    VF_ASSERT(bit(s, CONTAINS) == x.contains(S(p)), "CONTAINS bit for a point");
    VF_ASSERT(bit(s, WITHIN) == x.isWithin(S(p)), "WITHIN bit for a point");
    vf_observe(r.to_ulong());
    vf_reach("relate");
}
extern "C" void harness_clip() {
    double a = ndd("a"), b = ndd("b"), c = ndd("c"), d = ndd("d"), p = ndd("p"), q = ndd("q");
    vf_assume(!isnan_(p));
    I x{S(a), S(b)}, y{S(c), S(d)};
    bool px = inS(a, b, p), py = inS(c, d, p);
    I z = x.clippedTo(y);
    VF_ASSERT(z.contains(S(p)) == AND(px, py), "clippedTo(interval) is the exact intersection");
    VF_ASSERT(IMP(x.isDisjointFrom(y), z.isEmpty()), "clipping disjoint intervals yields an empty one");
    I w = x;
    w.clipTo(y);
    VF_ASSERT(w == z, "clipTo and clippedTo agree");
    I t = x.clippedTo(S(q));
    VF_ASSERT(t.contains(S(p)) == AND(px, p == q), "clippedTo(point) is the exact intersection");
    I u = x;
    u.clipTo(S(q));
    VF_ASSERT(u == t, "clipTo and clippedTo agree for points");
    vf_observe(bitsof(val(z.getA())) != 0);
    vf_reach("clip");
}
extern "C" void harness_expand() {
    double a = ndd("a"), b = ndd("b"), c = ndd("c"), d = ndd("d"), p = ndd("p"), q = ndd("q");
    vf_assume(!isnan_(p));
    I x{S(a), S(b)}, y{S(c), S(d)};
    bool ex = emptyS(a, b), ey = emptyS(c, d);
    bool px = inS(a, b, p), py = inS(c, d, p);
    I z = x.expandedTo(y);
    VF_ASSERT(IMP(OR(px, py), z.contains(S(p))), "expandedTo(interval) contains both operands");
    VF_ASSERT(IMP(AND(ex, ey), z.isEmpty()), "the union of empty intervals is empty");
    // minimality: the end points of the result are end points of the operands
    double za = val(z.getA()), zb = val(z.getB());
    VF_ASSERT(OR(z.isEmpty(), AND(OR(AND(!ex, za == a), AND(!ey, za == c)), OR(AND(!ex, zb == b), AND(!ey, zb == d)))), "expandedTo(interval) is minimal");
    I w = x;
    w.expandTo(y);
    VF_ASSERT(w == z, "expandTo and expandedTo agree");
    I t = x.expandedTo(S(q));
    bool eq = isnan_(q);
    VF_ASSERT(IMP(OR(px, p == q), t.contains(S(p))), "expandedTo(point) contains both operands");
    VF_ASSERT(t.isEmpty() == AND(ex, eq), "only empty operands give an empty union");
    double ta = val(t.getA()), tb = val(t.getB());
    VF_ASSERT(OR(t.isEmpty(), AND(OR(AND(!ex, ta == a), ta == q), OR(AND(!ex, tb == b), tb == q))), "expandedTo(point) is minimal");
    I u = x;
    u.expandTo(S(q));
    VF_ASSERT(u == t, "expandTo and expandedTo agree for points");
    vf_observe(z.isEmpty());
    vf_reach("expand");
}
extern "C" void harness_dilate() {
    double a = ndd("a"), b = ndd("b"), r = ndd("r"), p = ndd("p");
    I x{S(a), S(b)};
    vf_assume(!isnan_(p));
    bool ex = emptyS(a, b);
    I z = x.dilatedBy(typename std::conditional<std::is_same<S, double>::value, double, Angle>::type(r));
    bool px = inS(a, b, p);
    bool fin = AND(AND(finite_(a), finite_(b)), finite_(r));
    VF_ASSERT(IMP(ex, z.isEmpty()), "dilating or eroding an empty interval has no effect");
    VF_ASSERT(IMP(OR(isnan_(r), r == 0), z == x), "dilating by 0 or NaN has no effect");
    VF_ASSERT(IMP(AND(fin, AND(r >= 0, px)), z.contains(S(p))), "dilation by a positive amount is extensive");
    VF_ASSERT(IMP(AND(fin, AND(r <= 0, z.contains(S(p)))), px), "dilation by a negative amount is anti-extensive");
    VF_ASSERT(IMP(AND(fin, AND(!ex, !z.isEmpty())), AND(val(z.getA()) == a - r, val(z.getB()) == b + r)), "the end points move by the given amount");
    VF_ASSERT(IMP(AND(fin, AND(!ex, z.isEmpty())), a - r > b + r), "erosion gives an empty interval only when the end points cross");
    I w = x.erodedBy(S(-r));
    VF_ASSERT(w == z, "eroding is dilating by the negated amount");
    I u = x, v = x;
    u.dilateBy(S(r));
    v.erodeBy(S(-r));
    VF_ASSERT(AND(u == z, v == z), "in-place and copying versions agree");
    VF_ASSERT(val(x.getSize()) == b - a || isnan_(b - a), "getSize is the end point difference");
    VF_ASSERT(IMP(AND(fin, !ex), val(x.getCenter()) == 0.5 * (a + b)), "getCenter is the mean of the end points");
    vf_observe(z.isEmpty());
    vf_reach("dilate");
}
extern "C" void harness_make() {
    double a = ndd("a"), b = ndd("b"), p = ndd("p");
    vf_assume(!isnan_(p));
    I e;
    VF_ASSERT(AND(e.isEmpty(), AND(e == I::empty(), !e.contains(S(p)))), "default constructed intervals are empty");
    I one{S(a)};
    VF_ASSERT(one.contains(S(p)) == (a == p), "single point intervals");
    VF_ASSERT(one.isEmpty() == isnan_(a), "a NaN point is empty");
    I f = I::full();
#ifdef ANGLE
    I g = I::fromRadians(a, b), h = I::fromDegrees(a, b);
    VF_ASSERT(AND(bitsof(val(g.getA())) == bitsof(a), bitsof(val(g.getB())) == bitsof(b)), "fromRadians keeps its arguments");
    VF_ASSERT(h == I(Angle::fromDegrees(a), Angle::fromDegrees(b)), "fromDegrees converts both end points");
#else
    VF_ASSERT(f.isFull(), "full() is full");
    I g{a, b};
    VF_ASSERT(IMP(g.isFull(), g.contains(p)), "a full interval contains every point");
    VF_ASSERT(g.isFull() == AND(a == -std::numeric_limits<double>::infinity(), b == std::numeric_limits<double>::infinity()), "only [-inf, inf] is full");
#endif
    VF_ASSERT(f.contains(S(p)), "the full interval contains every point");
    vf_reach("make");
}
