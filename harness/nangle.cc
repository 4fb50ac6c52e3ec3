// NormalizedAngle and NormalizedAngleInterval against sets of points of the circle, for every
// pair of end points in [0, 2 pi] or NaN. Membership is judged at an arbitrary angle p.
#include "vf.h"
#include <stdexcept>
#include "lsst/sphgeom/NormalizedAngleInterval.h"
#include "lsst/sphgeom/Relationship.h"
using namespace lsst::sphgeom;
typedef NormalizedAngleInterval I;
typedef NormalizedAngle S;
static const double TWO_PI = 2.0 * PI;
static double r(Angle const& a) { return a.asRadians(); }
static double angle(const char* n, bool nan) {
    double a = ndd(n);
    bool ok = AND(a >= 0, a <= TWO_PI);
    vf_assume(nan ? OR(ok, isnan_(a)) : ok);
    return a;
}
// p lies on the arc from a counter-clockwise to b
static bool in(double a, double b, double p) {
    return OR(AND(a <= b, AND(a <= p, p <= b)), AND(a > b, OR(p >= a, p <= b)));
}
static bool emptyS(double a, double b) { return OR(isnan_(a), isnan_(b)); }
// p is met no later than q when going around from a
static bool before(double a, double p, double q) {
    return OR(AND(p >= a, q < a), AND((p >= a) == (q >= a), p <= q));
}
static bool fullS(double a, double b) { return AND(a == 0, b == TWO_PI); }
static bool subset(double a, double b, double c, double d) {   // [c,d] within [a,b]
    return OR(emptyS(c, d), AND(!emptyS(a, b), OR(fullS(a, b), AND(AND(in(a, b, c), in(a, b, d)), before(a, c, d)))));
}
static bool disjoint(double a, double b, double c, double d) {
    return OR(OR(emptyS(a, b), emptyS(c, d)), !OR(OR(in(a, b, c), in(a, b, d)), OR(in(c, d, a), in(c, d, b))));
}
static bool bit(Relationship r, Relationship b) { return (r & b).any(); }

extern "C" void harness_pair() {
    double a = angle("a", true), b = angle("b", true), c = angle("c", true), d = angle("d", true), p = angle("p", false);
    I x{S(a), S(b)}, y{S(c), S(d)};
    bool ex = emptyS(a, b), ey = emptyS(c, d);
    bool px = in(a, b, p), py = in(c, d, p);
    VF_ASSERT(x.isEmpty() == ex, "isEmpty iff an end point is NaN");
    VF_ASSERT(x.isFull() == fullS(a, b), "isFull iff the end points are 0 and 2 pi");
    VF_ASSERT(IMP(x.isFull(), px), "full intervals contain every angle");
    VF_ASSERT(x.wraps() == (a > b), "wraps iff the end points are out of order");
    VF_ASSERT(x.contains(S(p)) == px, "contains(angle)");
    VF_ASSERT(x.intersects(S(p)) == px, "intersects(angle)");
    VF_ASSERT(x.isDisjointFrom(S(p)) == !px, "isDisjointFrom(angle)");
    VF_ASSERT(x.isWithin(S(p)) == OR(ex, AND(a == p, b == p)), "isWithin(angle)");
    bool cont = x.contains(y), dis = x.isDisjointFrom(y);
    VF_ASSERT(cont == subset(a, b, c, d), "contains(interval) is the subset relation");
    VF_ASSERT(IMP(AND(cont, py), px), "every angle of a contained interval is contained");
    VF_ASSERT(dis == disjoint(a, b, c, d), "isDisjointFrom(interval) iff there is no common angle");
    VF_ASSERT(IMP(AND(px, py), !dis), "a common angle precludes disjointness");
    VF_ASSERT(x.intersects(y) == !dis, "intersects is the negation of isDisjointFrom");
    VF_ASSERT(x.isWithin(y) == y.contains(x), "isWithin is the converse of contains");
    bool eq = x == y;
    VF_ASSERT(eq == OR(AND(ex, ey), AND(a == c, b == d)), "intervals are equal iff empty or with equal end points");
    VF_ASSERT((x != y) == !eq, "!= is the negation of ==");
    VF_ASSERT((x == S(p)) == AND(a == p, b == p), "equality with an angle");
    vf_observe(eq + 2 * cont + 4 * dis);
    vf_reach("pair");
}
extern "C" void harness_relate() {
    double a = angle("a", true), b = angle("b", true), c = angle("c", true), d = angle("d", true), p = angle("p", true);
    I x{S(a), S(b)}, y{S(c), S(d)};
    Relationship q = x.relate(y);
    VF_ASSERT(bit(q, DISJOINT) == disjoint(a, b, c, d), "DISJOINT bit");
    VF_ASSERT(bit(q, CONTAINS) == subset(a, b, c, d), "CONTAINS bit");
    VF_ASSERT(bit(q, WITHIN) == subset(c, d, a, b), "WITHIN bit");
    Relationship s = x.relate(S(p));
    bool ep = isnan_(p);      // NaN denotes the empty set
    VF_ASSERT(bit(s, DISJOINT) == OR(ep, !in(a, b, p)), "DISJOINT bit for an angle");
    VF_ASSERT(bit(s, CONTAINS) == OR(ep, in(a, b, p)), "CONTAINS bit for an angle");
    VF_ASSERT(bit(s, WITHIN) == OR(emptyS(a, b), AND(a == p, b == p)), "WITHIN bit for an angle");
    vf_observe(q.to_ulong());
    vf_reach("relate");
}
extern "C" void harness_clip() {
    double a = angle("a", true), b = angle("b", true), c = angle("c", true), d = angle("d", true), p = angle("p", false);
    I x{S(a), S(b)}, y{S(c), S(d)};
    bool px = in(a, b, p), py = in(c, d, p);
    I z = x.clippedTo(y);
    VF_ASSERT(IMP(AND(px, py), z.contains(S(p))), "clippedTo(interval) contains the intersection");
    VF_ASSERT(IMP(z.contains(S(p)), OR(px, py)), "clippedTo(interval) stays within the operands' union");
    VF_ASSERT(z.isEmpty() == disjoint(a, b, c, d), "clippedTo is empty iff the operands are disjoint");
    // unless the operands meet at both ends the intersection is an interval, and is exact
    bool twice = AND(AND(in(a, b, c), in(a, b, d)), AND(in(c, d, a), in(c, d, b)));
    VF_ASSERT(IMP(AND(!twice, AND(subset(c, d, a, b), z.contains(S(p)))), px), "the clip of a contained interval is that interval");
    VF_ASSERT(IMP(AND(!subset(a, b, c, d), AND(!twice, z.contains(S(p)))), AND(px, py)), "clippedTo(interval) is the exact intersection when that is an interval");
    I w = x;
    w.clipTo(y);
    VF_ASSERT(w == z, "clipTo and clippedTo agree");
    vf_observe(z.isEmpty());
    vf_reach("clip");
}
extern "C" void harness_clip1() {
    double a = angle("a", true), b = angle("b", true), p = angle("p", false), q = angle("q", true);
    I x{S(a), S(b)};
    bool px = in(a, b, p);
    I t = x.clippedTo(S(q));
    VF_ASSERT(t.contains(S(p)) == AND(px, p == q), "clippedTo(angle) is the exact intersection");
    I u = x;
    u.clipTo(S(q));
    VF_ASSERT(u == t, "clipTo and clippedTo agree for angles");
    vf_observe(t.isEmpty());
    vf_reach("clip1");
}
extern "C" void harness_expand() {
    double a = angle("a", true), b = angle("b", true), c = angle("c", true), d = angle("d", true), p = angle("p", false);
    I x{S(a), S(b)}, y{S(c), S(d)};
    bool ex = emptyS(a, b), ey = emptyS(c, d);
    bool px = in(a, b, p), py = in(c, d, p);
    I z = x.expandedTo(y);
    double za = r(z.getA()), zb = r(z.getB());
    VF_ASSERT(IMP(OR(px, py), z.contains(S(p))), "expandedTo(interval) contains both operands");
    VF_ASSERT(z.isEmpty() == AND(ex, ey), "only empty operands give an empty union");
    VF_ASSERT(IMP(subset(a, b, c, d), z == x), "expanding to a subset has no effect");
    VF_ASSERT(IMP(AND(subset(c, d, a, b), !subset(a, b, c, d)), z == y), "expanding to a superset gives the superset");
    bool meet = !disjoint(a, b, c, d);
    VF_ASSERT(IMP(AND(meet, AND(z.contains(S(p)), !z.isFull())), OR(px, py)), "the union of overlapping intervals is exact");
    VF_ASSERT(IMP(AND(AND(meet, z.isFull()), !OR(px, py)), false), "a full union covers the circle");
    VF_ASSERT(OR(z.isEmpty(), OR(z.isFull(), AND(OR(za == a, za == c), OR(zb == b, zb == d)))), "end points of a union are end points of the operands");
    I w = x;
    w.expandTo(y);
    VF_ASSERT(w == z, "expandTo and expandedTo agree");
    vf_observe(z.isEmpty());
    vf_reach("expand");
}
extern "C" void harness_expand1() {
    double a = angle("a", true), b = angle("b", true), p = angle("p", false), q = angle("q", true);
    I x{S(a), S(b)};
    bool ex = emptyS(a, b), px = in(a, b, p);
    I t = x.expandedTo(S(q));
    double ta = r(t.getA()), tb = r(t.getB());
    bool eq = isnan_(q);
    VF_ASSERT(IMP(OR(px, p == q), t.contains(S(p))), "expandedTo(angle) contains both operands");
    VF_ASSERT(t.isEmpty() == AND(ex, eq), "only empty operands give an empty union");
    VF_ASSERT(OR(t.isEmpty(), AND(OR(ta == a, ta == q), OR(tb == b, tb == q))), "expandedTo(angle) keeps or replaces end points");
    VF_ASSERT(IMP(OR(eq, in(a, b, q)), t == x), "expanding to a contained angle has no effect");
    I u = x;
    u.expandTo(S(q));
    VF_ASSERT(u == t, "expandTo and expandedTo agree for angles");
    vf_observe(t.isEmpty());
    vf_reach("expand1");
}
extern "C" void harness_dilate() {
    double a = angle("a", true), b = angle("b", true), p = angle("p", false), e = ndd("r");
    I x{S(a), S(b)};
    I z = x.dilatedBy(Angle(e));
    bool px = in(a, b, p), pz = z.contains(S(p)), ex = emptyS(a, b);
    double za = r(z.getA()), zb = r(z.getB());
    VF_ASSERT(z.isEmpty() || AND(AND(za >= 0, za <= TWO_PI), AND(zb >= 0, zb <= TWO_PI)), "end points stay normalized");
    VF_ASSERT(IMP(ex, z.isEmpty()), "dilating an empty interval has no effect");
    VF_ASSERT(IMP(OR(isnan_(e), OR(e == 0, fullS(a, b))), z == x), "dilating by 0 or NaN, or a full interval, has no effect");
    VF_ASSERT(IMP(AND(e >= 0, px), pz), "dilation by a positive angle is extensive");
    VF_ASSERT(IMP(AND(e <= 0, pz), px), "dilation by a negative angle is anti-extensive");
    VF_ASSERT(IMP(AND(e >= PI, !ex), z.isFull()), "dilating by pi or more gives the circle");
    VF_ASSERT(IMP(AND(e <= -PI, !fullS(a, b)), z.isEmpty()), "eroding by pi or more gives nothing");
    I y = x, u = x;
    y.dilateBy(Angle(e));
    u.erodeBy(Angle(-e));
    VF_ASSERT(y == z, "dilateBy and dilatedBy agree");
    VF_ASSERT(x.erodedBy(Angle(-e)) == z, "erosion is dilation by the negated amount");
    VF_ASSERT(u == z, "erodeBy and erodedBy agree");
    vf_observe(z.isEmpty());
    vf_reach("dilate");
}
extern "C" void harness_angles() {
    double a = angle("a", false), b = angle("b", false);
    S x(a), y(b);
    double t = r(x.getAngleTo(y)), m = r(S::between(x, y)), c = r(S::center(x, y));
    VF_ASSERT(AND(t >= 0, t <= TWO_PI), "getAngleTo is normalized");
    VF_ASSERT(IMP(b >= a, t == b - a), "getAngleTo a larger angle is the difference");
    VF_ASSERT(IMP(b < a, t == TWO_PI + (b - a)), "getAngleTo a smaller angle goes around");
    VF_ASSERT(AND(m >= 0, m <= PI), "between lies in [0, pi]");
    VF_ASSERT(m == r(S::between(y, x)), "between is symmetric");
    VF_ASSERT(OR(m == r(x.getAngleTo(y)), m == r(y.getAngleTo(x))), "between is one of the directed angles");
    VF_ASSERT(AND(m <= r(x.getAngleTo(y)), m <= r(y.getAngleTo(x))), "between is the smaller directed angle");
    VF_ASSERT(AND(c >= 0, c <= TWO_PI), "center is normalized");
    VF_ASSERT(in(a, b, c), "center lies between its arguments");
    vf_observe(bitsof(t));
    vf_observe(bitsof(c));
    vf_reach("angles");
}
// normalization of values within one turn of [0, 2 pi] (no range reduction error)
extern "C" void harness_normalize() {
    double a = ndd("a");
    S x(a);
    double v = r(x);
    VF_ASSERT(IMP(AND(a >= 0, a <= TWO_PI), bitsof(v) == bitsof(a)), "values in [0, 2 pi] are kept");
    VF_ASSERT(IMP(isnan_(a), x.isNan()), "NaN is kept");
    VF_ASSERT(IMP(finite_(a), AND(v >= 0, v <= TWO_PI)), "the result is in [0, 2 pi]");
    VF_ASSERT(IMP(AND(a < 0, a > -TWO_PI), v == a + TWO_PI), "one turn is added to small negative values");
    VF_ASSERT(r(S::fromRadians(a)) == v || isnan_(v), "fromRadians normalizes");
    VF_ASSERT(r(S(Angle(a))) == v || isnan_(v), "the Angle constructor normalizes");
    vf_observe(x.isNan());
    vf_reach("normalize");
}
extern "C" void harness_make() {
    double a = ndd("a"), b = ndd("b");
    bool na = AND(a >= 0, a <= TWO_PI), nb = AND(b >= 0, b <= TWO_PI);
    bool nan = OR(isnan_(a), isnan_(b));
    vf_assume(OR(nan, AND(finite_(a), finite_(b))));
    try {
        I x{Angle(a), Angle(b)};
        VF_ASSERT(OR(nan, OR(AND(na, nb), a <= b)), "unordered end points outside [0, 2 pi] are rejected");
        VF_ASSERT(x.isEmpty() == nan, "NaN end points give an empty interval");
        VF_ASSERT(IMP(AND(na, nb), AND(bitsof(r(x.getA())) == bitsof(a), bitsof(r(x.getB())) == bitsof(b))), "normalized end points are kept");
        VF_ASSERT(IMP(AND(!AND(na, nb), b - a >= TWO_PI), x.isFull()), "a range of at least a turn is full");
        vf_observe(x.isEmpty());
        vf_reach("made");
    } catch (std::invalid_argument const&) {
        VF_ASSERT(AND(!AND(na, nb), a > b), "only unordered end points are rejected");
        vf_reach("rejected");
    }
    I e;
    VF_ASSERT(AND(e.isEmpty(), e == I::empty()), "default constructed intervals are empty");
    VF_ASSERT(I::full().isFull(), "full() is full");
}
