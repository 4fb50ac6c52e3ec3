// Box: products of a longitude arc and a latitude interval.
#include "vf.h"
#include <stdexcept>
#include "lsst/sphgeom/Box.h"
#include "lsst/sphgeom/LonLat.h"
#include "lsst/sphgeom/Relationship.h"
using namespace lsst::sphgeom;
typedef NormalizedAngleInterval NI;
static const double TWO_PI = 2.0 * PI, HALF_PI = 0.5 * PI;
static double r(Angle const& a) { return a.asRadians(); }
static bool bit(Relationship r, Relationship b) { return (r & b).any(); }
static double lon(const char* n, bool nan) {
    double a = ndd(n);
    bool ok = AND(a >= 0, a <= TWO_PI);
    vf_assume(nan ? OR(ok, isnan_(a)) : ok);
    return a;
}
static double lat(const char* n, bool nan) {
    double a = ndd(n);
    bool ok = AND(a >= -HALF_PI, a <= HALF_PI);
    vf_assume(nan ? OR(ok, isnan_(a)) : ok);
    return a;
}
static bool inLon(double a, double b, double p) {
    return OR(AND(a <= b, AND(a <= p, p <= b)), AND(a > b, OR(p >= a, p <= b)));
}
static bool before(double a, double p, double q) { return OR(AND(p >= a, q < a), AND((p >= a) == (q >= a), p <= q)); }
static bool subLon(double a, double b, double c, double d) { return OR(AND(a == 0, b == TWO_PI), AND(AND(inLon(a, b, c), inLon(a, b, d)), before(a, c, d))); }
static bool disLon(double a, double b, double c, double d) { return !OR(OR(inLon(a, b, c), inLon(a, b, d)), OR(inLon(c, d, a), inLon(c, d, b))); }
// A box, and the set it stands for
struct B {
    double a, b, c, d;
    bool empty;
    bool in(double x, double y) const { return AND(!empty, AND(inLon(a, b, x), AND(c <= y, y <= d))); }
    bool sup(B const& o) const { return OR(o.empty, AND(!empty, AND(subLon(a, b, o.a, o.b), AND(c <= o.c, o.d <= d)))); }
    bool dis(B const& o) const { return OR(OR(empty, o.empty), OR(disLon(a, b, o.a, o.b), OR(d < o.c, o.d < c))); }
    bool full() const { return AND(AND(a == 0, b == TWO_PI), AND(c == -HALF_PI, d == HALF_PI)); }
};
static Box make(B& o, const char* n, bool anyLat) {
    o.a = lon(n, true);
    o.b = lon(n, true);
    o.c = ndd(n);
    o.d = ndd(n);
    if (!anyLat) vf_assume(OR(AND(o.c >= -HALF_PI, o.d <= HALF_PI), OR(isnan_(o.c), isnan_(o.d))));
    o.empty = OR(OR(isnan_(o.a), isnan_(o.b)), OR(!(o.c <= o.d), OR(o.d < -HALF_PI, o.c > HALF_PI)));
    return Box(NI::fromRadians(o.a, o.b), AngleInterval::fromRadians(o.c, o.d));
}
static B view(Box const& x) {
    B o{r(x.getLon().getA()), r(x.getLon().getB()), r(x.getLat().getA()), r(x.getLat().getB()), x.isEmpty()};
    return o;
}
static void invariants(Box const& x) {
    B o = view(x);
    VF_ASSERT(x.getLon().isEmpty() == o.empty, "the longitude interval is empty iff the box is");
    VF_ASSERT(x.getLat().isEmpty() == o.empty, "the latitude interval is empty iff the box is");
    VF_ASSERT(OR(o.empty, AND(o.c >= -HALF_PI, o.d <= HALF_PI)), "latitudes stay within [-pi/2, pi/2]");
}
extern "C" void harness_make() {
    B o;
    Box x = make(o, "x", true);
    invariants(x);
    double p = lon("p", false), q = lat("q", false);
    VF_ASSERT(x.isEmpty() == o.empty, "a box is empty iff one of its intervals is");
    VF_ASSERT(x.contains(LonLat::fromRadians(p, q)) == o.in(p, q), "a box contains the points in both intervals");
    VF_ASSERT(x.isFull() == AND(AND(o.a == 0, o.b == TWO_PI), AND(o.c <= -HALF_PI, o.d >= HALF_PI)), "isFull iff all longitudes and latitudes are spanned");
    VF_ASSERT(Box::empty().isEmpty(), "empty() is empty");
    VF_ASSERT(Box().isEmpty(), "default constructed boxes are empty");
    VF_ASSERT(AND(Box::full().isFull(), Box::full().contains(LonLat::fromRadians(p, q))), "full() is full");
    LonLat u = LonLat::fromRadians(p, q);
    double s = lon("s", false), t = lat("t", false);
    LonLat v = LonLat::fromRadians(s, t);
    Box pt(u);
    VF_ASSERT(pt.contains(v) == AND(p == s, q == t), "the box of a point contains that point");
    VF_ASSERT((x == u) == AND(!o.empty, AND(AND(o.a == p, o.b == p), AND(r(x.getLat().getA()) == q, r(x.getLat().getB()) == q))), "equality with a point");
    Box pp(u, v);
    invariants(pp);
    double y = lon("y", false), z = lat("z", false);
    VF_ASSERT(pp.contains(LonLat::fromRadians(y, z)) == AND(q <= t, AND(inLon(p, s, y), AND(q <= z, z <= t))), "boxes between two points");
    vf_reach("make");
}
extern "C" void harness_lonlat() {
    double p = lon("p", true), q = ndd("q");
    bool bad = OR(q > HALF_PI, q < -HALF_PI), threw = false;
    try {
        LonLat u = LonLat::fromRadians(p, q);
        bool nan = OR(isnan_(p), isnan_(q));
        VF_ASSERT(AND(isnan_(r(u.getLon())) == nan, isnan_(r(u.getLat())) == nan), "both coordinates are NaN, or neither is");
        VF_ASSERT(OR(nan, AND(bitsof(r(u.getLon())) == bitsof(p), bitsof(r(u.getLat())) == bitsof(q))), "coordinates are kept");
        vf_reach("valid");
    } catch (std::invalid_argument const&) { threw = true; }
    VF_ASSERT(threw == bad, "exactly latitudes beyond the poles are rejected");
}
extern "C" void harness_pair() {
    B o, m;
    Box x = make(o, "x", false), y = make(m, "y", false);
    double p = lon("p", false), q = lat("q", false);
    bool cont = x.contains(y), dis = x.isDisjointFrom(y);
    VF_ASSERT(cont == o.sup(m), "contains(box) is the subset relation");
    VF_ASSERT(dis == o.dis(m), "isDisjointFrom(box) iff there is no common point");
    VF_ASSERT(x.intersects(y) == !dis, "intersects is the negation of isDisjointFrom");
    VF_ASSERT(x.isWithin(y) == m.sup(o), "isWithin is the converse of contains");
    VF_ASSERT(IMP(AND(o.in(p, q), m.in(p, q)), !dis), "a common point precludes disjointness");
    VF_ASSERT(IMP(AND(cont, m.in(p, q)), o.in(p, q)), "every point of a contained box is contained");
    vf_observe(cont + 2 * dis);
    vf_reach("pair");
}
extern "C" void harness_equal() {
    B o, m;
    Box x = make(o, "x", false), y = make(m, "y", false);
    bool eq = x == y;
    VF_ASSERT(eq == OR(AND(o.empty, m.empty), AND(AND(!o.empty, !m.empty), AND(AND(o.a == m.a, o.b == m.b), AND(o.c == m.c, o.d == m.d)))), "boxes are equal iff empty or with equal intervals");
    VF_ASSERT((x != y) == !eq, "!= is the negation of ==");
    vf_reach("equal");
}
extern "C" void harness_relate() {
    B o, m;
    Box x = make(o, "x", false), y = make(m, "y", false);
    Relationship s = x.relate(y);
    VF_ASSERT(bit(s, DISJOINT) == o.dis(m), "DISJOINT bit");
    VF_ASSERT(bit(s, CONTAINS) == o.sup(m), "CONTAINS bit");
    VF_ASSERT(bit(s, WITHIN) == m.sup(o), "WITHIN bit");
    vf_observe(s.to_ulong());
    vf_reach("relate");
}
extern "C" void harness_dispatch() {
    B o, m;
    Box x = make(o, "x", false), y = make(m, "y", false);
    Relationship t = x.relate(static_cast<Region const&>(y));
    VF_ASSERT(bit(t, DISJOINT) == o.dis(m), "DISJOINT bit through dynamic dispatch");
    VF_ASSERT(bit(t, CONTAINS) == o.sup(m), "CONTAINS bit through dynamic dispatch");
    VF_ASSERT(bit(t, WITHIN) == m.sup(o), "WITHIN bit through dynamic dispatch");
    vf_reach("dispatch");
}
extern "C" void harness_point() {
    B o;
    Box x = make(o, "x", false);
    double p = lon("p", false), q = lat("q", false), s = lon("s", false), t = lat("t", false);
    LonLat u = LonLat::fromRadians(p, q);
    bool in = o.in(p, q);
    VF_ASSERT(x.contains(u) == in, "contains(point)");
    VF_ASSERT(x.intersects(u) == in, "intersects(point)");
    VF_ASSERT(x.isDisjointFrom(u) == !in, "isDisjointFrom(point)");
    bool pt = AND(AND(o.a == p, o.b == p), AND(o.c == q, o.d == q));
    VF_ASSERT(x.isWithin(u) == OR(o.empty, pt), "isWithin(point)");
    Relationship k = x.relate(u);
    VF_ASSERT(bit(k, DISJOINT) == !in, "DISJOINT bit for a point");
    VF_ASSERT(bit(k, CONTAINS) == in, "CONTAINS bit for a point");
    VF_ASSERT(bit(k, WITHIN) == OR(o.empty, pt), "WITHIN bit for a point");
    Box c = x.clippedTo(u);
    invariants(c);
    VF_ASSERT(view(c).in(s, t) == AND(in, AND(p == s, q == t)), "clippedTo(point) is the exact intersection");
    vf_reach("point");
}
extern "C" void harness_clip() {
    B o, m;
    Box x = make(o, "x", false), y = make(m, "y", false);
    double p = lon("p", false), q = lat("q", false);
    Box z = x.clippedTo(y);
    B v = view(z);
    invariants(z);
    VF_ASSERT(v.empty == o.dis(m), "clippedTo is empty iff the operands are disjoint");
    VF_ASSERT(IMP(AND(o.in(p, q), m.in(p, q)), v.in(p, q)), "clippedTo contains the intersection");
    VF_ASSERT(IMP(v.in(p, q), OR(inLon(o.a, o.b, p), inLon(m.a, m.b, p))), "clippedTo stays within an operand's longitudes");
    VF_ASSERT(IMP(v.in(p, q), AND(AND(o.c <= q, q <= o.d), AND(m.c <= q, q <= m.d))), "clippedTo stays within both operands' latitudes");
    bool twice = AND(AND(inLon(o.a, o.b, m.a), inLon(o.a, o.b, m.b)), AND(inLon(m.a, m.b, o.a), inLon(m.a, m.b, o.b)));
    VF_ASSERT(IMP(AND(AND(!twice, !subLon(o.a, o.b, m.a, m.b)), v.in(p, q)), AND(o.in(p, q), m.in(p, q))), "clippedTo is the exact intersection when that is a box");
    vf_reach("clip");
}
extern "C" void harness_expand() {
    B o, m;
    Box x = make(o, "x", false), y = make(m, "y", false);
    double p = lon("p", false), q = lat("q", false);
    Box z = x.expandedTo(y);
    B v = view(z);
    invariants(z);
    VF_ASSERT(IMP(OR(o.in(p, q), m.in(p, q)), v.in(p, q)), "expandedTo contains both operands");
    VF_ASSERT(v.empty == AND(o.empty, m.empty), "only empty operands give an empty union");
    VF_ASSERT(IMP(m.empty, z == x), "expanding to an empty box has no effect");
    VF_ASSERT(IMP(AND(o.empty, !m.empty), z == y), "an empty box expands to the argument");
    VF_ASSERT(IMP(v.in(p, q), OR(OR(q >= o.c, q >= m.c), false)), "latitudes are bounded by the operands'");
    VF_ASSERT(IMP(AND(!o.empty, !m.empty), AND(OR(v.c == o.c, v.c == m.c), OR(v.d == o.d, v.d == m.d))), "latitude end points are those of the operands");
    VF_ASSERT(IMP(AND(AND(!o.empty, !m.empty), AND(!disLon(o.a, o.b, m.a, m.b), AND(v.in(p, q), !AND(v.a == 0, v.b == TWO_PI)))), OR(inLon(o.a, o.b, p), inLon(m.a, m.b, p))), "longitudes of overlapping operands give an exact union");
    vf_reach("expand");
}
extern "C" void harness_expand1() {
    B o;
    Box x = make(o, "x", false);
    double p = lon("p", false), q = lat("q", false), s = lon("s", false), t = lat("t", false);
    Box z = x.expandedTo(LonLat::fromRadians(p, q));
    B v = view(z);
    invariants(z);
    VF_ASSERT(IMP(OR(o.in(s, t), AND(s == p, t == q)), v.in(s, t)), "expandedTo(point) contains the box and the point");
    VF_ASSERT(IMP(o.in(p, q), z == x), "expanding to a contained point has no effect");
    vf_reach("expand1");
}
// dilation by separate amounts; AXIS selects which intervals have arbitrary bounds
#ifndef WRAPS
#define WRAPS 2
#endif
#ifndef AXIS
#define AXIS 3
#endif
static Box part(B& o, const char* n) {
    if (AXIS & 1) { o.a = lon(n, true); o.b = lon(n, true); }
    else { bool wrap = vf_choose("wrap", WRAPS); o.a = wrap ? 6 : 1; o.b = wrap ? 1 : 2; }
    if (AXIS & 2) { o.c = lat(n, true); o.d = lat(n, true); }
    else { o.c = -0.25; o.d = 0.5; }
    o.empty = OR(OR(isnan_(o.a), isnan_(o.b)), !(o.c <= o.d));
    return Box(NI::fromRadians(o.a, o.b), AngleInterval::fromRadians(o.c, o.d));
}
extern "C" void harness_dilate() {
    B o;
    Box x = part(o, "x");
    double w = AXIS & 1 ? ndd("w") : 0, h = AXIS & 2 ? ndd("h") : 0, p = lon("p", false), q = lat("q", false);
    Box z = x.dilatedBy(Angle(w), Angle(h));
    B v = view(z);
    invariants(z);
    bool in = o.in(p, q), out = v.in(p, q);
    VF_ASSERT(IMP(OR(o.empty, o.full()), z == x), "dilating an empty or full box has no effect");
    bool w0 = OR(w == 0, isnan_(w)), h0 = OR(h == 0, isnan_(h));
    VF_ASSERT(IMP(AND(w0, h0), z == x), "dilating by zero or NaN has no effect");
    VF_ASSERT(IMP(AND(OR(w >= 0, w0), OR(h >= 0, h0)), IMP(in, out)), "dilation by positive amounts is extensive");
    VF_ASSERT(IMP(AND(OR(w <= 0, w0), OR(h <= 0, h0)), IMP(out, in)), "erosion is anti-extensive");
    double la = o.c - h, lb = o.d + h;
    bool clear = AND(AND(!o.empty, !o.full()), AND(!v.empty, !h0));
    VF_ASSERT(IMP(AND(clear, o.c == -HALF_PI), v.c == o.c), "the south pole is not a boundary");
    VF_ASSERT(IMP(AND(clear, o.d == HALF_PI), v.d == o.d), "the north pole is not a boundary");
    VF_ASSERT(IMP(AND(clear, o.c != -HALF_PI), OR(v.c == la, AND(la < -HALF_PI, v.c == -HALF_PI))), "the lower latitude bound moves by h, stopping at the pole");
    VF_ASSERT(IMP(AND(clear, o.d != HALF_PI), OR(v.d == lb, AND(lb > HALF_PI, v.d == HALF_PI))), "the upper latitude bound moves by h, stopping at the pole");
    vf_reach("dilate");
}
// In-place and returning forms, dilation and erosion, on both axes at once
extern "C" void harness_forms() {
    B o;
    o.a = lon("a", false); o.b = lon("a", false);
#ifdef DEEP
    uint64_t k = vf_choose("lat", 4);
#else
    uint64_t k = 3 * vf_choose("lat", 2);
#endif
    double lo[] = {-HALF_PI, -HALF_PI, -0.25, 0.25}, hi[] = {0.5, HALF_PI, HALF_PI, 0.5}, hs[] = {0.125, -0.125, 2, -2};
    o.c = lo[k]; o.d = hi[k];
    Box x(NI::fromRadians(o.a, o.b), AngleInterval::fromRadians(o.c, o.d));
    double w = ndd("w"), h = hs[k];
    Box z = x.dilatedBy(Angle(w), Angle(h)), y = x, u = x;
    VF_ASSERT(&y.dilateBy(Angle(w), Angle(h)) == &y, "dilateBy returns its object");
    VF_ASSERT(y == z, "dilateBy and dilatedBy agree");
    VF_ASSERT(x.erodedBy(Angle(-w), Angle(-h)) == z, "erosion is dilation by negated amounts");
    u.erodeBy(Angle(-w), Angle(-h));
    VF_ASSERT(u == z, "erodeBy and erodedBy agree");
    VF_ASSERT(x.erodedBy(Angle(0.25)) == x, "eroding by a positive radius has no effect");
    vf_reach("forms");
}
#ifdef STUB_HALFWIDTH
// harness_halfwidth establishes what is assumed here
NormalizedAngle Box::halfWidthForCircle(Angle e, Angle l) {
    double x = r(e), y = r(l);
    bool pole = OR(y + x >= HALF_PI, -y + x >= HALF_PI);
    if (isnan_(x)) return NormalizedAngle(x);
    if (x <= 0) return NormalizedAngle(0.0);
    if (pole) return NormalizedAngle(PI);
    double w = 0.125;
    if (AXIS & 1) { w = ndd("halfwidth"); vf_assume(AND(w >= 0, w <= PI)); }
    return NormalizedAngle(w);
}
#endif
// dilation by an angular radius
extern "C" void harness_radius() {
    B o;
    Box x = part(o, "x");
    double e = ndd("r"), p = lon("p", false), q = lat("q", false);
    Box z = x.dilatedBy(Angle(e));
    B v = view(z);
    invariants(z);
    VF_ASSERT(IMP(OR(OR(o.empty, o.full()), OR(e <= 0, isnan_(e))), z == x), "dilating an empty or full box, or by a radius that is not positive, has no effect");
    VF_ASSERT(IMP(AND(e > 0, o.in(p, q)), v.in(p, q)), "dilation is extensive");
    bool clear = AND(AND(!o.empty, !o.full()), e > 0);
    double ac = o.c < 0 ? -o.c : o.c, ad = o.d < 0 ? -o.d : o.d, m = ac < ad ? ad : ac;
    VF_ASSERT(IMP(AND(clear, m + e >= HALF_PI), AND(v.a == 0, v.b == TWO_PI)), "all longitudes are within reach of a pole");
    double la = o.c - e, lb = o.d + e;
    VF_ASSERT(IMP(clear, OR(v.c == -HALF_PI, v.c <= la)), "latitudes are dilated by the radius");
    VF_ASSERT(IMP(clear, OR(v.d == HALF_PI, v.d >= lb)), "latitudes are dilated by the radius");
    vf_reach("radius");
}
extern "C" void harness_halfwidth() {
    double e = ndd("r"), l = lat("lat", false);
    double w = r(Box::halfWidthForCircle(Angle(e), Angle(l)));
    VF_ASSERT(OR(AND(isnan_(e), isnan_(w)), AND(w >= 0, w <= PI)), "half widths are in [0, pi], or NaN for a NaN radius");
    VF_ASSERT(IMP(e <= 0, w == 0), "non-positive radii give zero");
    VF_ASSERT(IMP(AND(e > 0, OR(l + e >= HALF_PI, -l + e >= HALF_PI)), w == PI), "circles containing a pole span all longitudes");
    vf_reach("halfwidth");
}
