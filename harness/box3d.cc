// Box3d: products of three intervals.
#include "vf.h"
#include "lsst/sphgeom/Box3d.h"
#include "lsst/sphgeom/Relationship.h"
using namespace lsst::sphgeom;
static bool bit(Relationship r, Relationship b) { return (r & b).any(); }
struct B {
    double a[3], b[3];
    bool empty;
    bool in(double const* p) const {
        bool r = !empty;
        for (int i = 0; i < 3; ++i) r = AND(r, AND(a[i] <= p[i], p[i] <= b[i]));
        return r;
    }
    bool sup(B const& o) const {
        bool r = !empty;
        for (int i = 0; i < 3; ++i) r = AND(r, AND(a[i] <= o.a[i], o.b[i] <= b[i]));
        return OR(o.empty, r);
    }
    bool dis(B const& o) const {
        bool r = OR(empty, o.empty);
        for (int i = 0; i < 3; ++i) r = OR(r, OR(b[i] < o.a[i], o.b[i] < a[i]));
        return r;
    }
};
static Box3d make(B& o, const char* n) {
    bool ok = true;
    for (int i = 0; i < 3; ++i) { o.a[i] = ndd(n); o.b[i] = ndd(n); ok = AND(ok, o.a[i] <= o.b[i]); }
    o.empty = !ok;
    return Box3d(Interval1d(o.a[0], o.b[0]), Interval1d(o.a[1], o.b[1]), Interval1d(o.a[2], o.b[2]));
}
static B view(Box3d const& x) {
    B o;
    for (int i = 0; i < 3; ++i) { o.a[i] = x(i).getA(); o.b[i] = x(i).getB(); }
    o.empty = x.isEmpty();
    return o;
}
static void invariants(Box3d const& x) {
    bool e = x.isEmpty();
    VF_ASSERT(AND(x.x().isEmpty() == e, AND(x.y().isEmpty() == e, x.z().isEmpty() == e)), "all intervals are empty, or none is");
}
static void point(double* p, const char* n) {
    for (int i = 0; i < 3; ++i) { p[i] = ndd(n); vf_assume(!isnan_(p[i])); }
}
extern "C" void harness_make() {
    B o;
    Box3d x = make(o, "x");
    invariants(x);
    double p[3];
    point(p, "p");
    Vector3d v(p[0], p[1], p[2]);
    bool in = o.in(p);
    VF_ASSERT(x.isEmpty() == o.empty, "a box is empty iff one of its intervals is");
    VF_ASSERT(x.contains(v) == in, "contains(vector)");
    VF_ASSERT(x.contains(p[0], p[1], p[2]) == in, "contains(x, y, z)");
    VF_ASSERT(x.intersects(v) == in, "intersects(vector)");
    VF_ASSERT(x.isDisjointFrom(v) == !in, "isDisjointFrom(vector)");
    bool pt = true;
    for (int i = 0; i < 3; ++i) pt = AND(pt, AND(o.a[i] == p[i], o.b[i] == p[i]));
    VF_ASSERT(x.isWithin(v) == OR(o.empty, pt), "isWithin(vector)");
    VF_ASSERT((x == v) == AND(!o.empty, pt), "equality with a vector");
    VF_ASSERT((x != v) == !AND(!o.empty, pt), "inequality with a vector");
    VF_ASSERT(AND(Box3d().isEmpty(), Box3d::empty().isEmpty()), "empty boxes are empty");
    VF_ASSERT(AND(Box3d::full().isFull(), Box3d::full().contains(v)), "full boxes are full");
    bool unit = true;
    for (int i = 0; i < 3; ++i) unit = AND(unit, AND(p[i] >= -1, p[i] <= 1));
    VF_ASSERT(Box3d::aroundUnitSphere().contains(v) == unit, "aroundUnitSphere is [-1, 1] cubed");
    VF_ASSERT(AND(bitsof(x.getWidth()) == bitsof(x.x().getSize()), AND(bitsof(x.getHeight()) == bitsof(x.y().getSize()), bitsof(x.getDepth()) == bitsof(x.z().getSize()))), "width, height and depth are those of the intervals");
    VF_ASSERT(IMP(!x.isEmpty(), AND(x.getCenter().x() == x.x().getCenter(), AND(x.getCenter().y() == x.y().getCenter(), x.getCenter().z() == x.z().getCenter())) || x.getCenter() != x.getCenter()), "the center has the centers of the intervals as components");
    vf_reach("make");
}
extern "C" void harness_vectors() {
    double p[3], q[3], s[3];
    point(p, "p"); point(q, "q"); point(s, "s");
    Vector3d u(p[0], p[1], p[2]), v(q[0], q[1], q[2]), w(s[0], s[1], s[2]);
    Box3d x(u, v);
    invariants(x);
    bool in = true, eq = true;
    for (int i = 0; i < 3; ++i) { in = AND(in, AND(p[i] <= s[i], s[i] <= q[i])); eq = AND(eq, p[i] == s[i]); }
    bool ord = AND(p[0] <= q[0], AND(p[1] <= q[1], p[2] <= q[2]));
    VF_ASSERT(x.isEmpty() == !ord, "boxes between unordered vectors are empty");
    VF_ASSERT(x.contains(w) == AND(ord, in), "boxes between two vectors");
    VF_ASSERT(Box3d(u).contains(w) == eq, "the box of a vector contains that vector");
    vf_reach("vectors");
}
extern "C" void harness_pair() {
    B o, m;
    Box3d x = make(o, "x"), y = make(m, "y");
    bool cont = x.contains(y), dis = x.isDisjointFrom(y);
    VF_ASSERT(cont == o.sup(m), "contains(box) is the subset relation");
    VF_ASSERT(dis == o.dis(m), "isDisjointFrom(box) iff there is no common point");
    VF_ASSERT(x.intersects(y) == !dis, "intersects is the negation of isDisjointFrom");
    VF_ASSERT(x.isWithin(y) == m.sup(o), "isWithin is the converse of contains");
    bool eq = x == y;
    bool same = true;
    for (int i = 0; i < 3; ++i) same = AND(same, AND(o.a[i] == m.a[i], o.b[i] == m.b[i]));
    VF_ASSERT(eq == OR(AND(o.empty, m.empty), AND(AND(!o.empty, !m.empty), same)), "boxes are equal iff empty or with equal intervals");
    VF_ASSERT((x != y) == !eq, "!= is the negation of ==");
    vf_observe(cont + 2 * dis + 4 * eq);
    vf_reach("pair");
}
extern "C" void harness_relate() {
    B o, m;
    Box3d x = make(o, "x"), y = make(m, "y");
    Relationship s = x.relate(y);
    VF_ASSERT(bit(s, DISJOINT) == o.dis(m), "DISJOINT bit");
    VF_ASSERT(bit(s, CONTAINS) == o.sup(m), "CONTAINS bit");
    VF_ASSERT(bit(s, WITHIN) == m.sup(o), "WITHIN bit");
    vf_observe(s.to_ulong());
    vf_reach("relate");
}
extern "C" void harness_relate1() {
    B o;
    Box3d x = make(o, "x");
    double p[3];
    point(p, "p");
    Relationship s = x.relate(Vector3d(p[0], p[1], p[2]));
    bool pt = true, in = o.in(p);
    for (int i = 0; i < 3; ++i) pt = AND(pt, AND(o.a[i] == p[i], o.b[i] == p[i]));
    VF_ASSERT(bit(s, DISJOINT) == !in, "DISJOINT bit for a vector");
    VF_ASSERT(bit(s, CONTAINS) == in, "CONTAINS bit for a vector");
    VF_ASSERT(bit(s, WITHIN) == OR(o.empty, pt), "WITHIN bit for a vector");
    vf_reach("relate1");
}
extern "C" void harness_clip() {
    B o, m;
    Box3d x = make(o, "x"), y = make(m, "y");
    double p[3];
    point(p, "p");
    Box3d z = x.clippedTo(y);
    invariants(z);
    VF_ASSERT(view(z).in(p) == AND(o.in(p), m.in(p)), "clippedTo is the exact intersection");
    VF_ASSERT(z.isEmpty() == o.dis(m), "clippedTo is empty iff the operands are disjoint");
    vf_reach("clip");
}
extern "C" void harness_point() {
    B o;
    Box3d x = make(o, "x");
    double p[3], q[3];
    point(p, "p");
    point(q, "q");
    Vector3d v(q[0], q[1], q[2]);
    bool same = AND(p[0] == q[0], AND(p[1] == q[1], p[2] == q[2]));
    Box3d c = x.clippedTo(v);
    invariants(c);
    VF_ASSERT(view(c).in(p) == AND(o.in(p), same), "clippedTo(vector) is the exact intersection");
    Box3d e = x.expandedTo(v);
    B w = view(e);
    invariants(e);
    VF_ASSERT(IMP(OR(o.in(p), same), w.in(p)), "expandedTo(vector) contains the box and the vector");
    for (int i = 0; i < 3; ++i) VF_ASSERT(OR(OR(w.a[i] == o.a[i], w.a[i] == q[i]), false) & OR(w.b[i] == o.b[i], w.b[i] == q[i]), "expandedTo(vector) is minimal");
    VF_ASSERT(IMP(o.in(q), e == x), "expanding to a contained vector has no effect");
    vf_reach("point");
}
extern "C" void harness_expand() {
    B o, m;
    Box3d x = make(o, "x"), y = make(m, "y");
    double p[3];
    point(p, "p");
    Box3d z = x.expandedTo(y);
    B w = view(z);
    invariants(z);
    VF_ASSERT(IMP(OR(o.in(p), m.in(p)), w.in(p)), "expandedTo contains both operands");
    VF_ASSERT(w.empty == AND(o.empty, m.empty), "only empty operands give an empty union");
    VF_ASSERT(IMP(m.empty, z == x), "expanding to an empty box has no effect");
    VF_ASSERT(IMP(AND(o.empty, !m.empty), z == y), "an empty box expands to the argument");
    for (int i = 0; i < 3; ++i) VF_ASSERT(OR(OR(o.empty, m.empty), AND(OR(w.a[i] == o.a[i], w.a[i] == m.a[i]), OR(w.b[i] == o.b[i], w.b[i] == m.b[i]))), "expandedTo is minimal");
    vf_reach("expand");
}
#ifndef AXIS
#define AXIS 0
#endif
// One axis has arbitrary bounds and amount; the others are fixed
extern "C" void harness_dilate() {
    B o;
    double w[3] = {0.5, 1, 0.25};
    uint64_t neg = AXIS == 0 ? vf_choose("shrink", 4) : 3 * vf_choose("shrink", 2);   // erode some of the other axes
    for (int i = 0, k = 0; i < 3; ++i) if (i != AXIS && (neg >> k++ & 1)) w[i] = -w[i];
    for (int i = 0; i < 3; ++i) { o.a[i] = i; o.b[i] = i + 2; }
    o.a[AXIS] = ndd("a"); o.b[AXIS] = ndd("b"); w[AXIS] = ndd("w");
    o.empty = !(o.a[AXIS] <= o.b[AXIS]);
    Box3d x(Interval1d(o.a[0], o.b[0]), Interval1d(o.a[1], o.b[1]), Interval1d(o.a[2], o.b[2]));
    Box3d z = x.dilatedBy(w[0], w[1], w[2]);
    B v = view(z);
    invariants(z);
    VF_ASSERT(IMP(o.empty, v.empty), "dilating an empty box has no effect");
    double e = w[AXIS];
    for (int i = 0; i < 3; ++i) if (i != AXIS) VF_ASSERT(OR(v.empty, AND(v.a[i] == o.a[i] - w[i], v.b[i] == o.b[i] + w[i])), "each axis is dilated by its own amount");
    double la = o.a[AXIS] - e, lb = o.b[AXIS] + e;
    bool inf = AND(o.a[AXIS] == -__builtin_inf(), o.b[AXIS] == __builtin_inf());
    VF_ASSERT(IMP(AND(AND(!o.empty, !inf), AND(e != 0, finite_(e))), OR(AND(v.empty, !(la <= lb)), AND(v.a[AXIS] == la, v.b[AXIS] == lb))), "dilation moves the bounds out");
    VF_ASSERT(IMP(AND(!o.empty, OR(isnan_(e), e == 0)), AND(v.a[AXIS] == o.a[AXIS], v.b[AXIS] == o.b[AXIS])), "dilating by zero or NaN has no effect");
    Box3d y = x;
    VF_ASSERT(&y.dilateBy(w[0], w[1], w[2]) == &y, "dilateBy returns its object");
    VF_ASSERT(y == z, "dilateBy and dilatedBy agree");
    VF_ASSERT(x.erodedBy(-w[0], -w[1], -w[2]) == z, "erosion is dilation by negated amounts");
    Box3d u = x;
    u.erodeBy(-w[0], -w[1], -w[2]);
    VF_ASSERT(u == z, "erodeBy and erodedBy agree");
    if (neg) { vf_reach("dilate"); return; }
    Box3d t = x.dilatedBy(e);
    VF_ASSERT(t == x.dilatedBy(e, e, e), "dilation by one amount dilates every axis by it");
    Box3d s = x, q = x;
    VF_ASSERT(s.dilateBy(e) == t, "dilateBy and dilatedBy agree");
    VF_ASSERT(x.erodedBy(-e) == t, "erosion is dilation by negated amounts");
    VF_ASSERT(q.erodeBy(-e) == t, "erodeBy and erodedBy agree");
    vf_reach("dilate");
}
