// ConvexPolygon: convex hulls, containment and relationships of polygons.
//
// Points are known only by their orientations: lsst::sphgeom::orientation (its own accuracy is not
// the subject) answers from a symbolic chirotope, that is, a sign for every three points subject to
// the Grassmann-Pluecker relations. Every configuration of up to 8 points on the sphere, no two of them
// equal or antipodal, gives such signs, and vice versa. Coordinates are concrete and serve to tell points apart.
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <stdexcept>
#include <vector>
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/Circle.h"
#include "lsst/sphgeom/orientation.h"
#include "vf.h"
using namespace lsst::sphgeom;

static int const MAXN = 9;
static int N;                      // number of points; point N - 1 may be auxiliary
static int8_t X[MAXN][MAXN][MAXN]; // only i < j < k are used
static UnitVector3d PT[MAXN];

static int chi(int i, int j, int k) {
    if (i == j || j == k || i == k) return 0;
    int s = 1;
    if (i > j) std::swap(i, j), s = -s;
    if (j > k) std::swap(j, k), s = -s;
    if (i > j) std::swap(i, j), s = -s;
    return s * X[i][j][k];
}
static bool pos(int a, int b) { return OR(AND(a > 0, b > 0), AND(a < 0, b < 0)); }
static bool neg(int a, int b) { return OR(AND(a > 0, b < 0), AND(a < 0, b > 0)); }

static void setup(int n, bool uniform) {
    static double const C[MAXN][3] = {{0.9, 0.1, 0.2}, {-0.3, 0.8, 0.4}, {0.2, -0.7, 0.5}, {0.5, 0.6, -0.4}, {-0.6, -0.2, 0.7},
                                      {0.1, 0.3, 0.95}, {-0.8, 0.35, -0.15}, {0.45, -0.55, -0.65}, {0.77, 0.42, 0.31}};
    N = n;
    for (int i = 0; i < n; ++i) PT[i] = UnitVector3d(Vector3d(C[i][0], C[i][1], C[i][2]));
    for (int i = 0; i < n; ++i)
        for (int j = i + 1; j < n; ++j)
            for (int k = j + 1; k < n; ++k) {
                int8_t x = (int8_t)nd8("chi");
                vf_assume(AND(AND(x >= -1, x <= 1), uniform ? x != 0 : true));
                X[i][j][k] = x;
            }
    bool ok = true;
    for (int a = 0; a < n; ++a)
        for (int x = 0; x < n; ++x)
            for (int y = x + 1; y < n; ++y)
                for (int z = y + 1; z < n; ++z)
                    for (int w = z + 1; w < n; ++w) {
                        if (a == x || a == y || a == z || a == w) continue;
                        int p = chi(a, x, y), q = chi(a, z, w), r = chi(a, x, z), s = chi(a, y, w), t = chi(a, x, w), u = chi(a, y, z);
                        bool someP = OR(OR(pos(p, q), neg(r, s)), pos(t, u)), someN = OR(OR(neg(p, q), pos(r, s)), neg(t, u));
                        ok = AND(ok, someP == someN);
                    }
    if (!uniform)  // two points on the great circle through two others: all four are on it
        for (int a = 0; a < n; ++a)
            for (int b = a + 1; b < n; ++b)
                for (int c = 0; c < n; ++c)
                    for (int d = c + 1; d < n; ++d) {
                        if (a == c || a == d || b == c || b == d) continue;
                        ok = AND(ok, IMP(AND(chi(a, b, c) == 0, chi(a, b, d) == 0), AND(chi(a, c, d) == 0, chi(b, c, d) == 0)));
                    }
    vf_assume(ok);
}

// index of a point; the sign is flipped for its antipode. -1 for others
static int find(UnitVector3d const& v, int& sign) {
    for (int i = 0; i < N; ++i) {
        if (v == PT[i]) return i;
        if (v == -PT[i]) {
            sign = -sign;
            return i;
        }
    }
    return -1;
}
static int AUX = -1;  // point that is on no great circle through two others
int vf_orientation(UnitVector3d const& a, UnitVector3d const& b, UnitVector3d const& c) __asm__("_ZN4lsst7sphgeom11orientationERKNS0_12UnitVector3dES3_S3_");
int vf_orientation(UnitVector3d const& a, UnitVector3d const& b, UnitVector3d const& c) {
    int sign = 1;
    int i = find(a, sign), j = find(b, sign), k = find(c, sign);
    if (i >= 0 && j >= 0 && k >= 0) return sign * chi(i, j, k);
    // the normal of the plane through two points, and two points that are also on it
    UnitVector3d n = a;
    if (j < 0) n = b, j = k, k = i;
    else if (k < 0) n = c, k = j, j = i;
    if (AUX < 0 || j < 0 || k < 0) vf_unsupported();
    for (int x = 0; x < N; ++x)
        for (int y = 0; y < N; ++y) {
            if (x == y) continue;
            Vector3d m = PT[x].cross(PT[y]);
            if (m.dot(n) / std::sqrt(m.dot(m)) < 1.0 - 1e-12) continue;
            if (vf_split(OR(chi(x, y, j) != 0, chi(x, y, k) != 0))) vf_unsupported();
            int s = chi(AUX, x, y), t = chi(AUX, j, k);
            return sign * ((int)pos(s, t) - (int)neg(s, t));
        }
    vf_unsupported();
}

static std::vector<int> vertices(ConvexPolygon const& p) {
    std::vector<int> r;
    for (UnitVector3d const& v : p.getVertices()) {
        int s = 1;
        r.push_back(find(v, s));
        VF_ASSERT(r.back() >= 0 && s == 1, "vertices of the hull are among the points");
    }
    return r;
}

#ifndef NPOINTS
#define NPOINTS 4
#endif
#ifndef UNIFORM
#define UNIFORM 0
#endif
extern "C" void harness_hull() {
    int const n = NPOINTS;
    setup(n + 1, UNIFORM);
    AUX = n;
    for (int i = 0; i < n; ++i)
        for (int j = i + 1; j < n; ++j) vf_assume(chi(AUX, i, j) != 0);
    // is there a hemisphere with all points in its interior, and are they on no great circle?
    bool some = false, circuit = false;
    for (int a = 0; a < n; ++a)
        for (int b = a + 1; b < n; ++b)
            for (int c = b + 1; c < n; ++c) {
                int x = chi(a, b, c);
                some = OR(some, x != 0);
                circuit = OR(circuit, AND(x == 0, AND(pos(chi(AUX, a, b), chi(AUX, b, c)), pos(chi(AUX, b, c), chi(AUX, c, a)))));
                for (int d = c + 1; d < n; ++d) {
                    int y = chi(b, c, d), z = chi(a, c, d), w = chi(a, b, d);
                    circuit = OR(circuit, AND(AND(neg(y, z), pos(y, w)), neg(y, x)));
                }
            }
    std::vector<UnitVector3d> pts(PT, PT + n);
#ifdef DUPLICATE
    pts.insert(pts.begin() + vf_choose("at", n + 1), PT[vf_choose("duplicate", n)]);
#endif
    bool threw = false;
    try {
        ConvexPolygon p(pts);
        std::vector<int> v = vertices(p);
        VF_ASSERT(v.size() >= 3, "at least three vertices");
        for (size_t i = 0; i < v.size(); ++i) {
            int a = v[i], b = v[(i + 1) % v.size()];
            for (size_t j = 0; j < v.size(); ++j)
                if (v[j] != a && v[j] != b) VF_ASSERT(chi(v[j], a, b) > 0, "vertices are strictly convex and in counter-clockwise order");
            for (int k = 0; k < n; ++k) VF_ASSERT(chi(k, a, b) >= 0, "all points are in the hull");
        }
        for (int k = 0; k < n; ++k) VF_ASSERT(vf_split(p.contains(PT[k])), "the hull contains all points");
        vf_reach("hull");
    } catch (std::invalid_argument&) {
        threw = true;
        vf_reach("rejected");
    }
    VF_ASSERT(threw == OR(!some, circuit), "exactly points in no open hemisphere or on one great circle are rejected");
}

// The hull does not depend on the order of points.
extern "C" void harness_order() {
    int const n = NPOINTS;
    setup(n + 1, UNIFORM);
    AUX = n;
    for (int i = 0; i < n; ++i)
        for (int j = i + 1; j < n; ++j) vf_assume(chi(AUX, i, j) != 0);
    std::vector<UnitVector3d> p(PT, PT + n), q;
    std::vector<int> left;
    for (int i = 0; i < n; ++i) left.push_back(i);
    while (!left.empty()) {
        size_t k = (size_t)vf_choose("order", left.size());
        q.push_back(PT[left[k]]);
        left.erase(left.begin() + k);
    }
    bool a = false, b = false;
    std::vector<UnitVector3d> u, v;
    try { u = ConvexPolygon(p).getVertices(); } catch (std::invalid_argument&) { a = true; }
    try { v = ConvexPolygon(q).getVertices(); } catch (std::invalid_argument&) { b = true; }
    VF_ASSERT(a == b, "whether points are rejected does not depend on their order");
    if (a) return;
    VF_ASSERT(u.size() == v.size(), "hulls have the same number of vertices");
    VF_ASSERT(ConvexPolygon(p) == ConvexPolygon(q) && !(ConvexPolygon(p) != ConvexPolygon(q)), "hulls are equal");
    for (UnitVector3d const& x : u) VF_ASSERT(std::find(v.begin(), v.end(), x) != v.end(), "hulls have the same vertices");
    vf_reach("order");
}

// Equality is equality of the cycles of vertices.
extern "C" void harness_equal() {
    N = 5;
    setup(5, true);
    int m = 3 + (int)vf_choose("m", 2), k = 3 + (int)vf_choose("k", 2), a[4], b[4];
    for (int i = 0; i < m; ++i) {
        a[i] = (int)vf_choose("a", 5);
        for (int j = 0; j < i; ++j) vf_assume(a[i] != a[j]);
    }
    for (int i = 0; i < k; ++i) {
        b[i] = (int)vf_choose("b", 5);
        for (int j = 0; j < i; ++j) vf_assume(b[i] != b[j]);
    }
    auto mk = [](int n, int const* x) { return n == 3 ? ConvexPolygon(PT[x[0]], PT[x[1]], PT[x[2]]) : ConvexPolygon(PT[x[0]], PT[x[1]], PT[x[2]], PT[x[3]]); };
    ConvexPolygon p = mk(m, a), q = mk(k, b);
    bool same = false;
    for (int r = 0; r < m; ++r) {
        bool s = m == k;
        for (int i = 0; s && i < m; ++i) s = a[i] == b[(i + r) % m];
        same = same || s;
    }
    VF_ASSERT((p == q) == same && (p != q) == !same && (q == p) == same, "polygons are equal if their vertices are the same up to rotation");
    VF_ASSERT(ConvexPolygon(p) == p, "copies are equal");
    vf_reach("equal");
}

#ifndef SHARED
#define SHARED 3
#endif
#ifndef NA
#define NA 3
#endif
#ifndef NB
#define NB 3
#endif
static bool inside(int const* v, int n, int p) {
    bool r = true;
    for (int i = 0; i < n; ++i) r = AND(r, chi(p, v[i], v[(i + 1) % n]) >= 0);
    return r;
}
extern "C" void harness_relate() {
    // vertices that the polygons share: none, one, or an edge (in either direction)
    int mode = (int)vf_choose("shared", SHARED + 1), shared = mode == 3 ? 2 : mode;
    int a[4], b[4];
    for (int i = 0; i < NA; ++i) a[i] = i;
    for (int i = 0; i < NB; ++i) b[i] = i < shared ? (mode == 2 ? 1 - i : i) : NA + i - shared;
    int p = NA + NB - shared;
    setup(p + 1, UNIFORM);
    for (int i = 0; i < NA; ++i)
        vf_assume(chi(a[i], a[(i + 1) % NA], a[(i + 2) % NA]) > 0);
    for (int i = 0; i < NB; ++i)
        vf_assume(chi(b[i], b[(i + 1) % NB], b[(i + 2) % NB]) > 0);
    auto mk = [](int n, int const* x) { return n == 3 ? ConvexPolygon(PT[x[0]], PT[x[1]], PT[x[2]]) : ConvexPolygon(PT[x[0]], PT[x[1]], PT[x[2]], PT[x[3]]); };
    ConvexPolygon A = mk(NA, a), B = mk(NB, b);
    Relationship r = A.relate(B);
    bool dis = (r & DISJOINT).any(), within = (r & WITHIN).any(), con = (r & CONTAINS).any();
    bool pa = inside(a, NA, p), pb = inside(b, NB, p), allA = true, allB = true;
    VF_ASSERT(IMP(dis, !AND(pa, pb)), "polygons that are disjoint have no point in common");
    VF_ASSERT(IMP(within, IMP(pa, pb)), "points of a polygon are in polygons that it is within");
    VF_ASSERT(IMP(con, IMP(pb, pa)), "a polygon contains the points of polygons it contains");
    for (int i = 0; i < NA; ++i) allA = AND(allA, inside(b, NB, a[i]));
    for (int i = 0; i < NB; ++i) allB = AND(allB, inside(a, NA, b[i]));
    VF_ASSERT(IMP(allA, within), "a polygon with all its vertices inside of another is within that");
    VF_ASSERT(IMP(allB, con), "a polygon contains polygons with all vertices inside of it");
    bool common = false;
    for (int i = 0; i < NA; ++i) common = OR(common, inside(b, NB, a[i]));
    for (int i = 0; i < NB; ++i) common = OR(common, inside(a, NA, b[i]));
    for (int i = 0; i < NA; ++i)
        for (int j = 0; j < NB; ++j) {
            int x = a[i], y = a[(i + 1) % NA], z = b[j], w = b[(j + 1) % NB];
            bool sides = AND(neg(chi(x, z, w), chi(y, z, w)), neg(chi(z, x, y), chi(w, x, y)));
            common = OR(common, AND(sides, pos(chi(x, z, w), chi(w, x, y))));
        }
    VF_ASSERT(dis == !common, "polygons are disjoint exactly if no edges cross and no vertex of either is in the other");
    // a great circle through one vertex of each with the polygons on different sides
    bool separated = false;
    for (int i = 0; i < NA; ++i)
        for (int j = 0; j < NB; ++j) {
            bool s = true, t = true;
            if (a[i] == b[j]) continue;
            for (int k = 0; k < NA; ++k)
                if (k != i) s = AND(s, chi(a[i], b[j], a[k]) > 0), t = AND(t, chi(a[i], b[j], a[k]) < 0);
            for (int k = 0; k < NB; ++k)
                if (k != j) s = AND(s, chi(a[i], b[j], b[k]) < 0), t = AND(t, chi(a[i], b[j], b[k]) > 0);
            separated = OR(separated, OR(s, t));
        }
    VF_ASSERT(IMP(separated, dis), "polygons on different sides of a great circle are disjoint");
    vf_reach("relate");
}
extern "C" void harness_contains() {
    setup(5, false);
    for (int i = 0; i < 4; ++i) vf_assume(chi(i, (i + 1) % 4, (i + 2) % 4) > 0);
    int const a[] = {0, 1, 2, 3};
    VF_ASSERT(ConvexPolygon(PT[0], PT[1], PT[2], PT[3]).contains(PT[4]) == inside(a, 4, 4), "a polygon contains the points on the left of all edges");
    bool t = OR(chi(0, 1, 2) <= 0, false);
    VF_ASSERT(!t && ConvexPolygon(PT[0], PT[1], PT[2]).contains(PT[4]) == inside(a, 3, 4), "a triangle contains the points on the left of all edges");
    for (int i = 0; i < 4; ++i) VF_ASSERT(ConvexPolygon(PT[0], PT[1], PT[2], PT[3]).contains(PT[i]), "a polygon contains its vertices");
    vf_reach("contains");
}
