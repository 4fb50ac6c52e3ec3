// Neighborhoods of Q3C and MQ3C pixels, and the geometry they imply.
//
// The space filling curves are replaced by a simpler bijection between grid coordinates and
// indexes (their own correctness is property C05), and std::sort followed by std::unique by a simpler removal of duplicates.
#include <cmath>
#include <cstdlib>
#include <tuple>
#include <vector>
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/Q3cPixelization.h"
#include "lsst/sphgeom/Mq3cPixelization.h"
#include "vf.h"
using namespace lsst::sphgeom;
#ifndef LEVELS
#define LEVELS 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30
#endif
static int const levels[] = {LEVELS};

static int LV;
#ifdef REAL
#include "lsst/sphgeom/curve.h"
#endif
typedef std::tuple<uint32_t, uint32_t> UV;
static inline uint64_t lowMask() { return ((uint64_t)1 << LV) - 1; }
#ifndef REAL
uint64_t vf_morton(uint32_t s, uint32_t t) __asm__("_ZN4lsst7sphgeom11mortonIndexEjj");
uint64_t vf_morton(uint32_t s, uint32_t t) { return ((uint64_t)t << LV) | s; }
UV vf_mortonInverse(uint64_t z) __asm__("_ZN4lsst7sphgeom18mortonIndexInverseEm");
UV vf_mortonInverse(uint64_t z) { return UV((uint32_t)(z & lowMask()), (uint32_t)(z >> LV)); }
uint64_t vf_hilbert(uint32_t s, uint32_t t, int m) __asm__("_ZN4lsst7sphgeom12hilbertIndexEjji");
uint64_t vf_hilbert(uint32_t s, uint32_t t, int m) { return ((uint64_t)t << LV) | s; }
UV vf_hilbertInverse(uint64_t z, int m) __asm__("_ZN4lsst7sphgeom19hilbertIndexInverseEmi");
UV vf_hilbertInverse(uint64_t z, int m) { return UV((uint32_t)(z & lowMask()), (uint32_t)((z >> LV) & lowMask())); }
static uint64_t* sortedRange[2];
static uint64_t* sortedStart() { return sortedRange[0]; }
void vf_sort(uint64_t* b, uint64_t* e) __asm__("_ZSt4sortIPmEvT_S1_");
void vf_sort(uint64_t* b, uint64_t* e) {
    sortedRange[0] = b;
    sortedRange[1] = e;
}
uint64_t* vf_unique(uint64_t* b, uint64_t* e) __asm__("_ZSt6uniqueIPmET_S1_S1_");
uint64_t* vf_unique(uint64_t* b, uint64_t* e) {
    VF_ASSERT(sortedRange[0] == b && sortedRange[1] == e, "indexes are sorted before duplicates are removed");
    uint64_t* o = b;
    for (; b != e; ++b) {
        bool dup = false;
        for (uint64_t* k = sortedStart(); k != o; ++k) dup = OR(dup, *k == *b);
        if (!dup) *o++ = *b;
    }
    return o;
}
#endif

// Cube faces: component of u, v and w, and their signs (documented by toString, checked against
// pixel polygons in harness_faces).
struct Face { int c[3]; int k[3]; };
#ifdef MQ3C
static Face const FACES[6] = {{{0, 1, 2}, {1, 1, -1}}, {{1, 2, 0}, {1, 1, 1}}, {{2, 0, 1}, {1, -1, 1}},
                              {{0, 1, 2}, {-1, -1, 1}}, {{1, 2, 0}, {-1, -1, -1}}, {{2, 0, 1}, {-1, 1, -1}}};
#define F0 10
static std::vector<uint64_t> neighborhood(uint64_t i) { return Mq3cPixelization::neighborhood(i); }
static ConvexPolygon quad(uint64_t i) { return Mq3cPixelization::quad(i); }
#else
static Face const FACES[6] = {{{1, 0, 2}, {1, -1, 1}}, {{1, 2, 0}, {1, 1, 1}}, {{0, 2, 1}, {-1, 1, 1}},
                              {{1, 2, 0}, {-1, 1, -1}}, {{0, 2, 1}, {1, 1, -1}}, {{1, 0, 2}, {1, 1, -1}}};
#define F0 0
static std::vector<uint64_t> neighborhood(uint64_t i) { return Q3cPixelization(LV).neighborhood(i); }
static ConvexPolygon quad(uint64_t i) { return Q3cPixelization(LV).quad(i); }
#endif

// The corner (s, t) of the grid of a face, as a point on the cube [-2^L, 2^L]^3.
struct Corner { int64_t x[3]; };
static Corner corner(int f, int64_t s, int64_t t) {
    int64_t n = (int64_t)1 << LV;
    int64_t u = 2 * s - n, v = 2 * t - n;
    Corner c;
    c.x[FACES[f].c[0]] = FACES[f].k[0] * u;
    c.x[FACES[f].c[1]] = FACES[f].k[1] * v;
    c.x[FACES[f].c[2]] = FACES[f].k[2] * n;
    return c;
}
static bool same(Corner const& a, Corner const& b) {
    return AND(a.x[0] == b.x[0], AND(a.x[1] == b.x[1], a.x[2] == b.x[2]));
}
static uint64_t pick(const char* face, const char* ns, const char* nt, int& f, uint64_t& s, uint64_t& t) {
    f = (int)vf_choose(face, 6);
    s = nd64(ns), t = nd64(nt);
    vf_assume(AND(s <= lowMask(), t <= lowMask()));
    return (uint64_t)(f + F0) << (2 * LV) | t << LV | s;
}

extern "C" void harness_neighborhood() {
    LV = levels[vf_choose("level", sizeof(levels) / sizeof(int))];
    int f, g;
    uint64_t s, t, a, b;
    uint64_t i = pick("face", "s", "t", f, s, t);
    std::vector<uint64_t> r = neighborhood(i);
    uint64_t m = lowMask();
    bool cornered = AND(OR(s == 0, s == m), OR(t == 0, t == m));
    VF_ASSERT(r.size() == (LV == 0 ? 5 : 9 - (size_t)cornered), "number of neighbors");
    for (size_t k = 1; k < r.size(); ++k)
        for (size_t l = 0; l < k; ++l) VF_ASSERT(r[l] != r[k], "neighbors are distinct");
    bool self = false;
    for (uint64_t k : r) {
        self = OR(self, k == i);
        VF_ASSERT(AND(k >= (uint64_t)F0 << (2 * LV), k - ((uint64_t)F0 << (2 * LV)) < (uint64_t)6 << (2 * LV)), "neighbors are valid pixels");
    }
    VF_ASSERT(self, "a pixel belongs to its neighborhood");
    // another pixel is in the neighborhood iff it shares a vertex
    uint64_t j = pick("face2", "s2", "t2", g, a, b);
    bool shares = false, in = false;
    for (int x = 0; x < 4; ++x)
        for (int y = 0; y < 4; ++y) shares = OR(shares, same(corner(f, s + (x & 1), t + (x >> 1)), corner(g, a + (y & 1), b + (y >> 1))));
    for (uint64_t k : r) in = OR(in, k == j);
    VF_ASSERT(IMP(in, shares), "all neighbors share a vertex with the pixel");
    VF_ASSERT(IMP(shares, in), "all pixels that share a vertex are neighbors");
    vf_reach("neighborhood");
}

// Vertices of the pixel polygon are the corners of its grid cell, on the real code's own faces.
extern "C" void harness_faces() {
    LV = levels[vf_choose("level", sizeof(levels) / sizeof(int))];
    int f;
    uint64_t s, t;
    uint64_t i = pick("face", "s", "t", f, s, t);
    s = vf_concrete(s);
    t = vf_concrete(t);
#ifdef REAL
    i = (uint64_t)(f + F0) << (2 * LV) | (F0 ? hilbertIndex(s, t, LV) : mortonIndex(s, t));
#endif
    ConvexPolygon q = quad(i);
    double n = std::ldexp(1.0, LV);
    for (int x = 0; x < 4; ++x) {
        Corner c = corner(f, s + (x & 1), t + (x >> 1));
        double p[3], w[3];
        for (int k = 0; k < 3; ++k) p[k] = c.x[k] / n;
        for (int k = 0; k < 3; ++k) {
            w[k] = p[k];
#ifdef MQ3C
            // grid coordinates are (nearly) proportional to angles: g = u (4 - |u|) / 3
            if (k != FACES[f].c[2]) w[k] = std::copysign(2.0 - std::sqrt(4.0 - 3.0 * std::fabs(p[k])), p[k]);
#endif
        }
        double norm = std::sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]);
        bool found = false;
        for (UnitVector3d const& v : q.getVertices())
            found = found || (std::fabs(v.x() - w[0] / norm) < 1e-12 && std::fabs(v.y() - w[1] / norm) < 1e-12 && std::fabs(v.z() - w[2] / norm) < 1e-12);
        VF_ASSERT(found, "the vertices of a pixel are the corners of its grid cell");
    }
    vf_reach("faces");
}
