// Pixel indexes: which integers are valid, at what level, how they are written, and which pixel
// a point belongs to.
#include <cmath>
#include <cstdlib>
#include <stdexcept>
#include <string>
#include <vector>
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/HtmPixelization.h"
#include "lsst/sphgeom/Q3cPixelization.h"
#include "lsst/sphgeom/Mq3cPixelization.h"
#include "lsst/sphgeom/RangeSet.h"
#include "lsst/sphgeom/curve.h"
#include "vf.h"
using namespace lsst::sphgeom;

// Only declared in the headers (instantiated in the C++ library).
char* vf_create(std::string*, size_t& cap, size_t old) __asm__("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createERmm");
char* vf_create(std::string*, size_t& cap, size_t old) {
    if (cap > old && cap < 2 * old) cap = 2 * old;
    return (char*)::operator new(cap + 1);
}

// PIX: 0 HTM, 1 Q3C, 2 MQ3C
#if PIX == 0
typedef HtmPixelization Pix;
static uint64_t const F0 = 8, NF = 8;
#elif PIX == 1
typedef Q3cPixelization Pix;
static uint64_t const F0 = 0, NF = 6;
#else
typedef Mq3cPixelization Pix;
static uint64_t const F0 = 10, NF = 6;
#endif
static bool valid(int l, uint64_t i) { return AND(i >= F0 << (2 * l), i - (F0 << (2 * l)) < NF << (2 * l)); }

#if PIX != 1
extern "C" void harness_level() {
    uint64_t i = nd64("i");
    int l = Pix::level(i), want = -1;
    for (int k = 0; k <= 30; ++k)
        if (vf_split(valid(k, i))) want = k;
    VF_ASSERT(l == want, "level(i) is L for the pixels of level L, and -1 if there is no such level");
    vf_reach("level");
}
#endif

extern "C" void harness_ctor() {
    uint32_t l = nd32("level");
    bool ok = true;
    try {
        Pix p((int)l);
        VF_ASSERT(p.getLevel() == (int)l, "getLevel");
        vf_reach("accepted");
    } catch (std::invalid_argument&) {
        ok = false;
        vf_reach("rejected");
    }
    VF_ASSERT(ok == AND((int)l >= 0, (int)l <= Pix::MAX_LEVEL), "levels 0 to MAX_LEVEL are accepted, others rejected");
}

extern "C" void harness_universe() {
    int l = (int)vf_choose("level", Pix::MAX_LEVEL + 1);
    Pix p(l);
    RangeSet u = p.universe();
    uint64_t i = nd64("i");
    VF_ASSERT(vf_split(valid(l, i)) == u.contains(i), "the universe is the set of all pixel indexes");
    vf_reach("universe");
}

// Every function of an index rejects invalid ones, and only those.
// (HtmPixelization::pixel and the static functions accept the pixels of all levels).
extern "C" void harness_invalid() {
    uint64_t i = nd64("i");
    int op = (int)vf_choose("function", 4);
    int l = (int)vf_choose("level", Pix::MAX_LEVEL + 1);
    Pix p(l);
    bool ok = valid(l, i), any = ok;
#if PIX != 1
    for (int k = 0; k <= Pix::MAX_LEVEL; ++k) any = OR(any, valid(k, i));
    vf_assume(op < 3 || (PIX == 2) || l == 0);
    if (op != 3) vf_assume(l == 0);
    ok = op == 3 && PIX == 2 ? ok : any;
#endif
    vf_assume(!ok);
    bool threw = false;
    try {
        switch (op) {
#if PIX == 0
            case 0: (void)Pix::triangle(i); break;
            case 1: (void)Pix::asString(i); break;
            case 2: (void)p.toString(i); break;
            case 3: (void)p.pixel(i); break;
#else
            case 0: (void)p.quad(i); break;
            case 1: (void)p.neighborhood(i); break;
            case 2: (void)p.toString(i); break;
            case 3: (void)p.pixel(i); break;
#endif
        }
    } catch (std::invalid_argument&) {
        threw = true;
        vf_reach("rejected");
    }
    VF_ASSERT(threw, "invalid indexes are rejected with std::invalid_argument");
}

// Strings: letter(s) for the root, then one base 4 digit per level.
extern "C" void harness_string() {
    int l = (int)vf_choose("level", Pix::MAX_LEVEL + 1);
    uint64_t i = nd64("i");
    vf_assume(valid(l, i));
    Pix p(l);
    std::string s = p.toString(i);
    uint64_t root = vf_concrete((i >> (2 * l)) - F0);
#if PIX == 0
    VF_ASSERT(s.size() == (size_t)l + 2, "length");
    VF_ASSERT(s[0] == (root < 4 ? 'S' : 'N'), "hemisphere");
    VF_ASSERT(s[1] == '0' + (char)(root & 3), "root triangle");
#else
    static char const* const NAMES[2][6] = {{"+Z", "+X", "+Y", "-X", "-Y", "-Z"}, {"-Z", "+X", "+Y", "+Z", "-X", "-Y"}};
    VF_ASSERT(s.size() == (size_t)l + 2, "length");
    VF_ASSERT(s[0] == NAMES[PIX - 1][root][0] && s[1] == NAMES[PIX - 1][root][1], "cube face");
#endif
    for (int k = 0; k < l; ++k) VF_ASSERT(s[l + 1 - k] == '0' + (char)((i >> (2 * k)) & 3), "digit");
    vf_reach("string");
}

#if PIX == 0
// The center of a triangle belongs to it (concrete; all digits but one or two are equal).
extern "C" void harness_centers() {
    static int const levels[] = {LEVELS};
    int l = levels[vf_choose("level", sizeof(levels) / sizeof(int))];
    uint64_t i = 8 + vf_choose("root", 8), d = vf_choose("digit", 4), e = vf_choose("other", 4);
    int where = (int)vf_choose("where", 3);
    for (int k = 0; k < l; ++k) i = i << 2 | (k == (where == 0 ? 0 : where == 1 ? l / 2 : l - 1) ? e : d);
    ConvexPolygon t = HtmPixelization::triangle(i);
    UnitVector3d c(t.getVertices()[0] + t.getVertices()[1] + t.getVertices()[2]);
    VF_ASSERT(t.contains(c), "a triangle contains its center");
    VF_ASSERT(Pix(l).index(c) == i, "the index of the center of a triangle");
    vf_reach("centers");
}
#endif

#if PIX != 0
// Points. The component of the cube face of a point is 1, the other two are symbolic.
struct Face { int c[3]; int k[3]; };
#if PIX == 2
static Face const FACES[6] = {{{0, 1, 2}, {1, 1, -1}}, {{1, 2, 0}, {1, 1, 1}}, {{2, 0, 1}, {1, -1, 1}},
                              {{0, 1, 2}, {-1, -1, 1}}, {{1, 2, 0}, {-1, -1, -1}}, {{2, 0, 1}, {-1, 1, -1}}};
#else
static Face const FACES[6] = {{{1, 0, 2}, {1, -1, 1}}, {{1, 2, 0}, {1, 1, 1}}, {{0, 2, 1}, {-1, 1, 1}},
                              {{1, 2, 0}, {-1, 1, -1}}, {{0, 2, 1}, {1, 1, -1}}, {{1, 0, 2}, {1, 1, -1}}};
#endif

// The face of every point is one whose component is largest.
extern "C" void harness_face() {
    double x[3];
    for (int k = 0; k < 3; ++k) {
        x[k] = ndd(k == 0 ? "x" : k == 1 ? "y" : "z");
        vf_assume(std::fabs(x[k]) <= 1.0);
    }
    vf_assume(OR(OR(x[0] != 0.0, x[1] != 0.0), x[2] != 0.0));
    static int const levels[] = {LEVELS};
    int l = levels[vf_choose("level", sizeof(levels) / sizeof(int))];
    uint64_t i = Pix(l).index(UnitVector3d::fromNormalized(x[0], x[1], x[2]));
    VF_ASSERT(valid(l, i), "the index of a point is valid");
    int f = (int)vf_concrete((i >> (2 * l)) - F0);
    double m = x[FACES[f].c[2]] * FACES[f].k[2];
    VF_ASSERT(AND(m >= std::fabs(x[FACES[f].c[0]]), m >= std::fabs(x[FACES[f].c[1]])), "the cube face of a point");
    vf_reach("face");
}

// Points in a representative set of grid cells belong to the pixel of that cell; points at the
// corners and edges of the cell belong to some pixel that contains them.
extern "C" void harness_cells() {
    static int const levels[] = {LEVELS};
    int l = levels[vf_choose("level", sizeof(levels) / sizeof(int))];
    int f = (int)vf_choose("face", 6);
    int64_t n = (int64_t)1 << l;
    int64_t const reps[5] = {0, n - 1, n / 2, n / 3, n / 2 - 1};
    double const offs[5] = {0.5, 1.0 / 64, 63.0 / 64, 0.0, 1.0};
    int nr = l == 0 ? 1 : l == 1 ? 2 : 5;
    double x[3];
    int64_t st[2];
    x[FACES[f].c[2]] = FACES[f].k[2];
    bool inside = true;
    for (int k = 0; k < 2; ++k) {
        st[k] = reps[vf_choose(k ? "t" : "s", nr)];
        int o = (int)vf_choose("offset", 5);
        inside = inside && o < 3;
        double g = ((double)st[k] + offs[o]) * 2.0 / (double)n - 1.0;
#if PIX == 2
        g = std::copysign(2.0 - std::sqrt(4.0 - 3.0 * std::fabs(g)), g);
#endif
        x[FACES[f].c[k]] = FACES[f].k[k] * g;
    }
    UnitVector3d v(x[0], x[1], x[2]);
    uint64_t i = Pix(l).index(v);
    VF_ASSERT(valid(l, i), "the index of a point is valid");
#if PIX == 1
    uint64_t c = mortonIndex((uint32_t)st[0], (uint32_t)st[1]);
#else
    uint64_t c = hilbertIndex((uint32_t)st[0], (uint32_t)st[1], l);
#endif
    VF_ASSERT(!inside || i == ((F0 + f) << (2 * l) | c), "the pixel of a point is that of its grid cell");
    VF_ASSERT(Pix(l).quad(i).contains(v), "the pixel of a point contains it");
    vf_reach("cells");
}

extern "C" void harness_index() {
    static int const levels[] = {LEVELS};
    int l = levels[vf_choose("level", sizeof(levels) / sizeof(int))];
    double x[3], g[2];
    int f = (int)vf_choose("face", 6);
    x[FACES[f].c[2]] = FACES[f].k[2];
    int which = (int)vf_choose("coordinate", 2), sign = (int)vf_choose("sign", 2), e = (int)vf_choose("exponent", 3);
    for (int k = 0; k < 2; ++k) {
        uint64_t b = 0x3fc8f0e1d2c3b4a5ull;
        if (k == which) b = (uint64_t)sign << 63 | (uint64_t)(1022 - e) << 52 | (nd64("mantissa") & 0xffff000000000ull);
        double u;
        std::memcpy(&u, &b, 8);
        x[FACES[f].c[k]] = FACES[f].k[k] * u;
#if PIX == 2
        g[k] = u * (4.0 / 3.0 - 1.0 / 3.0 * std::fabs(u));
#else
        g[k] = u;
#endif
    }
    UnitVector3d p = UnitVector3d::fromNormalized(x[0], x[1], x[2]);
    uint64_t i = Pix(l).index(p);
    VF_ASSERT(i >> (2 * l) == F0 + f, "cube face");
    if (l > 0) VF_ASSERT(i >> 2 == Pix(l - 1).index(p), "pixels are nested");
#if PIX == 1
    std::tuple<uint32_t, uint32_t> st = mortonIndexInverse(i & (((uint64_t)1 << (2 * l)) - 1));
#else
    std::tuple<uint32_t, uint32_t> st = hilbertIndexInverse(i & (((uint64_t)1 << (2 * l)) - 1), l);
#endif
    double n = (double)((uint64_t)1 << l);
    for (int k = 0; k < 2; ++k) {
        double lo = 2.0 * (double)(int32_t)(k ? std::get<1>(st) : std::get<0>(st)) / n - 1.0;
        double eps = 1.0 / (1 << 30) / (1 << 20), hi = lo + 2.0 / n;
        VF_ASSERT(OR(g[k] >= lo - eps, lo <= -1.0), "the grid cell of a point (lower end)");
        VF_ASSERT(OR(g[k] <= hi + eps, hi >= 1.0), "the grid cell of a point (upper end)");
    }
    vf_reach("index");
}
#endif
