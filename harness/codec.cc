// Region serialization: the byte format, round trips, and decoding of arbitrary bytes.
#include "vf.h"
#include <stdexcept>
#include <vector>
#include "lsst/sphgeom/Box.h"
#include "lsst/sphgeom/Circle.h"
#include "lsst/sphgeom/CompoundRegion.h"
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/Ellipse.h"
#include "lsst/sphgeom/Region.h"
#include "lsst/sphgeom/codec.h"
using namespace lsst::sphgeom;
typedef std::vector<std::uint8_t> Bytes;
#ifndef NMAX
#define NMAX 101
#endif

static void putU64(Bytes& b, uint64_t v) { for (int i = 0; i < 8; ++i) b.push_back((uint8_t)(v >> (8 * i))); }
static void put(Bytes& b, double d) { putU64(b, bitsof(d)); }
static bool same(Bytes const& a, Bytes const& b) {
    if (a.size() != b.size()) return false;
    bool r = true;
    for (size_t i = 0; i < a.size(); ++i) r = AND(r, a[i] == b[i]);
    return r;
}
static bool eqb(double a, double b) { return bitsof(a) == bitsof(b); }
static UnitVector3d vec(double* d, const char* n) {
    for (int i = 0; i < 3; ++i) d[i] = ndd(n);
    return UnitVector3d::fromNormalized(d[0], d[1], d[2]);
}
static bool is(UnitVector3d const& v, double const* d) { return AND(eqb(v.x(), d[0]), AND(eqb(v.y(), d[1]), eqb(v.z(), d[2]))); }

extern "C" void harness_primitives() {
    double d = ndd("d");
    uint64_t u = nd64("u");
    Bytes b, e{7, 9};
    b.push_back(7);
    b.push_back(9);
    encodeDouble(d, b);
    encodeU64(u, b);
    put(e, d);
    putU64(e, u);
    VF_ASSERT(same(b, e), "encodeDouble and encodeU64 append little-endian bytes");
    VF_ASSERT(eqb(decodeDouble(e.data() + 2), d), "decodeDouble reads little-endian bytes");
    VF_ASSERT(decodeU64(e.data() + 10) == u, "decodeU64 reads little-endian bytes");
    vf_reach("primitives");
}
template <typename R> static void common(R const& r, Bytes const& expect) {
    Bytes b = r.encode();
    VF_ASSERT(same(b, expect), "encode produces the type code followed by the little-endian fields");
    auto q = R::decode(b.data(), b.size());
    VF_ASSERT(same(q->encode(), b), "decode inverts encode");
    auto g = Region::decode(b);
    VF_ASSERT(dynamic_cast<R*>(g.get()) != nullptr, "Region::decode produces the encoded type");
    VF_ASSERT(same(g->encode(), b), "Region::decode inverts encode");
    auto c = r.clone();
    VF_ASSERT(dynamic_cast<R*>(c.get()) != nullptr, "clones have the same type");
    VF_ASSERT(same(c->encode(), b), "clones are identical");
}
extern "C" void harness_circle() {
    double v[3];
    UnitVector3d c = vec(v, "v");
    double cl = ndd("cl2");
    Circle r(c, cl);
    double a = r.getOpeningAngle().asRadians();
    Bytes e{'c'};
    for (double x : v) put(e, x);
    put(e, cl);
    put(e, a);
    common(r, e);
    auto q = Circle::decode(e);
    VF_ASSERT(AND(is(q->getCenter(), v), AND(eqb(q->getSquaredChordLength(), cl), eqb(q->getOpeningAngle().asRadians(), a))), "decoded circles have the encoded center and size");
    bool nan = OR(isnan_(v[0]), OR(isnan_(v[1]), OR(isnan_(v[2]), isnan_(a))));
    VF_ASSERT(OR(nan, *q == r), "decoded circles equal the original");
    vf_reach("circle");
}
extern "C" void harness_polygon() {
    int n = 3 + vf_choose("extra", 2);
    double d[4][3];
    UnitVector3d v[4];
    for (int i = 0; i < n; ++i) v[i] = vec(d[i], "v");
    ConvexPolygon r = n == 3 ? ConvexPolygon(v[0], v[1], v[2]) : ConvexPolygon(v[0], v[1], v[2], v[3]);
    Bytes e{'p'};
    for (int i = 0; i < n; ++i) for (double x : d[i]) put(e, x);
    common(r, e);
    auto q = ConvexPolygon::decode(e);
    VF_ASSERT(q->getVertices().size() == (size_t)n, "decoded polygons have the encoded vertices");
    for (int i = 0; i < n; ++i) VF_ASSERT(is(q->getVertices()[i], d[i]), "decoded polygons have the encoded vertices");
    vf_reach("polygon");
}
extern "C" void harness_box() {
    double d[4];
    for (double& x : d) x = ndd("x");
    for (int i = 0; i < 2; ++i) vf_assume(OR(isnan_(d[i]), AND(d[i] >= 0, d[i] <= 2 * PI)));
    Box r(NormalizedAngleInterval::fromRadians(d[0], d[1]), AngleInterval::fromRadians(d[2], d[3]));
    double g[4] = {r.getLon().getA().asRadians(), r.getLon().getB().asRadians(), r.getLat().getA().asRadians(), r.getLat().getB().asRadians()};
    Bytes e{'b'};
    for (double x : g) put(e, x);
    Bytes b = r.encode();
    VF_ASSERT(same(b, e), "encode produces the type code followed by the little-endian fields");
    auto q = Box::decode(b);
    VF_ASSERT(*q == r, "decoded boxes equal the original");
    VF_ASSERT(AND(q->isEmpty() == r.isEmpty(), q->isFull() == r.isFull()), "decoded boxes equal the original");
    VF_ASSERT(OR(r.isEmpty(), same(q->encode(), b)), "decode inverts encode");
    auto h = Region::decode(b);
    VF_ASSERT(dynamic_cast<Box*>(h.get()) != nullptr, "Region::decode produces the encoded type");
    VF_ASSERT(static_cast<Box&>(*h) == r, "Region::decode inverts encode");
    auto c = r.clone();
    VF_ASSERT(dynamic_cast<Box*>(c.get()) != nullptr, "clones have the same type");
    VF_ASSERT(static_cast<Box&>(*c) == r, "clones are identical");
    vf_reach("box");
}
extern "C" void harness_ellipse() {
    double d[14];
    Bytes e{'e'};
    for (double& x : d) { x = ndd("x"); put(e, x); }
    auto q = Ellipse::decode(e);
    common(*q, e);
    Matrix3d const& m = q->getTransformMatrix();
    bool ok = true;
    for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) ok = AND(ok, eqb(m(r, c), d[3 * r + c]));
    VF_ASSERT(ok, "decoded ellipses have the encoded transform matrix");
    VF_ASSERT(is(q->getCenter(), d + 6), "decoded ellipses have the encoded center");
    VF_ASSERT(eqb(q->getAlpha().asRadians(), 0.5 * PI + d[9]), "decoded ellipses have the encoded semi-axes");
    VF_ASSERT(eqb(q->getBeta().asRadians(), 0.5 * PI + d[10]), "decoded ellipses have the encoded semi-axes");
    vf_reach("ellipse");
}
// Operands of every type, nested to depth 2
static std::unique_ptr<Region> operand(const char* n, Bytes& e, int depth) {
    int k = vf_choose(n, depth > 0 ? 6 : 4);
    double d[14];
    e.clear();
    switch (k) {
        case 0: e.push_back('c'); for (int i = 0; i < 5; ++i) put(e, ndd("c")); return Circle::decode(e);
        case 1: {
            for (int i = 0; i < 4; ++i) d[i] = ndd("b");
            vf_assume(AND(AND(d[0] >= 0, d[0] <= 2 * PI), AND(d[1] >= 0, d[1] <= 2 * PI)));
            vf_assume(AND(d[2] >= -0.5 * PI, AND(d[2] <= d[3], d[3] <= 0.5 * PI)));
            e.push_back('b');
            for (int i = 0; i < 4; ++i) put(e, d[i]);
            return std::unique_ptr<Region>(new Box(NormalizedAngleInterval::fromRadians(d[0], d[1]), AngleInterval::fromRadians(d[2], d[3])));
        }
        case 2: e.push_back('p'); for (int i = 0; i < 9; ++i) put(e, ndd("p")); return ConvexPolygon::decode(e);
        case 3: e.push_back('e'); for (int i = 0; i < 14; ++i) put(e, ndd("e")); return Ellipse::decode(e);
        default: {
            Bytes a, b;
            auto x = operand("first", a, depth - 1), y = operand("second", b, depth - 1);
            e.push_back(k == 4 ? 'u' : 'i');
            putU64(e, a.size());
            e.insert(e.end(), a.begin(), a.end());
            putU64(e, b.size());
            e.insert(e.end(), b.begin(), b.end());
            if (k == 4) return std::unique_ptr<Region>(new UnionRegion(*x, *y));
            return std::unique_ptr<Region>(new IntersectionRegion(*x, *y));
        }
    }
}
extern "C" void harness_compound() {
    Bytes a, b;
    auto x = operand("x", a, 1), y = operand("y", b, 0);
    bool un = vf_choose("union", 2);
    Bytes e;
    e.push_back(un ? 'u' : 'i');
    putU64(e, a.size());
    e.insert(e.end(), a.begin(), a.end());
    putU64(e, b.size());
    e.insert(e.end(), b.begin(), b.end());
    if (un) common(UnionRegion(*x, *y), e); else common(IntersectionRegion(*x, *y), e);
    auto q = CompoundRegion::decode(e);
    VF_ASSERT(same(q->encode(), e), "CompoundRegion::decode inverts encode");
    VF_ASSERT(same(q->getOperand(0).encode(), a), "decoded compound regions have the encoded operands in order");
    VF_ASSERT(same(q->getOperand(1).encode(), b), "decoded compound regions have the encoded operands in order");
    bool rej = false;
    try { un ? (void)IntersectionRegion::decode(e) : (void)UnionRegion::decode(e); } catch (std::runtime_error const&) { rej = true; }
    VF_ASSERT(rej, "a union does not decode as an intersection or vice versa");
    vf_reach("compound");
}
// Arbitrary bytes: decoding either fails cleanly or yields a region which reproduces them
#ifndef DECODER
#define DECODER Region
#endif
#ifndef NMIN
#define NMIN 0
#endif
extern "C" void harness_decode() {
    size_t n = NMIN + vf_choose("n", NMAX - NMIN + 1);
    // exactly n bytes, so that any access outside of them is reported
    uint8_t* p = new uint8_t[n];
    uint8_t first = 0;
    for (size_t i = 0; i < n; ++i) { p[i] = nd8("byte"); if (!i) first = p[0]; }
    try {
        auto r = DECODER::decode(p, n);
        VF_ASSERT(n > 0, "nothing decodes from no bytes");
        VF_ASSERT(r.get() != nullptr, "decode returns a region or throws");
        Bytes b = r->encode();
        bool box = dynamic_cast<Box*>(static_cast<Region*>(r.get())) != nullptr;
        VF_ASSERT(b.size() >= 1 && b[0] == first, "the type code is preserved");
        VF_ASSERT(OR(box, first != 'b'), "the type code determines the type");
        bool compound = first == 'u' || first == 'i';
        VF_ASSERT(b.size() == n, "only encodings of exactly the right size are accepted");
        if (!box && !compound) VF_ASSERT(same(b, Bytes(p, p + n)), "decoding then encoding reproduces the bytes");
        vf_reach("accepted");
    } catch (std::runtime_error const&) {
        vf_reach("rejected");
    } catch (std::invalid_argument const&) {
        VF_ASSERT(n >= 33, "invalid arguments arise only from the contents of boxes");
        vf_reach("invalid");
    }
    bool null = false;
    try { Region::decode(nullptr, n); } catch (std::runtime_error const&) { null = true; }
    VF_ASSERT(null, "a null buffer is rejected");
    delete[] p;
}

// Compound encodings with arbitrary contents and size fields. The operands' types are
// restricted to those in OPS, so that contents are not judged again here.
#ifndef OPS
#define OPS "ce"
#endif
static bool among(uint8_t c) {
    bool r = AND(c != 'u', AND(c != 'i', AND(c != 'b', AND(c != 'c', AND(c != 'e', c != 'p')))));
    for (const char* q = OPS; *q; ++q) r = OR(r, c == (uint8_t)*q);
    return r;
}
extern "C" void harness_sizes() {
    size_t n = NMIN + vf_choose("n", NMAX - NMIN + 1);
    uint8_t* p = new uint8_t[n];
    p[0] = vf_choose("union", 2) ? 'u' : 'i';
    for (size_t i = 1; i < n; ++i) p[i] = nd8("byte");
    size_t n1 = 0, room = n >= 9 ? n - 9 : 0;
    if (n >= 9) {
        n1 = vf_choose("n1", room + 2);
        uint64_t f = n1;
        if (n1 > room) { f = nd64("size"); vf_assume(f > room); }
        for (int i = 0; i < 8; ++i) p[1 + i] = (uint8_t)(f >> (8 * i));
    }
    if (n > 9) vf_assume(among(p[9]));
    if (n1 < room && 17 + n1 < n) vf_assume(among(p[17 + n1]));
    bool ok = false;
    uint8_t const* q = p;
    try {
        auto r = Region::decode(q, n);
        ok = true;
        Bytes b = r->encode();
        VF_ASSERT(same(b, Bytes(p, p + n)), "decoding then encoding reproduces the bytes");
        vf_reach("accepted");
    } catch (std::runtime_error const&) { vf_reach("rejected"); }
    vf_observe(ok);
    delete[] p;
}
