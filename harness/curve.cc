// Space filling curves: Morton and Hilbert order, SIMD and scalar code paths, bit scans.
#include "vf.h"
#include "lsst/sphgeom/curve.h"
#undef LSST_SPHGEOM_CURVE_H_
#define NO_SIMD
#define lsst lsst_scalar
#include "lsst/sphgeom/curve.h"
#undef lsst
namespace V = lsst::sphgeom;
namespace C = lsst_scalar::sphgeom;

// Reference interleaving by definition: bit 2k is bit k of x, bit 2k+1 is bit k of y.
static uint64_t refMorton(uint32_t x, uint32_t y) {
    uint64_t r = 0;
    for (int k = 0; k < 32; ++k) {
        r |= (uint64_t)((x >> k) & 1) << (2 * k);
        r |= (uint64_t)((y >> k) & 1) << (2 * k + 1);
    }
    return r;
}
extern "C" void harness_morton() {
    uint32_t x = nd32("x"), y = nd32("y");
    uint64_t z = V::mortonIndex(x, y);
    vf_observe(z);
    VF_ASSERT(z == refMorton(x, y), "mortonIndex interleaves the bits of x and y");
    VF_ASSERT(C::mortonIndex(x, y) == z, "scalar and vector mortonIndex agree");
    auto p = V::mortonIndexInverse(z);
    VF_ASSERT(AND(std::get<0>(p) == x, std::get<1>(p) == y), "mortonIndexInverse inverts mortonIndex");
    auto q = C::mortonIndexInverse(z);
    VF_ASSERT(AND(std::get<0>(q) == x, std::get<1>(q) == y), "scalar mortonIndexInverse inverts mortonIndex");
    uint64_t w = nd64("w");
    auto a = V::mortonIndexInverse(w);
    VF_ASSERT(V::mortonIndex(std::get<0>(a), std::get<1>(a)) == w, "mortonIndex inverts mortonIndexInverse");
    auto b = C::mortonIndexInverse(w);
    VF_ASSERT(C::mortonIndex(std::get<0>(b), std::get<1>(b)) == w, "scalar mortonIndex inverts mortonIndexInverse");
    vf_observe(std::get<0>(a));
    vf_reach("morton");
}
extern "C" void harness_log2() {
    uint64_t x = nd64("x");
    uint8_t r = V::log2(x);
    vf_observe(r);
    VF_ASSERT(IMP(x == 0, r == 0), "log2(0) == 0");
    VF_ASSERT(IMP(x != 0, AND(r < 64, (x >> (r & 63)) == 1)), "log2 is the index of the most significant 1 bit (64 bit)");
    uint32_t y = nd32("y");
    uint8_t s = V::log2(y);
    VF_ASSERT(IMP(y == 0, s == 0), "log2(0) == 0 (32 bit)");
    VF_ASSERT(IMP(y != 0, AND(s < 32, (y >> (s & 31)) == 1)), "log2 is the index of the most significant 1 bit (32 bit)");
    vf_reach("log2");
}
// Round trip h -> (x,y) -> h and z -> h -> z, most significant digits first so that every
// step is decided from the one before.
#ifndef MLO
#define MLO 1
#define MHI 32
#endif
extern "C" void harness_hilbert_roundtrip() {
    int m = MLO + (int)vf_choose("m", MHI - MLO + 1);
    uint64_t mask = m == 32 ? ~(uint64_t)0 : ((uint64_t)1 << (2 * m)) - 1;
    uint64_t z = nd64("z");   // high bits are documented to be ignored
    uint64_t h = V::mortonToHilbert(z, m);
    VF_ASSERT((h & ~mask) == 0, "Hilbert index is in range");
    uint64_t z2 = V::hilbertToMorton(h, m);
    for (int k = 2 * m - 2; k >= 0; k -= 2) VF_ASSERT((((z2 ^ z) & mask) >> k) == 0, "hilbertToMorton inverts mortonToHilbert");
    VF_ASSERT(z2 == (z & mask), "hilbertToMorton inverts mortonToHilbert");
    uint64_t g = nd64("g");
    uint64_t zz = V::hilbertToMorton(g, m);
    VF_ASSERT((zz & ~mask) == 0, "Morton index is in range");
    uint64_t g2 = V::mortonToHilbert(zz, m);
    for (int k = 2 * m - 2; k >= 0; k -= 2) VF_ASSERT((((g2 ^ g) & mask) >> k) == 0, "mortonToHilbert inverts hilbertToMorton");
    VF_ASSERT(g2 == (g & mask), "mortonToHilbert inverts hilbertToMorton");
    vf_observe(h);
    vf_observe(zz);
    vf_reach("roundtrip");
}
// The documented one-digit-at-a-time definition of the Hilbert index (curve.h).
static uint64_t refHilbert(uint64_t z, int m) {
    uint64_t h = 0, i = 0;
    for (m = 2 * m; m != 0;) {
        m -= 2;
        i = (i & 0xc) | ((z >> m) & 3);
        i = UINT64_C(0x8d3ec79a6b5021f4) >> (i * 4);
        h = (h << 2) | (i & 3);
    }
    return h;
}
extern "C" void harness_hilbert_definition() {
    int m = MLO + (int)vf_choose("m", MHI - MLO + 1);
    uint64_t z = nd64("z");
    uint64_t h = V::mortonToHilbert(z, m);
    uint64_t r = refHilbert(z, m);
    uint64_t d = h ^ r;
    for (int k = 2 * m - 2; k >= 0; k -= 2) VF_ASSERT((d >> k) == 0, "mortonToHilbert agrees with its definition");
    VF_ASSERT(d == 0, "mortonToHilbert agrees with its definition");
    vf_observe(h);
    vf_reach("definition");
}
// Consecutive Hilbert indices are neighbours on the grid: h = P d 3..3 and h + 1 = P (d+1) 0..0.
extern "C" void harness_hilbert_adjacent() {
    int m = MLO + (int)vf_choose("m", MHI - MLO + 1);
    int k = (int)vf_choose("k", m);
    uint64_t p = nd64("prefix"), d = vf_choose("d", 3);
    uint64_t mask = m == 32 ? ~(uint64_t)0 : ((uint64_t)1 << (2 * m)) - 1;
    uint64_t low = ((uint64_t)1 << (2 * k)) - 1;
    uint64_t h = k == 31 ? 0 : p << (2 * k + 2);
    h = (h | (d << (2 * k)) | low) & mask;
    auto a = C::mortonIndexInverse(V::hilbertToMorton(h, m));
    auto b = C::mortonIndexInverse(V::hilbertToMorton(h + 1, m));
    uint64_t ax = std::get<0>(a), ay = std::get<1>(a), bx = std::get<0>(b), by = std::get<1>(b);
    uint64_t dx = ax - bx, dy = ay - by;
    VF_ASSERT(OR(AND(dx == 0, OR(dy == 1, dy + 1 == 0)), AND(dy == 0, OR(dx == 1, dx + 1 == 0))), "consecutive Hilbert indices are neighbours on the grid");
    vf_observe(ax); vf_observe(by);
    vf_reach("adjacent");
}
// hilbertIndex and its inverse are these functions composed with the Morton index.
extern "C" void harness_hilbert_compose() {
    int m = MLO + (int)vf_choose("m", MHI - MLO + 1);
    uint32_t x = nd32("x"), y = nd32("y");
    uint64_t z = V::mortonIndex(x, y), h = V::hilbertIndex(x, y, m);
    VF_ASSERT(h == V::mortonToHilbert(z, m), "hilbertIndex is the Hilbert index of the Morton index");
    VF_ASSERT(C::hilbertIndex(x, y, m) == h, "scalar and vector hilbertIndex agree");
    auto p = V::hilbertIndexInverse(z, m);
    auto q = V::mortonIndexInverse(V::hilbertToMorton(z, m));
    VF_ASSERT(AND(std::get<0>(p) == std::get<0>(q), std::get<1>(p) == std::get<1>(q)), "hilbertIndexInverse inverts the Morton index of hilbertToMorton");
    auto s = C::hilbertIndexInverse(z, m);
    VF_ASSERT(AND(std::get<0>(p) == std::get<0>(s), std::get<1>(p) == std::get<1>(s)), "scalar and vector hilbertIndexInverse agree");
    vf_observe(h);
    vf_reach("compose");
}
