// Chunker: ids, coverage of the sphere, and search.
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <memory>
#include <stdexcept>
#include <vector>
#include "lsst/sphgeom/Box.h"
#include "lsst/sphgeom/Box3d.h"
#include "lsst/sphgeom/Chunker.h"
#include "lsst/sphgeom/Circle.h"
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/Ellipse.h"
#include "vf.h"
using namespace lsst::sphgeom;

static int const STRIPES[][2] = {CHUNKERS};
static int nS, nSS;
static Chunker make() {
    int k = (int)vf_choose("chunker", sizeof(STRIPES) / sizeof(STRIPES[0]));
    nS = STRIPES[k][0], nSS = STRIPES[k][1];
    return Chunker(nS, nSS);
}

extern "C" void harness_ctor() {
    static int const OKS[][2] = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 1}, {1, 3}};
    bool threw = false;
    int k = (int)vf_choose("pair", 7);
    int32_t n = k < 6 ? OKS[k][0] : (int32_t)nd32("stripes"), m = k < 6 ? OKS[k][1] : (int32_t)nd32("subStripes");
    if (k == 6) {  // one symbolic number that is positive at a time, to keep the product linear
        static int32_t const VALUES[] = {1, 2, 3, 7, 100, 4096, 65536, 648000, 648001, 1 << 30, 0x7fffffff};
        int which = (int)vf_choose("which", 3);
        if (which == 2) vf_assume(OR(n < 1, m < 1));
        else (which ? n : m) = VALUES[vf_choose("value", 11)];
    }
    bool ok = k < 6;
    if (!ok) vf_assume(!AND(AND(n >= 1, m >= 1), (int64_t)n * m <= 180 * 3600));
    try {
        Chunker c(n, m);
        VF_ASSERT(c.getNumStripes() == n && c.getNumSubStripesPerStripe() == m, "number of stripes");
        vf_reach("accepted");
    } catch (std::runtime_error&) {
        threw = true;
        vf_reach("rejected");
    }
    VF_ASSERT(threw == !ok, "exactly numbers of stripes and sub-stripes that are not positive or too large are rejected");
}

extern "C" void harness_ids() {
    Chunker c = make();
    std::vector<int32_t> all = c.getAllChunks();
    int32_t id = (int32_t)nd32("id");
    bool in = false;
    for (size_t k = 0; k < all.size(); ++k) {
        in = OR(in, all[k] == id);
        if (k > 0) VF_ASSERT(all[k - 1] < all[k], "chunk ids are distinct and in ascending order");
        int32_t s = c.getStripe(all[k]), x = c.getChunk(all[k], s);
        VF_ASSERT(s >= 0 && s < nS && x >= 0, "stripe and chunk of a chunk id");
        std::vector<int32_t> sub = c.getAllSubChunks(all[k]);
        VF_ASSERT(!sub.empty() && sub[0] >= 0, "every chunk has sub-chunks");
        for (size_t l = 1; l < sub.size(); ++l) VF_ASSERT(sub[l - 1] < sub[l], "sub-chunk ids of a chunk are distinct and in ascending order");
    }
    VF_ASSERT(vf_split(c.valid(id)) == in, "exactly the ids of chunks are valid");
    vf_reach("ids");
}

static LonLat point() {
    double lon = ndd("lon"), lat = ndd("lat");
    vf_assume(AND(AND(lon >= 0.0, lon < 2.0 * PI), AND(lat >= -0.5 * PI, lat <= 0.5 * PI)));
    return LonLat(NormalizedAngle(Angle(lon)), Angle(lat));
}

// Number of chunks in a stripe and of sub-chunks in the part of a sub-stripe in a chunk, by ids.
static int numChunks(std::vector<int32_t> const& all, Chunker const& c, int s) {
    int n = 0;
    for (int32_t id : all) n += c.getStripe(id) == s;
    return n;
}

// Sub-chunks of a chunk, in the order of their ids: sub-stripes from south to north, each from west to east.
struct Sub { int32_t id; Box box; };
static std::vector<Sub> subChunks(Chunker const& c, std::vector<int32_t> const& all, int32_t chunk) {
    std::vector<Sub> r;
    int32_t s = c.getStripe(chunk), x = c.getChunk(chunk, s), nc = numChunks(all, c, s);
    for (int ss = s * nSS; ss < (s + 1) * nSS; ++ss) {
        int n = (int)std::floor(2.0 * PI / (c.getSubChunkBoundingBox(ss, 0).getLon().getSize().asRadians() - 1.0e-11) + 0.5);
        n = std::max(n / nc, 1);
        for (int k = 0; k < n; ++k) r.push_back(Sub{0, c.getSubChunkBoundingBox(ss, x * n + k)});
    }
    std::vector<int32_t> ids = c.getAllSubChunks(chunk);
    VF_ASSERT(ids.size() == r.size(), "number of sub-chunks of a chunk");
    for (size_t k = 0; k < r.size(); ++k) r[k].id = ids[k];
    return r;
}

// Every point is in some chunk.
extern "C" void harness_cover() {
    Chunker c = make();
    LonLat p = point();
    bool in = false;
    for (int32_t id : c.getAllChunks()) {
        int32_t s = c.getStripe(id);
        in = OR(in, vf_split(c.getChunkBoundingBox(s, c.getChunk(id, s)).contains(p)));
    }
    VF_ASSERT(in, "every point is in the bounding box of some chunk");
    bool sub = false;
    for (int ss = 0; ss < nS * nSS; ++ss) {
        int n = (int)std::floor(2.0 * PI / (c.getSubChunkBoundingBox(ss, 0).getLon().getSize().asRadians() - 1.0e-11) + 0.5);
        for (int k = 0; k < n; ++k) sub = OR(sub, vf_split(c.getSubChunkBoundingBox(ss, k).contains(p)));
    }
    VF_ASSERT(sub, "every point is in the bounding box of some sub-chunk");
    vf_reach("cover");
}

// Every point of a chunk is in some sub-chunk of it, and nearly all of each sub-chunk is in the chunk.
extern "C" void harness_subcover() {
    Chunker c = make();
    std::vector<int32_t> all = c.getAllChunks();
    int32_t id = all[vf_choose("chunk", all.size())], s = c.getStripe(id);
    Box box = c.getChunkBoundingBox(s, c.getChunk(id, s));
    LonLat p = point();
    bool inChunk = vf_split(box.contains(p)), in = false, outside = false;
    for (Sub const& k : subChunks(c, all, id)) {
        in = OR(in, vf_split(k.box.contains(p)));
        outside = OR(outside, AND(!inChunk, k.box.isFull() ? false : vf_split(k.box.erodedBy(Angle(1.0e-11)).contains(p))));
    }
    VF_ASSERT(IMP(AND(inChunk, vf_split(box.isFull() ? true : box.erodedBy(Angle(1.0e-10), Angle(1.0e-11)).contains(p))), in), "every point of a chunk is in a sub-chunk");
    VF_ASSERT(!outside, "sub-chunks are inside the chunk");
    vf_reach("subcover");
}

static LonLat P;
struct R : Region {
    Box b;
    int mode;
    std::unique_ptr<Region> clone() const override { return std::unique_ptr<Region>(new R(*this)); }
    Box getBoundingBox() const override { return b; }
    Box3d getBoundingBox3d() const override { return Box3d::full(); }
    Circle getBoundingCircle() const override { return Circle::full(); }
    bool contains(UnitVector3d const&) const override { vf_unsupported(); }
    Relationship relate(Region const&) const override { vf_unsupported(); }
    Relationship relate(Box const& x) const override {
        switch (mode) {
            case 0: return INTERSECTS;
            case 1: return CONTAINS;
            default: return vf_split(x.contains(P)) ? INTERSECTS : DISJOINT;
        }
    }
    Relationship relate(Circle const&) const override { vf_unsupported(); }
    Relationship relate(ConvexPolygon const&) const override { vf_unsupported(); }
    Relationship relate(Ellipse const&) const override { vf_unsupported(); }
    std::vector<std::uint8_t> encode() const override { vf_unsupported(); }
};
static R region(Chunker const& c) {
    R r;
    P = point();
#ifdef LON
    // longitudes at, near and between the borders of sub-chunks of a sub-stripe in the middle
    std::vector<int32_t> all = c.getAllChunks();
    double w = c.getSubChunkBoundingBox(nS / 2 * nSS, 0).getLon().getSize().asRadians();
    int n = std::max(1, (int)std::floor(2.0 * PI / w + 0.5));
    w = 2.0 * PI / n;
    double const offs[] = {0.0, 0.3, 0.6, 1.0e-12, -1.0e-12};
#ifdef DEEP
    int i = (int)vf_choose("i", n), oi = (int)vf_choose("offset", 5);
#else
#ifndef CHOICES
#define CHOICES 3
#endif
    int i = ((int)vf_choose("i", n > 1 ? CHOICES : 1) + n - 1) % n, oi = (int)vf_choose("offset", 3);
#endif
    int j = (int)vf_choose("j", n), oj = (int)vf_choose("offset2", oi == 0 ? 5 : 3);
    auto lon = [&](int k, double o) { return NormalizedAngle(k * w + (o * o < 1e-20 ? o : o * w)); };
    r.b = Box(NormalizedAngleInterval(lon(i, offs[oi]), lon(j, offs[oj])), AngleInterval(Angle(-0.3), Angle(0.1)));
#else
    // latitudes at, near and between the borders of stripes
    int n = nS * nSS, i = (int)vf_choose("i", n + 1), j = i + (int)vf_choose("j", n + 1 - i);
#ifdef DEEP
    double const offs[] = {0.0, 1.0e-12, -1.0e-12, 1.0e-11, -1.0e-11, 0.25, -0.25};
#else
    double const offs[] = {0.0, 1.0e-12, -1.0e-11, 0.25};
#endif
    size_t const no = sizeof(offs) / sizeof(offs[0]);
    double a = i * (PI / n) - 0.5 * PI + offs[vf_choose("offset", no)], b = j * (PI / n) - 0.5 * PI + offs[vf_choose("offset2", no)];
    a = std::max(a, -0.5 * PI), b = std::min(b, 0.5 * PI);
    vf_assume(a <= b);
    r.b = Box(NormalizedAngleInterval::full(), AngleInterval(Angle(a), Angle(b)));
#endif
    vf_assume(r.b.contains(P));
    return r;
}

extern "C" void harness_search() {
    Chunker c = make();
    R r = region(c);
    r.mode = vf_choose("noDisjoint", 2) ? 0 : 2;
    std::vector<int32_t> found = c.getChunksIntersecting(r), all = c.getAllChunks();
    bool some = false;
    for (int32_t id : all) {
        bool f = false;
        for (int32_t k : found) f = OR(f, k == id);
        int32_t s = c.getStripe(id);
        bool in = vf_split(c.getChunkBoundingBox(s, c.getChunk(id, s)).contains(P));
        some = OR(some, AND(f, in));
        if (r.mode == 2) VF_ASSERT(IMP(f, in), "chunks that are disjoint from the region are not found");
        bool inner = vf_split(c.getChunkBoundingBox(s, c.getChunk(id, s)).erodedBy(Angle(6.0e-12)).contains(P));
        VF_ASSERT(IMP(inner, f), "every chunk with a point of the region in its interior is found");
    }
    VF_ASSERT(some, "for every point of the region, a chunk that contains it is found");
    for (size_t k = 0; k < found.size(); ++k) {
        VF_ASSERT(c.valid(found[k]), "ids that are found are valid");
        for (size_t l = 0; l < k; ++l) VF_ASSERT(found[k] != found[l], "no chunk is found twice");
    }
    vf_reach("search");
}

extern "C" void harness_subsearch() {
    Chunker c = make();
    R r = region(c);
    r.mode = (int)vf_choose("mode", 3);
    std::vector<SubChunks> found = c.getSubChunksIntersecting(r);
    std::vector<int32_t> all = c.getAllChunks();
    bool some = false;
    size_t n = 0;
    for (int32_t id : all) {
        std::vector<int32_t> const* ids = nullptr;
        for (SubChunks const& k : found)
            if (k.chunkId == id) {
                VF_ASSERT(ids == nullptr, "no chunk is found twice");
                VF_ASSERT(!k.subChunkIds.empty(), "no chunk is found without sub-chunks");
                ids = &k.subChunkIds;
                ++n;
            }
        size_t m = 0;
        for (Sub const& k : subChunks(c, all, id)) {
            size_t f = 0;
            if (ids)
                for (int32_t x : *ids) f += x == k.id;
            m += f;
            VF_ASSERT(f <= 1, "no sub-chunk is found twice");
            bool in = vf_split(k.box.contains(P));
            some = some || (f && in);
            if (r.mode == 2) VF_ASSERT(in || !f, "sub-chunks that are disjoint from the region are not found");
            if (in) VF_ASSERT(f || !vf_split(k.box.erodedBy(Angle(6.0e-12)).contains(P)), "every sub-chunk with a point of the region in its interior is found");
            if (r.mode == 1 && ids) VF_ASSERT(f, "all sub-chunks of a chunk that is inside the region are found");
        }
        if (ids) VF_ASSERT(m == ids->size(), "sub-chunks that are found belong to their chunk");
    }
    VF_ASSERT(n == found.size(), "chunks that are found are valid");
    VF_ASSERT(some, "for every point of the region, a sub-chunk that contains it is found");
    vf_reach("subsearch");
}
