// RangeSet against the mathematical set it denotes. A set is built from at most K disjoint,
// non-adjacent ranges with arbitrary 64-bit end points; membership is judged at an arbitrary
// integer x.
#include "vf.h"
#include <sstream>
#include <vector>
#include <utility>
#include "lsst/sphgeom/RangeSet.h"
using lsst::sphgeom::RangeSet;
#ifndef KA
#define KA 2
#endif
#ifndef KB
#define KB 2
#endif
#define MAXR 8

struct Spec {
    int n = 0;
    uint64_t b[MAXR], e[MAXR];   // [b, e), e == 0 means 2^64
    bool in(uint64_t x) const {
        bool r = false;
        for (int i = 0; i < n; ++i) r |= (x >= b[i]) & ((e[i] == 0) | (x < e[i]));
        return r;
    }
    // [f, l] inclusive
    bool hits(uint64_t f, uint64_t l) const {
        bool r = false;
        for (int i = 0; i < n; ++i) r |= (b[i] <= l) & ((e[i] == 0) | (f < e[i]));
        return r;
    }
    bool covers(uint64_t f, uint64_t l) const {
        bool r = false;
        for (int i = 0; i < n; ++i) r |= (b[i] <= f) & ((e[i] == 0) | (l < e[i]));
        return r;
    }
};
static bool inRange(uint64_t f, uint64_t l, uint64_t x) {
    return (f == l) | ((f < l) & (f <= x) & (x < l)) | ((f > l) & ((f <= x) | (x < l)));
}

static RangeSet make(Spec& s, const char* tag, int maxK) {
    s.n = (int)vf_choose("k", maxK + 1);
    RangeSet r;
    for (int i = 0; i < s.n; ++i) {
        s.b[i] = nd64("b");
        s.e[i] = nd64("e");
        vf_assume((s.e[i] == 0) | (s.b[i] < s.e[i]));
        if (i > 0) vf_assume(AND(s.e[i - 1] != 0, s.b[i] > s.e[i - 1]));
    }
    for (int i = 0; i < s.n; ++i) r.insert(s.b[i], s.e[i]);
    return r;
}
static bool member(RangeSet const& r, uint64_t x) {
    bool m = false;
    for (auto const& t : r) m |= (x >= std::get<0>(t)) & ((std::get<1>(t) == 0) | (x < std::get<1>(t)));
    return m;
}
static bool memberc(RangeSet const& r, uint64_t x) {
    bool m = false;
    for (auto i = r.beginc(), e = r.endc(); i != e; ++i) {
        auto t = *i;
        m |= (x >= std::get<0>(t)) & ((std::get<1>(t) == 0) | (x < std::get<1>(t)));
    }
    return m;
}
// Representation invariant, as visible through the public interface.
static void wellFormed(RangeSet const& r, uint64_t x, const char* what) {
    VF_ASSERT(r.isValid(), what);
    size_t n = 0;
    uint64_t prev = 0;
    bool ok = true, any = false;
    for (auto it = r.begin(), e = r.end(); it != e; ++it) {
        auto t = *it;
        uint64_t a = std::get<0>(t), z = std::get<1>(t);
        ok &= (z == 0) | (a < z);
        if (n) ok &= (prev != 0) & (a > prev);
        prev = z;
        ++n;
        any = true;
        if (n > 20) break;
    }
    VF_ASSERT(ok, "ranges are ordered, non-empty, disjoint and not adjacent");
    VF_ASSERT(n == r.size(), "size() counts the ranges iterated");
    VF_ASSERT(r.empty() == !any, "empty() iff there is no range");
    VF_ASSERT(member(r, x) != memberc(r, x), "beginc()/endc() iterate over the complement");
    VF_ASSERT(IMP(r.full(), member(r, x)), "full() sets contain every integer");
    VF_ASSERT(r.contains(x) == member(r, x), "contains(u) agrees with the iterated ranges");
    // a set is represented in exactly one way: rebuilding it from its ranges gives an equal value
    RangeSet again;
    for (auto it = r.begin(), e = r.end(); it != e; ++it) again.insert(*it);
    VF_ASSERT(again == r, "equality depends on the members only");
    VF_ASSERT(!(again != r), "!= is the negation of ==");
    vf_observe(n);
}
extern "C" void harness_construct() {
    Spec s;
    RangeSet r = make(s, "a", KA);
    uint64_t x = nd64("x");
    VF_ASSERT(member(r, x) == s.in(x), "inserted ranges are members");
    wellFormed(r, x, "valid after construction");
    VF_ASSERT(r.size() == (size_t)s.n, "disjoint non-adjacent ranges are kept apart");
    int i = 0;
    bool same = true;
    for (auto const& t : r) { if (i < s.n) same &= (std::get<0>(t) == s.b[i]) & (std::get<1>(t) == s.e[i]); ++i; }
    VF_ASSERT(same, "iteration yields the canonical ranges");
    uint64_t card = 0;
    for (i = 0; i < s.n; ++i) card += s.e[i] - s.b[i];
    VF_ASSERT(r.cardinality() == card, "cardinality() is the number of integers modulo 2^64");
    vf_observe(r.cardinality());
    bool full = (s.n == 1) && ((s.b[0] == 0) & (s.e[0] == 0));
    VF_ASSERT(r.full() == full, "full() iff the set is [0, 2^64)");
    // iterator arithmetic
    auto b = r.begin();
    ptrdiff_t n = (ptrdiff_t)r.size();
    VF_ASSERT(b + n == r.end(), "begin() + size() == end()");
    VF_ASSERT(r.end() - r.begin() == n, "end() - begin() == size()");
    VF_ASSERT(r.end() - n == b, "end() - size() == begin()");
    auto it = r.end();
    it -= n;
    VF_ASSERT(it == b, "end() -= size() reaches begin()");
    it += n;
    VF_ASSERT(it == r.end(), "begin() += size() reaches end()");
    if (n > 0) {
        auto p = r.begin();
        auto q = p++;
        VF_ASSERT(q == r.begin(), "post-increment returns the old position");
        VF_ASSERT(p - 1 == q, "p - 1 is the previous range");
        --p;
        VF_ASSERT(p == q, "decrement inverts increment");
        auto last = b[n - 1];
        VF_ASSERT(AND(std::get<0>(last) == s.b[n - 1], std::get<1>(last) == s.e[n - 1]), "it[n] is the n-th range");
        vf_reach("nonempty");
    }
    for (ptrdiff_t i = 0; i <= n; ++i)
        for (ptrdiff_t j = 0; j <= n; ++j) {
            auto p = b + i, q = j + b;
            VF_ASSERT(AND(p - q == i - j, AND((p < q) == (i < j), (p <= q) == (i <= j))), "iterator ordering and distance");
            VF_ASSERT(AND((p == q) == (i == j), AND((p > q) == (i > j), (p >= q) == (i >= j))), "iterator comparisons");
        }
    // the complement's iterators
    ptrdiff_t nc = r.endc() - r.beginc();
    VF_ASSERT((size_t)nc == r.complemented().size(), "beginc()/endc() enumerate the complement's ranges");
    RangeSet comp = r.complemented();
    auto ic = r.beginc();
    bool csame = true;
    for (auto const& t : comp) { csame &= (std::get<0>(*ic) == std::get<0>(t)) & (std::get<1>(*ic) == std::get<1>(t)); ++ic; }
    VF_ASSERT(csame, "beginc()/endc() yield the complement's ranges");
    // other ways of building the same set
    RangeSet viaIter(r.begin(), r.end());
    VF_ASSERT(viaIter == r, "construction from an iterator range");
    if (s.n == 1) {
        VF_ASSERT(RangeSet(s.b[0], s.e[0]) == r, "construction from one range");
        VF_ASSERT(RangeSet(std::make_tuple(s.b[0], s.e[0])) == r, "construction from a tuple");
        VF_ASSERT(IMP(s.e[0] - s.b[0] == 1, RangeSet(s.b[0]) == r), "construction from one integer");
    }
    RangeSet c(r);
    VF_ASSERT(c == r, "copies are equal");
    RangeSet d(std::move(c));
    VF_ASSERT(d == r, "moving preserves the value");
    VF_ASSERT(AND(!(d != r), r.complemented() != r), "a set differs from its complement");
    vf_reach("end");
}
extern "C" void harness_insert() {
    Spec s;
    RangeSet r = make(s, "a", KA);
    uint64_t f = nd64("first"), l = nd64("last"), x = nd64("x");
    bool before = s.in(x);
    int how = (int)vf_choose("how", 3);
    if (how == 0) {
        r.insert(f, l);
        VF_ASSERT(member(r, x) == (before | inRange(f, l, x)), "insert(first,last) adds exactly [first,last)");
    } else if (how == 1) {
        r.insert(f);
        VF_ASSERT(member(r, x) == (before | (x == f)), "insert(u) adds exactly u");
    } else {
        r.insert(std::make_tuple(f, l));
        VF_ASSERT(member(r, x) == (before | inRange(f, l, x)), "insert(tuple) adds exactly the range");
    }
    wellFormed(r, x, "valid after insert");
    vf_reach("insert");
}
extern "C" void harness_erase() {
    Spec s;
    RangeSet r = make(s, "a", KA);
    uint64_t f = nd64("first"), l = nd64("last"), x = nd64("x");
    bool before = s.in(x);
    int how = (int)vf_choose("how", 3);
    if (how == 0) {
        r.erase(f, l);
        VF_ASSERT(member(r, x) == (before & !inRange(f, l, x)), "erase(first,last) removes exactly [first,last)");
    } else if (how == 1) {
        r.erase(f);
        VF_ASSERT(member(r, x) == (before & (x != f)), "erase(u) removes exactly u");
    } else {
        r.erase(std::make_tuple(f, l));
        VF_ASSERT(member(r, x) == (before & !inRange(f, l, x)), "erase(tuple) removes exactly the range");
    }
    wellFormed(r, x, "valid after erase");
    vf_reach("erase");
}
#define BIN(name, EXPR, COMPOUND, OPER, REF, ALIAS) \
    extern "C" void harness_##name() { \
        Spec s, t; \
        RangeSet a = make(s, "a", KA), b = make(t, "b", KB); \
        RangeSet a0(a), b0(b); \
        uint64_t x = nd64("x"); \
        bool p = s.in(x), q = t.in(x); \
        RangeSet r = EXPR; \
        VF_ASSERT(member(r, x) == (REF), #name " computes the set operation"); \
        wellFormed(r, x, "valid after " #name); \
        VF_ASSERT(AND(a == a0, b == b0), #name " leaves its operands unchanged"); \
        RangeSet o = a OPER b; \
        VF_ASSERT(o == r, #name ": operator agrees with the named function"); \
        a COMPOUND b; \
        VF_ASSERT(a == r, #name ": compound assignment agrees"); \
        RangeSet z(b0); \
        z COMPOUND z; \
        RangeSet z2 = b OPER b; \
        q = t.in(x); \
        VF_ASSERT(member(z, x) == (ALIAS), #name " of a set with itself (in place)"); \
        VF_ASSERT(z2 == z, #name " of a set with itself"); \
        VF_ASSERT(z.isValid(), #name " of a set with itself is valid"); \
        vf_reach(#name); \
    }
BIN(intersection, a.intersection(b), &=, &, p & q, q)
BIN(join, a.join(b), |=, |, p | q, q)
BIN(difference, a.difference(b), -=, -, p & !q, false)
BIN(symmetricDifference, a.symmetricDifference(b), ^=, ^, p ^ q, false)

extern "C" void harness_complement() {
    Spec s;
    RangeSet r = make(s, "a", KA);
    uint64_t x = nd64("x");
    RangeSet c = r.complemented(), d = ~r, e(r);
    e.complement();
    VF_ASSERT(member(c, x) == !s.in(x), "complement flips membership");
    VF_ASSERT(AND(c == d, c == e), "the three spellings of complement agree");
    wellFormed(c, x, "valid after complement");
    VF_ASSERT(c.complemented() == r, "complement is an involution");
    RangeSet f(r), g(r);
    f.fill();
    g.clear();
    VF_ASSERT(AND(member(f, x), f.full()), "fill() yields everything");
    VF_ASSERT(AND(!member(g, x), g.empty()), "clear() yields nothing");
    VF_ASSERT(AND(f.isValid(), g.isValid()), "fill/clear are valid");
    VF_ASSERT(~f == g, "the complement of the full set is empty");
    vf_reach("complement");
}
extern "C" void harness_anyorder() {
    // integers and ranges, in any order, overlapping or not
    uint64_t a = nd64("a"), b = nd64("b"), f = nd64("first"), l = nd64("last"), x = nd64("x");
    RangeSet r{a, b};
    VF_ASSERT(member(r, x) == ((x == a) | (x == b)), "initializer list of integers");
    wellFormed(r, x, "valid after construction from integers");
    RangeSet t{std::pair<uint64_t, uint64_t>(f, l), std::pair<uint64_t, uint64_t>(a, b)};
    VF_ASSERT(member(t, x) == (inRange(f, l, x) | inRange(a, b, x)), "initializer list of ranges");
    wellFormed(t, x, "valid after construction from ranges");
    RangeSet u{std::pair<uint64_t, uint64_t>(a, b), std::pair<uint64_t, uint64_t>(f, l)};
    VF_ASSERT(t == u, "insertion order does not matter");
    vf_reach("anyorder");
}
extern "C" void harness_equality() {
    Spec s, t;
    RangeSet a = make(s, "a", KA), b = make(t, "b", KB);
    bool same = s.n == t.n;
    for (int i = 0; i < s.n && i < t.n; ++i) same &= (s.b[i] == t.b[i]) & (s.e[i] == t.e[i]);
    VF_ASSERT((a == b) == same, "== iff the sets have the same members");
    VF_ASSERT((a != b) == !same, "!= iff the sets have different members");
    // canonical whatever the construction order
    RangeSet c;
    for (int i = s.n; i-- > 0;) c.insert(s.b[i], s.e[i]);
    VF_ASSERT(c == a, "insertion order does not matter");
    RangeSet u = a | b, v = b;
    for (int i = 0; i < s.n; ++i) v.insert(s.b[i], s.e[i]);
    VF_ASSERT(u == v, "union equals repeated insertion");
    lsst::sphgeom::swap(a, c);
    VF_ASSERT(a == c, "swap of equal sets");
    vf_reach("equality");
}
static int pieces(uint64_t f, uint64_t l, uint64_t* lo, uint64_t* hi) {  // inclusive pieces of [f,l)
    if (f == l) { lo[0] = 0; hi[0] = ~0ull; return 1; }
    if ((f < l) | (l == 0)) { lo[0] = f; hi[0] = l - 1; return 1; }
    lo[0] = 0; hi[0] = l - 1; lo[1] = f; hi[1] = ~0ull;
    return 2;
}
extern "C" void harness_predicates() {
    Spec s;
    RangeSet r = make(s, "a", KA);
    uint64_t f = nd64("first"), l = nd64("last");
    uint64_t lo[2], hi[2];
    int n = pieces(f, l, lo, hi);
    bool cov = true, hit = false;
    for (int i = 0; i < n; ++i) { cov &= s.covers(lo[i], hi[i]); hit |= s.hits(lo[i], hi[i]); }
    // is the set within [f, l)?
    bool within = true;
    for (int k = 0; k < s.n; ++k) {
        bool w = false;
        for (int i = 0; i < n; ++i) w |= (lo[i] <= s.b[k]) & ((s.e[k] - 1) <= hi[i]);
        within &= w;
    }
    VF_ASSERT(r.contains(f, l) == cov, "contains(first,last)");
    VF_ASSERT(r.intersects(f, l) == hit, "intersects(first,last)");
    VF_ASSERT(r.isDisjointFrom(f, l) == !hit, "isDisjointFrom(first,last)");
    VF_ASSERT(r.isWithin(f, l) == within, "isWithin(first,last)");
    VF_ASSERT(r.contains(f) == s.in(f), "contains(u)");
    VF_ASSERT(r.intersects(f) == s.in(f), "intersects(u)");
    VF_ASSERT(r.isDisjointFrom(f) == !s.in(f), "isDisjointFrom(u)");
    bool wu = true;
    for (int k = 0; k < s.n; ++k) wu &= (s.b[k] == f) & (s.e[k] - 1 == f);
    VF_ASSERT(r.isWithin(f) == wu, "isWithin(u)");
    vf_observe(cov); vf_observe(hit); vf_observe(within);
    vf_reach("predicates");
}
extern "C" void harness_setpredicates() {
    Spec s, t;
    RangeSet a = make(s, "a", KA), b = make(t, "b", KB);
    bool cov = true, hit = false, wit = true;
    for (int i = 0; i < t.n; ++i) { cov &= s.covers(t.b[i], t.e[i] - 1); hit |= s.hits(t.b[i], t.e[i] - 1); }
    for (int i = 0; i < s.n; ++i) wit &= t.covers(s.b[i], s.e[i] - 1);
    VF_ASSERT(a.contains(b) == cov, "contains(set)");
    VF_ASSERT(a.intersects(b) == hit, "intersects(set)");
    VF_ASSERT(a.isDisjointFrom(b) == !hit, "isDisjointFrom(set)");
    VF_ASSERT(a.isWithin(b) == wit, "isWithin(set)");
    vf_reach("setpredicates");
}
extern "C" void harness_simplify() {
    Spec s;
    RangeSet r = make(s, "a", KA);
    uint32_t n = (uint32_t)vf_choose("n", 66);
    if (n == 65) { n = nd32("bign"); vf_assume(n >= 65); }
    uint64_t x = nd64("x");
    uint64_t m = n >= 64 ? ~0ull : (1ull << n) - 1;
    bool want = s.hits(x & ~m, x | m);
    RangeSet c = r.simplified(n);
    VF_ASSERT(member(c, x) == want, "simplify(n) yields exactly the aligned 2^n blocks that meet the set");
    wellFormed(c, x, "valid after simplify");
    r.simplify(n);
    VF_ASSERT(r == c, "simplify and simplified agree");
    VF_ASSERT(IMP(s.in(x), member(c, x)), "simplify only adds integers");
    vf_reach("simplify");
}
static const uint64_t SCALES[] = {0, 1, 2, 3, 4, 5, 7, 8, 16, 64, 100, 1ull << 20, 1ull << 32, (1ull << 32) + 1, 1ull << 63, ~0ull};
extern "C" void harness_scale() {
    Spec s;
    RangeSet r = make(s, "a", KA);
    uint64_t i = SCALES[vf_choose("scale", sizeof(SCALES) / 8)];
    uint64_t x = nd64("x");
    bool want = false;
    for (int k = 0; k < s.n; ++k) {
        // begin*i <= x < end*i, with unbounded end*i
        unsigned __int128 lo = (unsigned __int128)s.b[k] * i;
        unsigned __int128 end = s.e[k] == 0 ? ((unsigned __int128)1 << 64) : (unsigned __int128)s.e[k];
        unsigned __int128 hi = end * i;
        want |= (lo <= x) & (x < hi);
    }
    RangeSet c = r.scaled(i);
    VF_ASSERT(member(c, x) == want, "scale(i) multiplies every end point by i, clamped to 2^64");
    wellFormed(c, x, "valid after scale");
    r.scale(i);
    VF_ASSERT(r == c, "scale and scaled agree");
    vf_reach("scale");
}
