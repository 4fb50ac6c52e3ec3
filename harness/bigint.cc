// BigInteger against schoolbook references over 32-bit digits. Operand digits are arbitrary;
// digit counts, signs and capacities are enumerated up to the bounds below.
#include "vf.h"
#include <stdexcept>
#include "lsst/sphgeom/BigInteger.h"
using lsst::sphgeom::BigInteger;
#ifndef N
#define N 3
#endif
#define CAP 24
typedef uint32_t u32;
typedef uint64_t u64;

struct Ref {            // sign and magnitude, least significant digit first
    int n = 0, sign = 0;
    u32 d[CAP] = {0};
};
// an arbitrary integer with at most maxN digits, held in exactly cap digits
static void fill(BigInteger& b, u32* buf, Ref& r, int maxN) {
    r.n = (int)vf_choose("n", maxN + 1);
    r.sign = r.n == 0 ? 0 : (vf_choose("neg", 2) ? -1 : 1);
    if (r.n == 0) { b.setToZero(); return; }
    for (int i = 0; i < r.n; ++i) r.d[i] = nd32("d");
    vf_assume(r.d[r.n - 1] != 0);
    if (r.n == 1) b.setTo((uint64_t)r.d[0]);
    else {
        b.setTo((uint64_t)1 << 32);
        if (r.n > 2) b.multiplyPow2(32 * (r.n - 2));
        for (int i = 0; i < r.n; ++i) buf[i] = r.d[i];   // the digit array belongs to the caller
    }
    if (r.sign < 0) b.negate();
}
static void same(BigInteger const& b, Ref const& r, const char* what) {
    // compare with a reference whose leading digits may be zero
    bool zero = true;
    for (int i = 0; i < r.n; ++i) zero &= r.d[i] == 0;
    int top = r.n;
    // number of significant digits
    while (top > 0 && r.d[top - 1] == 0) --top;
    VF_ASSERT(b.getSize() == (unsigned)top, what);
    bool eq = true;
    for (int i = 0; i < top; ++i) eq &= b.getDigits()[i] == r.d[i];
    VF_ASSERT(eq, what);
    VF_ASSERT(b.getSign() == (top == 0 ? 0 : r.sign), what);
    vf_observe(b.getSize());
}
static void unchanged(BigInteger const& b, Ref const& r) {
    bool eq = b.getSize() == (unsigned)r.n;
    for (int i = 0; i < r.n && i < (int)b.getSize(); ++i) eq &= b.getDigits()[i] == r.d[i];
    VF_ASSERT(AND(eq, b.getSign() == r.sign), "the argument is not modified");
}
static int cmpMag(Ref const& a, Ref const& b) {
    int n = a.n > b.n ? a.n : b.n;
    for (int i = n; i-- > 0;) {
        u32 x = i < a.n ? a.d[i] : 0, y = i < b.n ? b.d[i] : 0;
        if (x != y) return x > y ? 1 : -1;
    }
    return 0;
}
static void refAdd(Ref const& a, Ref const& b, Ref& r) {
    if (b.sign == 0) { r = a; return; }
    if (a.sign == 0) { r = b; return; }
    int n = a.n > b.n ? a.n : b.n;
    if (a.sign == b.sign) {
        u64 c = 0;
        for (int i = 0; i < n; ++i) {
            c += (u64)(i < a.n ? a.d[i] : 0);
            c += (u64)(i < b.n ? b.d[i] : 0);
            r.d[i] = (u32)c;
            c >>= 32;
        }
        r.d[n] = (u32)c;
        r.n = n + 1;
        r.sign = a.sign;
        return;
    }
    int c = cmpMag(a, b);
    r.sign = 0;
    r.n = 0;
    if (c == 0) return;
    Ref const& x = c > 0 ? a : b;
    Ref const& y = c > 0 ? b : a;
    u32 borrow = 0;
    for (int i = 0; i < n; ++i) {
        u64 p = i < x.n ? x.d[i] : 0, q = (u64)(i < y.n ? y.d[i] : 0) + borrow;
        borrow = p < q;
        r.d[i] = (u32)(p - q);
    }
    r.n = n;
    r.sign = x.sign;
}
static unsigned capFor(unsigned need) {
    unsigned k = (unsigned)vf_choose("cap", 2);
    return need - (need > 2 ? k : 0);
}
template <class F> static bool runs(F f) {
    try { f(); return true; } catch (std::runtime_error const&) { return false; }
}
extern "C" void harness_setto() {
    u32* buf = new u32[2];
    BigInteger b(buf, 2);
    VF_ASSERT(AND(b.getSign() == 0, b.getSize() == 0), "a new integer is zero");
    VF_ASSERT(AND(b.getCapacity() == 2, b.getDigits() == buf), "the caller's array is used");
    u64 u = nd64("u");
    b.setTo(u);
    Ref r;
    r.n = 2; r.d[0] = (u32)u; r.d[1] = (u32)(u >> 32); r.sign = 1;
    same(b, r, "setTo(uint64_t)");
    int64_t s = (int64_t)nd64("s");
    b.setTo(s);
    u64 m = s < 0 ? 0 - (u64)s : (u64)s;
    r.n = 2; r.d[0] = (u32)m; r.d[1] = (u32)(m >> 32); r.sign = s < 0 ? -1 : 1;
    same(b, r, "setTo(int64_t)");
    b.negate();
    r.sign = -r.sign;
    same(b, r, "negate");
    u32* buf2 = new u32[2];
    BigInteger c(buf2, 2);
    c = b;
    same(c, r, "assignment copies the value");
    VF_ASSERT(c.getDigits() == buf2, "assignment keeps the digit array");
    c = c;
    same(c, r, "self-assignment");
    b.setToZero();
    VF_ASSERT(AND(b.getSign() == 0, b.getSize() == 0), "setToZero");
    same(c, r, "copies are independent");
    // too small an array is refused
    u32* small = new u32[1];
    BigInteger t(small, 1);
    bool ok = runs([&] { t.setTo(u); });
    VF_ASSERT(IMP(ok, AND(t.getSize() <= 1, u >> 32 == 0)), "values that do not fit are refused");
    bool ok2 = runs([&] { t = c; });
    VF_ASSERT(IMP(ok2, c.getSize() <= 1), "assignment refuses values that do not fit");
    vf_reach("setto");
}
static void addsub(bool sub) {
    Ref ra, rb, want;
    u32 tmp[CAP], tmpb[CAP];
    BigInteger a0(tmp, CAP), b0(tmpb, CAP);
    fill(a0, tmp, ra, N);
    fill(b0, tmpb, rb, N);
    u32* bb = new u32[rb.n ? rb.n : 1];
    BigInteger b(bb, rb.n ? rb.n : 1);
    b = b0;
    unsigned need = (unsigned)(ra.n > rb.n ? ra.n : rb.n) + 1, cap = capFor(need);
    if (cap < (unsigned)ra.n) vf_stop();
    u32* ab = new u32[cap];
    BigInteger a(ab, cap);
    a = a0;
    Ref rb2 = rb;
    if (sub) rb2.sign = -rb2.sign;
    bool ok = runs([&] { if (sub) a.subtract(b); else a.add(b); });
    VF_ASSERT(ok || cap < need, "no failure when the result surely fits");
    if (!ok) { vf_reach("refused"); return; }
    refAdd(ra, rb2, want);
    same(a, want, sub ? "subtract is exact" : "add is exact");
    unchanged(b, rb);
    vf_reach("done");
}
extern "C" void harness_add() { addsub(false); }
extern "C" void harness_subtract() { addsub(true); }
extern "C" void harness_self() {
    Ref ra, want;
    u32 buf[CAP];
    BigInteger a(buf, CAP);
    fill(a, buf, ra, N);
    int op = (int)vf_choose("op", 2);
    if (op == 0) { a.add(a); refAdd(ra, ra, want); same(a, want, "a + a"); }
    else { a.subtract(a); same(a, want, "a - a"); }
    vf_reach("self");
}
#ifndef SHIFTS
#define SHIFTS 70
#endif
extern "C" void harness_pow2() {
    Ref ra, want;
    u32 tmp[CAP];
    BigInteger a0(tmp, CAP);
    fill(a0, tmp, ra, N);
    unsigned n = (unsigned)vf_choose("shift", SHIFTS + 1), z = n / 32, s = n % 32;
    unsigned need = ra.n + z + 1, cap = capFor(need);
    if (cap < (unsigned)ra.n) vf_stop();
    u32* ab = new u32[cap];
    BigInteger a(ab, cap);
    a = a0;
    for (unsigned i = ra.n; i < cap; ++i) ab[i] = nd32("junk");
    bool ok = runs([&] { a.multiplyPow2(n); });
    VF_ASSERT(ok || cap < need, "no failure when the result surely fits");
    if (!ok) { vf_reach("refused"); return; }
    want.sign = ra.sign;
    want.n = ra.n ? ra.n + z + 1 : 0;
    for (int i = 0; i < want.n; ++i) {
        int k = i - (int)z;
        u64 lo = (k >= 0 && k < ra.n) ? ra.d[k] : 0, below = (k >= 1 && k - 1 < ra.n) ? ra.d[k - 1] : 0;
        want.d[i] = (u32)((lo << s) | ((below << s) >> 32));
    }
    same(a, want, "multiplyPow2 is exact");
    vf_reach("done");
}
// b == x * y, by columns: sum of the digit products in column k plus the carry so far must leave
// exactly digit k of b
static void isProduct(BigInteger const& b, Ref const& x, Ref const& y, const char* what) {
    int sign = x.sign * y.sign, n = sign ? x.n + y.n : 0;
    VF_ASSERT(b.getSign() == sign, what);
    if (n == 0) { VF_ASSERT(b.getSize() == 0, what); return; }
    VF_ASSERT(b.getSize() == (unsigned)n || b.getSize() == (unsigned)n - 1, what);
    VF_ASSERT(b.getDigits()[b.getSize() - 1] != 0, what);
    // compared as integers: the quotients by which digits are remainders cancel out
    u64 got[CAP], want[CAP];
    u32 gs[CAP], ws[CAP];
    int m = 0;
    for (int k = 0; k < (int)b.getSize(); ++k) { got[k] = b.getDigits()[k]; gs[k] = 32 * k; }
    for (int i = 0; i < x.n; ++i)
        for (int j = 0; j < y.n; ++j, ++m) { want[m] = (u64)y.d[j] * (u64)x.d[i]; ws[m] = 32 * (i + j); }
    VF_ASSERT(vf_sumeq(got, gs, b.getSize(), want, ws, m), what);
    vf_observe(b.getSize());
}
#ifndef NM
#define NM 3
#define NB 2
#endif
extern "C" void harness_multiply() {
    Ref ra, rb;
    u32 tmp[CAP], tmpb[CAP];
    BigInteger a0(tmp, CAP), b0(tmpb, CAP);
    fill(a0, tmp, ra, NM);
    fill(b0, tmpb, rb, NB);
    u32* bb = new u32[rb.n ? rb.n : 1];
    BigInteger b(bb, rb.n ? rb.n : 1);
    b = b0;
    unsigned need = ra.n + rb.n, cap = capFor(need);
    if (cap < (unsigned)ra.n || cap == 0) vf_stop();
    u32* ab = new u32[cap];
    BigInteger a(ab, cap);
    a = a0;
    bool ok = runs([&] { a.multiply(b); });
    VF_ASSERT(ok || cap < need, "no failure when the result surely fits");
    if (!ok) { vf_reach("refused"); return; }
    isProduct(a, ra, rb, "multiply is exact");
    unchanged(b, rb);
    vf_reach("done");
}
extern "C" void harness_square() {
    Ref ra;
    u32 buf[CAP];
    BigInteger a(buf, CAP);
    fill(a, buf, ra, 2);
    a.multiply(a);
    isProduct(a, ra, ra, "a * a");
    vf_reach("square");
}
