// Harness API. Under the symbolic executor these are intrinsics; natively (replay) they read
// the recorded inputs in order.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
extern "C" {
uint64_t vf_nondet(const char* name, unsigned bits);     // an arbitrary value of `bits` bits
uint64_t vf_choose(const char* name, uint64_t n);        // every value 0..n-1, explored separately
void vf_assume(bool c);
void vf_assert_(bool c, const char* msg);
void vf_reach(const char* tag);                          // reachability witness
void vf_observe(uint64_t v);                             // compared between engine and native replay
bool vf_split(bool c);                                   // explore c and !c separately
uint64_t vf_concrete(uint64_t v);                        // explore every feasible value separately
uint64_t vf_ite64(bool c, uint64_t a, uint64_t b);
// sum of v[i] << s[i] == sum of w[j] << t[j], over the integers
bool vf_sumeq(const uint64_t* v, const uint32_t* s, unsigned n, const uint64_t* w, const uint32_t* t, unsigned m);
bool vf_symbolic();
void vf_stop();
[[noreturn]] void vf_unsupported();                       // the harness cannot answer: nothing is decided on this path
}
#define VF_ASSERT(c, msg) vf_assert_((bool)(c), msg)
static inline uint64_t nd64(const char* n) { return vf_nondet(n, 64); }
static inline uint32_t nd32(const char* n) { return (uint32_t)vf_nondet(n, 32); }
static inline uint8_t nd8(const char* n) { return (uint8_t)vf_nondet(n, 8); }
static inline bool ndb(const char* n) { return vf_nondet(n, 8) & 1; }
static inline double ndd(const char* n) { uint64_t u = vf_nondet(n, 64); double d; std::memcpy(&d, &u, 8); return d; }
static inline uint64_t bitsof(double d) { uint64_t u; std::memcpy(&u, &d, 8); return u; }
static inline bool isnan_(double d) { return d != d; }
static inline bool finite_(double d) { return ((bitsof(d) >> 52) & 0x7ff) != 0x7ff; }
// non-short-circuit logic, to keep assertions free of forks
static inline bool AND(bool a, bool b) { return a & b; }
static inline bool OR(bool a, bool b) { return a | b; }
static inline bool IMP(bool a, bool b) { return !a | b; }
