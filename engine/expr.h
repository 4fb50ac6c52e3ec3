// Scalar values: concrete bits or a Z3 term (Bool sort for width 1, BitVec otherwise).
#pragma once
#include <z3.h>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>
#include <map>

using u128 = unsigned __int128;
using i128 = __int128;

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

struct Val {
    uint32_t w = 0;
    Z3_ast a = nullptr;
    u128 c = 0;
    Val() = default;
    Val(uint32_t w_, u128 c_);
    Val(uint32_t w_, Z3_ast a_) : w(w_), a(a_) {}
    bool sym() const { return a != nullptr; }
    uint64_t u64() const { return (uint64_t)c; }
    int64_t s64() const;
};

extern Z3_context Z;
extern bool gFpUF;         // floating point arithmetic as uninterpreted functions

void exprInit();
inline u128 maskOf(uint32_t w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline Val::Val(uint32_t w_, u128 c_) : w(w_), c(c_ & maskOf(w_)) {}
inline i128 sext128(u128 v, uint32_t w) {
    if (w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskOf(w);
    return (i128)((v ^ m) - m);
}
inline int64_t Val::s64() const { return (int64_t)sext128(c, w); }

Z3_ast toAst(Val const& v);
Val fromAst(uint32_t w, Z3_ast a);        // tidies; detects constants
Val freshVar(const std::string& name, uint32_t w);
uint32_t astSize(Z3_ast a);
extern int (*gKnown)(Z3_ast);             // truth value of a Boolean term on the current path, -1 unknown
// If-then-else trees with constant leaves.
bool isCI(Val const& v);
void ciSplit(Val const& v, Val& c, Val& x, Val& y);
Val ciReduce(Val const& v);               // drop branches that the current path rules out

enum class Op { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor };
Val bin(Op op, Val const& x, Val const& y);
enum class Cmp { EQ, NE, UGT, UGE, ULT, ULE, SGT, SGE, SLT, SLE };
Val cmp(Cmp p, Val const& x, Val const& y);
Val ite(Val const& c, Val const& x, Val const& y);
Val notB(Val const& x);
Val andB(Val const& x, Val const& y);
Val orB(Val const& x, Val const& y);
Val zext(Val const& x, uint32_t w);
Val sext(Val const& x, uint32_t w);
Val extract(Val const& x, uint32_t hi, uint32_t lo);
inline Val trunc(Val const& x, uint32_t w) { return x.w == w ? x : extract(x, w - 1, 0); }
Val concat(Val const& hi, Val const& lo);

// floating point (values are IEEE bit patterns of width 32 or 64)
Val fpCmp(unsigned llvmPred, Val const& x, Val const& y);
enum class FOp { Add, Sub, Mul, Div };
Val fpBin(FOp op, Val const& x, Val const& y);
Val fpSqrt(Val const& x);
Val fpFma(Val const& x, Val const& y, Val const& z);
Val fpRound(Val const& x, int mode);  // 0 floor 1 ceil 2 trunc 3 rne 4 rna
Val fpNeg(Val const& x);
Val fpAbs(Val const& x);
Val fpIsNan(Val const& x);
Val fpConv(Val const& x, uint32_t w);              // fptrunc / fpext
Val fpToInt(Val const& x, uint32_t w, bool sgn);
Val intToFp(Val const& x, uint32_t w, bool sgn);
Val fpToIntOk(Val const& x, uint32_t w, bool sgn);  // in range predicate
// Definition of a floating point operation's result, for the solver's lemmas.
enum FpKind { FK_Add, FK_Sub, FK_Mul, FK_Div, FK_Sqrt, FK_Floor, FK_Ceil, FK_Trunc, FK_Rne, FK_Rna, FK_SI, FK_UI };
struct FpDef { int kind; Val x, y, s, nan; Z3_ast f; };
extern std::unordered_map<Z3_ast, FpDef> gFpDefs;     // by result (floating point term)
Z3_ast fpTerm(Val const& x);                          // floating point view of a bit pattern
Val uf(const std::string& name, std::vector<Val> const& args, uint32_t w);
inline double asDouble(Val const& v) { double d; uint64_t u = v.u64(); memcpy(&d, &u, 8); return d; }
inline Val ofDouble(double d) { uint64_t u; memcpy(&u, &d, 8); return Val(64, (u128)u); }
