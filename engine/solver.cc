#include "solver.h"
#include <boost/multiprecision/cpp_int.hpp>
#include <chrono>
#include <map>
#include <cfloat>
#include <cstdio>
#include <fstream>
#include <sstream>
#include <set>
#include <unistd.h>
#include <sys/wait.h>

SolverStats gStats;
SolverOpts gSolverOpts;

Val Model::eval(Val const& v) const {
    if (!v.sym()) return v;
    Z3_ast r = nullptr;
    if (!Z3_model_eval(Z, m, v.a, true, &r)) throw std::runtime_error("model eval");
    Z3_inc_ref(Z, r);
    Val out = fromAst(v.w, r);
    if (out.sym()) {  // e.g. fp terms that need another simplification
        Z3_ast s = Z3_simplify(Z, out.a);
        Z3_inc_ref(Z, s);
        out = fromAst(v.w, s);
    }
    return out;
}
static double now() {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}
static Z3_solver gInc = nullptr;
static std::vector<Z3_ast> gStack;

static void incReset() {
    if (gInc) Z3_solver_dec_ref(Z, gInc);
    gInc = gSolverOpts.logic.empty() ? Z3_mk_simple_solver(Z)
                                     : Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, gSolverOpts.logic.c_str()));
    Z3_solver_inc_ref(Z, gInc);
    gStack.clear();
}
static void setTimeout(Z3_solver s, unsigned ms) {
    Z3_params p = Z3_mk_params(Z);
    Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), ms);
    Z3_solver_set_params(Z, s, p);
    Z3_params_dec_ref(Z, p);
}
static Sat conv(Z3_lbool r) { return r == Z3_L_TRUE ? Sat::Yes : r == Z3_L_FALSE ? Sat::No : Sat::Unknown; }

static Sat incSolve(std::vector<Z3_ast> const& pc, Val const& extra, ModelP* out) {
    if (!gInc) incReset();
    size_t k = 0;
    while (k < gStack.size() && k < pc.size() && gStack[k] == pc[k]) ++k;
    if (gStack.size() > k) { Z3_solver_pop(Z, gInc, gStack.size() - k); gStack.resize(k); }
    for (; k < pc.size(); ++k) { Z3_solver_push(Z, gInc); Z3_solver_assert(Z, gInc, pc[k]); gStack.push_back(pc[k]); }
    setTimeout(gInc, gSolverOpts.incMs);
    Z3_solver_push(Z, gInc);
    Z3_solver_assert(Z, gInc, toAst(extra));
    Sat r = Sat::Unknown;
    try {
        r = conv(Z3_solver_check(Z, gInc));
        if (r == Sat::Yes && out) *out = std::make_shared<Model>(Z3_solver_get_model(Z, gInc));
    } catch (std::runtime_error const&) { r = Sat::Unknown; }
    if (r == Sat::Unknown) incReset();
    else Z3_solver_pop(Z, gInc, 1);
    return r;
}

// ---------------------------------------------------------------- integer view of bit-vector constraints
// Modular arithmetic on few variables is decided much faster over bounded integers than by
// bit-blasting. Every bit-vector term becomes a linear form over integer atoms; reductions modulo
// 2^w introduce quotients. Terms outside the fragment become unconstrained atoms, so "unsat" carries
// over; a "sat" answer is only used after its model has been evaluated on the original constraints.
using BI = boost::multiprecision::cpp_int;
struct Lin {
    std::map<Z3_ast, BI> c;
    BI k = 0, lo = 0, hi = 0;     // value range
    bool isConst() const { return c.empty(); }
    std::vector<std::pair<Z3_ast, BI>> key() const {
        std::vector<std::pair<Z3_ast, BI>> r(c.begin(), c.end());
        r.push_back({nullptr, k});
        return r;
    }
};
struct LiaEntry { Z3_ast t = nullptr; Lin l; std::vector<Z3_ast> vars; bool isInt = false; };
static Z3_ast K(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static Z3_sort intS() { static Z3_sort s = nullptr; if (!s) { s = Z3_mk_int_sort(Z); Z3_inc_ref(Z, Z3_sort_to_ast(Z, s)); } return s; }
static Z3_ast num(BI const& v) { return K(Z3_mk_numeral(Z, v.str().c_str(), intS())); }
static BI pow2(unsigned w) { return BI(1) << w; }
static std::unordered_map<Z3_ast, LiaEntry> gLia;
static std::unordered_map<Z3_ast, Z3_ast> gLiaBack;    // integer (or Boolean) atom -> original constant
static std::unordered_map<Z3_ast, Z3_ast> gLiaFacts;   // constraints that come with an atom
static std::unordered_map<Z3_ast, std::vector<Z3_ast>> gLiaDeps;  // further atoms these mention
static Z3_ast iLe(Z3_ast a, Z3_ast b) { return K(Z3_mk_le(Z, a, b)); }
static Z3_ast iLt(Z3_ast a, Z3_ast b) { return K(Z3_mk_lt(Z, a, b)); }
static Z3_ast iMul(Z3_ast a, Z3_ast b) { Z3_ast v[2] = {a, b}; return K(Z3_mk_mul(Z, 2, v)); }
static Z3_ast iAnd(std::vector<Z3_ast> const& f) { return K(Z3_mk_and(Z, f.size(), f.data())); }
static Z3_ast freshInt(const char* tag) {
    static unsigned cnt = 0;
    return K(Z3_mk_const(Z, Z3_mk_string_symbol(Z, (tag + std::to_string(cnt++)).c_str()), intS()));
}
static Z3_ast linAst(Lin const& l) {
    std::vector<Z3_ast> t;
    for (auto& p : l.c) t.push_back(p.second == 1 ? p.first : iMul(num(p.second), p.first));
    if (l.k != 0 || t.empty()) t.push_back(num(l.k));
    return t.size() == 1 ? t[0] : K(Z3_mk_add(Z, t.size(), t.data()));
}
static Lin linConst(BI const& v) { Lin l; l.k = v; l.lo = l.hi = v; return l; }
static Lin linAtom(Z3_ast a, BI const& lo, BI const& hi) { Lin l; l.c[a] = 1; l.lo = lo; l.hi = hi; return l; }
static std::unordered_map<Z3_ast, std::pair<BI, BI>> gAtomRange;
static Lin linAdd(Lin const& x, Lin const& y, BI const& f) {  // x + f*y
    Lin r = x;
    for (auto& p : y.c) { BI& c = r.c[p.first]; c += f * p.second; if (c == 0) r.c.erase(p.first); }
    r.k += f * y.k;
    if (f >= 0) { r.lo += f * y.lo; r.hi += f * y.hi; } else { r.lo += f * y.hi; r.hi += f * y.lo; }
    return r;
}
static void linRange(Lin& l) {  // tighten from the atoms' own ranges
    BI lo = l.k, hi = l.k;
    for (auto& p : l.c) {
        auto it = gAtomRange.find(p.first);
        if (it == gAtomRange.end()) return;
        if (p.second > 0) { lo += p.second * it->second.first; hi += p.second * it->second.second; }
        else { lo += p.second * it->second.second; hi += p.second * it->second.first; }
    }
    if (lo > l.lo) l.lo = lo;
    if (hi < l.hi) l.hi = hi;
}
static Lin atomOf(Z3_ast a, BI const& lo, BI const& hi) { gAtomRange[a] = {lo, hi}; return linAtom(a, lo, hi); }
// l = 2^s * whole + rest, with the coefficients of rest reduced to (-2^(s-1), 2^(s-1)]
static void linSplit(Lin const& l, unsigned s, Lin& whole, Lin& rest) {
    BI N = pow2(s), H = N / 2;
    auto red = [&](BI const& v) {
        BI c = v % N;
        if (c > H) c -= N;
        if (c <= -H) c += N;
        return c;
    };
    whole = rest = Lin();
    rest.k = red(l.k);
    whole.k = (l.k - rest.k) / N;
    rest.lo = rest.hi = rest.k;
    whole.lo = whole.hi = whole.k;
    auto widen = [](Lin& x, BI const& f, std::pair<BI, BI> const& r) {
        if (f > 0) { x.lo += f * r.first; x.hi += f * r.second; } else { x.lo += f * r.second; x.hi += f * r.first; }
    };
    for (auto& p : l.c) {
        auto& ar = gAtomRange[p.first];
        BI c = red(p.second), d = (p.second - c) / N;
        if (c != 0) { rest.c[p.first] = c; widen(rest, c, ar); }
        if (d != 0) { whole.c[p.first] = d; widen(whole, d, ar); }
    }
    if (whole.c.empty() && whole.k == 0) { if (l.lo > rest.lo) rest.lo = l.lo; if (l.hi < rest.hi) rest.hi = l.hi; }
}
// quotient of l by 2^s (floor); the remainder is l - 2^s * quotient
static Lin linQuot0(Lin const& l, unsigned s, std::vector<Z3_ast>& vars) {
    BI N = pow2(s);
    auto fdiv = [&](BI const& v) { return v >= 0 ? BI(v / N) : BI(-((-v + N - 1) / N)); };
    if (l.isConst()) return linConst(fdiv(l.k));
    static std::map<std::pair<std::vector<std::pair<Z3_ast, BI>>, unsigned>, Lin> memo;
    auto key = std::make_pair(l.key(), s);
    auto it = memo.find(key);
    Lin r;
    if (it != memo.end()) r = it->second;
    else {
        BI lo = fdiv(l.lo), hi = fdiv(l.hi);
        if (lo == hi) return linConst(lo);
        Z3_ast a = linAst(l);
        if (hi == lo + 1) {
            Z3_ast q = K(Z3_mk_ite(Z, iLt(a, num(hi * N)), num(lo), num(hi)));
            r = atomOf(q, lo, hi);
        } else {
            Z3_ast q = freshInt("quo!");
            Z3_ast v[2] = {a, iMul(num(-N), q)};
            Z3_ast rem = K(Z3_mk_add(Z, 2, v));
            gLiaFacts[q] = iAnd({iLe(num(0), rem), iLt(rem, num(N)), iLe(num(lo), q), iLe(q, num(hi))});
            r = atomOf(q, lo, hi);
        }
        memo[key] = r;
    }
    for (auto& p : r.c) if (gLiaFacts.count(p.first)) vars.push_back(p.first);
    return r;
}
static Lin linQuot(Lin const& l0, unsigned s, std::vector<Z3_ast>& vars) {
    BI N = pow2(s);
    Lin l = l0;
    linRange(l);
    auto fdiv = [&](BI const& v) { return v >= 0 ? BI(v / N) : BI(-((-v + N - 1) / N)); };
    if (fdiv(l.lo) == fdiv(l.hi)) return linConst(fdiv(l.lo));
    Lin whole, rest;
    linSplit(l, s, whole, rest);
    Lin r = linAdd(whole, linQuot0(rest, s, vars), 1);
    if (fdiv(l.lo) > r.lo) r.lo = fdiv(l.lo);
    if (fdiv(l.hi) < r.hi) r.hi = fdiv(l.hi);
    return r;
}
static Lin linMod(Lin l, unsigned w, std::vector<Z3_ast>& vars) {
    linRange(l);
    BI N = pow2(w);
    if (l.lo >= 0 && l.hi < N) return l;
    auto fdiv = [&](BI const& v) { return v >= 0 ? BI(v / N) : BI(-((-v + N - 1) / N)); };
    if (fdiv(l.lo) == fdiv(l.hi)) {
        BI q = fdiv(l.lo);
        Lin r = linAdd(l, linConst(q), -N);
        return r;
    }
    Lin whole, m;
    linSplit(l, w, whole, m);
    if (m.lo >= 0 && m.hi < N) return m;
    Lin r = linAdd(m, linQuot0(m, w, vars), -N);
    r.lo = 0;
    r.hi = N - 1;
    return r;
}
static std::unordered_map<Z3_ast, Z3_ast> gVarDef;     // atom -> floating point definition it belongs to
// A double is represented by its position in the order of all doubles (both zeros are 0) and a
// Boolean for NaN; its bits are only linked to these where they are used as an integer.
struct FpEnt { bool ok = false; Lin o; Z3_ast nan = nullptr; std::vector<Z3_ast> vars; };
static std::unordered_map<Z3_ast, FpEnt> gFpEnt;
static std::unordered_map<Z3_ast, Z3_ast> gBitsAtom;   // 64 bit term -> its integer atom
static std::unordered_map<Z3_ast, Z3_ast> gBitsFp;     // 64 bit term -> FP term viewing it
static std::unordered_map<Z3_ast, std::pair<Z3_ast, Z3_ast>> gFpBack;   // order atom -> (input constant, NaN flag)
static BI INFO() { static BI v = BI("9218868437227405312"); return v; }
static LiaEntry const& lia(Z3_ast a);
static void addFact(Z3_ast v, Z3_ast f) {
    auto it = gLiaFacts.find(v);
    if (it == gLiaFacts.end()) gLiaFacts[v] = f; else it->second = iAnd({it->second, f});
}
static Z3_ast linkFact(Z3_ast b, Z3_ast o, Z3_ast nan) {
    BI H = pow2(63), I = INFO();
    Z3_ast pos = iAnd({iLe(b, num(I)), K(Z3_mk_eq(Z, o, b))});
    Z3_ast sum[2] = {o, b};
    Z3_ast neg = iAnd({iLe(num(H), b), iLe(b, num(H + I)), K(Z3_mk_eq(Z, K(Z3_mk_add(Z, 2, sum)), num(H)))});
    Z3_ast nb[2] = {iAnd({iLt(num(I), b), iLt(b, num(H))}), iLt(num(H + I), b)};
    Z3_ast isn = K(Z3_mk_or(Z, 2, nb));
    Z3_ast alt[2] = {pos, neg};
    return K(Z3_mk_ite(Z, nan, isn, K(Z3_mk_or(Z, 2, alt))));
}
static FpEnt fpConst(uint64_t u) {
    FpEnt e;
    e.ok = true;
    bool nan = (u & ~(1ull << 63)) > 0x7ff0000000000000ull;
    e.nan = K(nan ? Z3_mk_true(Z) : Z3_mk_false(Z));
    BI v = u >> 63 ? -BI(u & ~(1ull << 63)) : BI(u);
    e.o = linConst(nan ? BI(0) : v);
    return e;
}
// ties the bits of a term to its order position, once both views exist
static void fpLink(Z3_ast bits, Z3_ast v) {
    auto it = gBitsFp.find(bits);
    if (it == gBitsFp.end()) return;
    FpEnt const& e = gFpEnt[it->second];
    if (!e.ok || e.o.isConst()) return;
    Z3_ast l = linkFact(v, linAst(e.o), e.nan);
    addFact(v, l);
    for (auto o : e.vars) addFact(o, l);
}
static FpEnt const& fpEnt(Z3_ast f) {
    auto it = gFpEnt.find(f);
    if (it != gFpEnt.end()) return it->second;
    K(f);
    FpEnt e;
    Z3_sort so = Z3_get_sort(Z, f);
    if (Z3_get_sort_kind(Z, so) != Z3_FLOATING_POINT_SORT || Z3_fpa_get_ebits(Z, so) != 11 || Z3_fpa_get_sbits(Z, so) != 53) return gFpEnt[f] = e;
    if (Z3_is_app(Z, f) ) {
        Z3_app p = Z3_to_app(Z, f);
        auto dk = Z3_get_decl_kind(Z, Z3_get_app_decl(Z, p));
        unsigned n = Z3_get_app_num_args(Z, p);
        auto arg = [&](unsigned i) { return Z3_get_app_arg(Z, p, i); };
        if (dk == Z3_OP_FPA_NEG || dk == Z3_OP_FPA_ABS) {
            FpEnt x = fpEnt(arg(0));
            if (!x.ok) return gFpEnt[f] = e;
            e = x;
            Lin m = linAdd(linConst(0), x.o, -1);
            if (dk == Z3_OP_FPA_NEG) e.o = m;
            else if (!x.o.isConst()) {
                Z3_ast t = K(Z3_mk_ite(Z, iLe(num(0), linAst(x.o)), linAst(x.o), linAst(m)));
                e.o = atomOf(t, 0, INFO());
            } else if (x.o.k < 0) e.o = m;
            return gFpEnt[f] = e;
        }
        if (dk == Z3_OP_ITE) {
            FpEnt x = fpEnt(arg(1)), y = fpEnt(arg(2));
            LiaEntry c = lia(arg(0));
            if (!x.ok || !y.ok) return gFpEnt[f] = e;
            e.ok = true;
            e.nan = K(Z3_mk_ite(Z, c.t, x.nan, y.nan));
            e.o = atomOf(K(Z3_mk_ite(Z, c.t, linAst(x.o), linAst(y.o))), -INFO(), INFO());
            std::set<Z3_ast> vs(c.vars.begin(), c.vars.end());
            vs.insert(x.vars.begin(), x.vars.end());
            vs.insert(y.vars.begin(), y.vars.end());
            e.vars.assign(vs.begin(), vs.end());
            return gFpEnt[f] = e;
        }
        Z3_ast bits = nullptr;
        if (dk == Z3_OP_FPA_TO_FP && n == 1 && Z3_get_sort_kind(Z, Z3_get_sort(Z, arg(0))) == Z3_BV_SORT) bits = arg(0);
        if (!bits && n <= 1 && (dk == Z3_OP_FPA_NUM || dk == Z3_OP_FPA_PLUS_INF || dk == Z3_OP_FPA_MINUS_INF || dk == Z3_OP_FPA_NAN || dk == Z3_OP_FPA_PLUS_ZERO || dk == Z3_OP_FPA_MINUS_ZERO)) {
            Z3_ast b = K(Z3_simplify(Z, K(Z3_mk_fpa_to_ieee_bv(Z, f))));
            if (dk == Z3_OP_FPA_NAN) return gFpEnt[f] = fpConst(0x7ff8000000000000ull);
            if (Z3_get_ast_kind(Z, b) == Z3_NUMERAL_AST) bits = b;
        }
        if (bits && Z3_get_ast_kind(Z, bits) == Z3_NUMERAL_AST)
            return gFpEnt[f] = fpConst(strtoull(Z3_get_numeral_string(Z, bits), nullptr, 10));
        // a new point of the order
        Z3_ast o = freshInt("ord!");
        static unsigned cnt = 0;
        Z3_ast nan = K(Z3_mk_const(Z, Z3_mk_string_symbol(Z, ("nan!" + std::to_string(cnt++)).c_str()), Z3_mk_bool_sort(Z)));
        e.ok = true;
        e.o = atomOf(o, -INFO(), INFO());
        e.nan = nan;
        e.vars.push_back(o);
        addFact(o, iAnd({iLe(num(-INFO()), o), iLe(o, num(INFO()))}));
        if (gFpDefs.count(f)) gVarDef[o] = f;
        Z3_ast view = bits;
        if (!bits) view = K(Z3_simplify(Z, K(Z3_mk_fpa_to_ieee_bv(Z, f))));
        gBitsFp[view] = f;
        gFpEnt[f] = e;
        if (bits) {
            bool leaf = Z3_get_ast_kind(Z, bits) == Z3_APP_AST && Z3_get_app_num_args(Z, Z3_to_app(Z, bits)) == 0;
            if (leaf) {
                gFpBack[o] = {bits, nan};
                auto bt = gBitsAtom.find(bits);
                if (bt != gBitsAtom.end()) fpLink(bits, bt->second);
            } else {
                LiaEntry b = lia(bits);
                addFact(o, linkFact(linAst(b.l), o, nan));
                std::set<Z3_ast> vs(b.vars.begin(), b.vars.end());
                vs.insert(o);
                e.vars.assign(vs.begin(), vs.end());
                gFpEnt[f] = e;
            }
        } else {
            auto bt = gBitsAtom.find(view);
            if (bt != gBitsAtom.end()) fpLink(view, bt->second);
        }
        return gFpEnt[f];
    }
    return gFpEnt[f] = e;
}
static LiaEntry const& lia(Z3_ast a) {
    auto it = gLia.find(a);
    if (it != gLia.end()) return it->second;
    K(a);
    LiaEntry e;
    Z3_sort so = Z3_get_sort(Z, a);
    Z3_sort_kind sk = Z3_get_sort_kind(Z, so);
    unsigned w = sk == Z3_BV_SORT ? Z3_get_bv_sort_size(Z, so) : 0;
    bool done = false;
    std::set<Z3_ast> vs;
    auto arg = [&](unsigned i) { return Z3_get_app_arg(Z, Z3_to_app(Z, a), i); };
    auto kid = [&](unsigned i) -> LiaEntry const& {
        LiaEntry const& k = lia(arg(i));
        vs.insert(k.vars.begin(), k.vars.end());
        return k;
    };
    auto isInt = [&](unsigned i) { return Z3_get_sort_kind(Z, Z3_get_sort(Z, arg(i))) == Z3_BV_SORT; };
    auto isBool = [&](unsigned i) { return Z3_get_sort_kind(Z, Z3_get_sort(Z, arg(i))) == Z3_BOOL_SORT; };
    auto isNum = [&](unsigned i) { return Z3_get_ast_kind(Z, arg(i)) == Z3_NUMERAL_AST; };
    auto width = [&](unsigned i) { return Z3_get_bv_sort_size(Z, Z3_get_sort(Z, arg(i))); };
    auto setL = [&](Lin const& l) { e.l = l; e.isInt = true; done = true; };
    auto setB = [&](Z3_ast t) { e.t = t; done = true; };
    std::vector<Z3_ast> extra;
    auto signedLin = [&](Lin const& l, unsigned ww) {
        BI H = pow2(ww - 1), N = pow2(ww);
        if (l.hi < H) return l;
        if (l.lo >= H) return linAdd(l, linConst(N), -1);
        Z3_ast q = K(Z3_mk_ite(Z, iLt(linAst(l), num(H)), num(0), num(1)));
        Lin r = linAdd(l, atomOf(q, 0, 1), -N);
        r.lo = -H;
        r.hi = H - 1;
        return r;
    };
    if (sk == Z3_BV_SORT && Z3_get_ast_kind(Z, a) == Z3_NUMERAL_AST) setL(linConst(BI(std::string(Z3_get_numeral_string(Z, a)))));
    else if (Z3_get_ast_kind(Z, a) == Z3_APP_AST && (sk == Z3_BOOL_SORT || sk == Z3_BV_SORT)) {
        Z3_app p = Z3_to_app(Z, a);
        unsigned n = Z3_get_app_num_args(Z, p);
        std::vector<Z3_ast> k;
        auto bools = [&] { for (unsigned i = 0; i < n; ++i) k.push_back(kid(i).t); };
        auto dk = Z3_get_decl_kind(Z, Z3_get_app_decl(Z, p));
        switch (dk) {
            case Z3_OP_TRUE: case Z3_OP_FALSE: setB(a); break;
            case Z3_OP_NOT: bools(); setB(K(Z3_mk_not(Z, k[0]))); break;
            case Z3_OP_AND: bools(); setB(K(Z3_mk_and(Z, n, k.data()))); break;
            case Z3_OP_OR: bools(); setB(K(Z3_mk_or(Z, n, k.data()))); break;
            case Z3_OP_XOR: if (n == 2) { bools(); setB(K(Z3_mk_xor(Z, k[0], k[1]))); } break;
            case Z3_OP_IMPLIES: bools(); setB(K(Z3_mk_implies(Z, k[0], k[1]))); break;
            case Z3_OP_ITE:
                if (sk == Z3_BOOL_SORT) { bools(); setB(K(Z3_mk_ite(Z, k[0], k[1], k[2]))); }
                else {
                    Z3_ast c = kid(0).t;
                    Lin x = kid(1).l, y = kid(2).l;
                    Z3_ast t = K(Z3_mk_ite(Z, c, linAst(x), linAst(y)));
                    setL(atomOf(t, x.lo < y.lo ? x.lo : y.lo, x.hi > y.hi ? x.hi : y.hi));
                }
                break;
            case Z3_OP_EQ:
                if (isBool(0)) { bools(); setB(K(Z3_mk_eq(Z, k[0], k[1]))); }
                else if (isInt(0)) setB(K(Z3_mk_eq(Z, linAst(kid(0).l), linAst(kid(1).l))));
                break;
            case Z3_OP_ULEQ: setB(iLe(linAst(kid(0).l), linAst(kid(1).l))); break;
            case Z3_OP_ULT: setB(iLt(linAst(kid(0).l), linAst(kid(1).l))); break;
            case Z3_OP_UGEQ: setB(iLe(linAst(kid(1).l), linAst(kid(0).l))); break;
            case Z3_OP_UGT: setB(iLt(linAst(kid(1).l), linAst(kid(0).l))); break;
            case Z3_OP_SLEQ: case Z3_OP_SLT: case Z3_OP_SGEQ: case Z3_OP_SGT: {
                unsigned ww = width(0);
                Z3_ast x = linAst(signedLin(kid(0).l, ww)), y = linAst(signedLin(kid(1).l, ww));
                setB(dk == Z3_OP_SLEQ ? iLe(x, y) : dk == Z3_OP_SLT ? iLt(x, y) : dk == Z3_OP_SGEQ ? iLe(y, x) : iLt(y, x));
                break;
            }
            case Z3_OP_BADD: {
                Lin l = kid(0).l;
                for (unsigned i = 1; i < n; ++i) l = linAdd(l, kid(i).l, 1);
                setL(linMod(l, w, extra));
                break;
            }
            case Z3_OP_BSUB: {
                Lin l = kid(0).l;
                for (unsigned i = 1; i < n; ++i) l = linAdd(l, kid(i).l, -1);
                setL(linMod(l, w, extra));
                break;
            }
            case Z3_OP_BNEG: setL(linMod(linAdd(linConst(0), kid(0).l, -1), w, extra)); break;
            case Z3_OP_BNOT: setL(linAdd(linConst(pow2(w) - 1), kid(0).l, -1)); break;
            case Z3_OP_BMUL:
                if (n == 2) {
                    Lin x = kid(0).l, y = kid(1).l;
                    if (y.isConst()) std::swap(x, y);
                    if (x.isConst()) {
                        BI c = x.k, N = pow2(w);
                        if (c > N / 2) c -= N;
                        setL(linMod(linAdd(linConst(0), y, c), w, extra));
                        break;
                    }
                    if (x.lo < 0 || y.lo < 0) break;
                    Z3_ast xa = linAst(x), ya = linAst(y);
                    if (ya < xa) { std::swap(xa, ya); std::swap(x, y); }
                    static std::map<std::pair<Z3_ast, Z3_ast>, Z3_ast> prods;
                    Z3_ast& P = prods[{xa, ya}];
                    if (!P) {
                        P = freshInt("prod!");
                        Z3_ast one = num(1), U = num(x.hi), V = num(y.hi);
                        Z3_ast sub1[2] = {iMul(U, ya), iMul(V, xa)};
                        Z3_ast lhs[2] = {K(Z3_mk_add(Z, 2, sub1)), num(-(x.hi * y.hi))};
                        Z3_ast s2[3] = {xa, ya, num(-1)};
                        gLiaFacts[P] = iAnd({iLe(num(0), P), iLe(P, iMul(V, xa)), iLe(P, iMul(U, ya)), iLe(K(Z3_mk_add(Z, 2, lhs)), P),
                                             K(Z3_mk_implies(Z, iAnd({iLe(one, xa), iLe(one, ya)}), iLe(K(Z3_mk_add(Z, 3, s2)), P)))});
                        gAtomRange[P] = {0, x.hi * y.hi};
                    }
                    extra.push_back(P);
                    setL(linMod(linAtom(P, 0, x.hi * y.hi), w, extra));
                }
                break;
            case Z3_OP_ZERO_EXT: setL(kid(0).l); break;
            case Z3_OP_SIGN_EXT: {
                Lin l = signedLin(kid(0).l, width(0));
                setL(linMod(l, w, extra));
                break;
            }
            case Z3_OP_CONCAT: {
                Lin l = kid(0).l;
                for (unsigned i = 1; i < n; ++i) l = linAdd(kid(i).l, l, pow2(width(i)));
                setL(l);
                break;
            }
            case Z3_OP_EXTRACT: {
                Z3_func_decl d = Z3_get_app_decl(Z, p);
                unsigned hi = Z3_get_decl_int_parameter(Z, d, 0), lo = Z3_get_decl_int_parameter(Z, d, 1);
                Lin l = kid(0).l;
                if (lo) l = linQuot(l, lo, extra);
                setL(linMod(l, hi - lo + 1, extra));
                break;
            }
            case Z3_OP_BSHL:
                if (isNum(1)) {
                    BI c = kid(1).l.k;
                    if (c >= w) { setL(linConst(0)); break; }
                    setL(linMod(linAdd(linConst(0), kid(0).l, pow2((unsigned)c)), w, extra));
                }
                break;
            case Z3_OP_BLSHR:
                if (isNum(1)) {
                    BI c = kid(1).l.k;
                    if (c >= w) { setL(linConst(0)); break; }
                    setL(linQuot(kid(0).l, (unsigned)c, extra));
                }
                break;
            case Z3_OP_BUDIV: case Z3_OP_BUDIV_I: case Z3_OP_BUREM: case Z3_OP_BUREM_I:
                if (isNum(1) && kid(1).l.k != 0) {
                    Lin x = kid(0).l;
                    BI c = kid(1).l.k;
                    if (x.lo < 0) break;
                    static std::map<std::pair<Z3_ast, BI>, Z3_ast> quos;
                    Z3_ast xa = linAst(x);
                    Z3_ast& q = quos[{xa, c}];
                    if (!q) {
                        q = freshInt("div!");
                        Z3_ast v[2] = {xa, iMul(num(-c), q)};
                        Z3_ast rem = K(Z3_mk_add(Z, 2, v));
                        gLiaFacts[q] = iAnd({iLe(num(0), rem), iLt(rem, num(c)), iLe(num(0), q)});
                        gAtomRange[q] = {x.lo / c, x.hi / c};
                    }
                    extra.push_back(q);
                    Lin ql = linAtom(q, x.lo / c, x.hi / c);
                    if (dk == Z3_OP_BUDIV || dk == Z3_OP_BUDIV_I) setL(ql);
                    else { Lin r = linAdd(x, ql, -c); r.lo = 0; r.hi = c - 1; setL(r); }
                }
                break;
            case Z3_OP_FPA_LT: case Z3_OP_FPA_GT: case Z3_OP_FPA_LE: case Z3_OP_FPA_GE: case Z3_OP_FPA_EQ: {
                FpEnt x = fpEnt(arg(0)), y = fpEnt(arg(1));
                if (!x.ok || !y.ok) break;
                vs.insert(x.vars.begin(), x.vars.end());
                vs.insert(y.vars.begin(), y.vars.end());
                Z3_ast u = linAst(x.o), v = linAst(y.o);
                Z3_ast r = dk == Z3_OP_FPA_LT ? iLt(u, v) : dk == Z3_OP_FPA_GT ? iLt(v, u) : dk == Z3_OP_FPA_LE ? iLe(u, v)
                         : dk == Z3_OP_FPA_GE ? iLe(v, u) : K(Z3_mk_eq(Z, u, v));
                setB(iAnd({K(Z3_mk_not(Z, x.nan)), K(Z3_mk_not(Z, y.nan)), r}));
                break;
            }
            case Z3_OP_FPA_IS_NAN: {
                FpEnt x = fpEnt(arg(0));
                if (!x.ok) break;
                vs.insert(x.vars.begin(), x.vars.end());
                setB(x.nan);
                break;
            }
            default: break;
        }
    }
    if (!done) {
        // opaque: a fresh integer / Boolean standing for this term
        vs.clear();
        extra.clear();
        static unsigned cnt = 0;
        std::string nm = "lia!" + std::to_string(cnt++);
        if (sk == Z3_BOOL_SORT) e.t = K(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), so));
        else {
            Z3_ast v = K(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), intS()));
            e.t = v;
            if (sk == Z3_BV_SORT) {
                gLiaFacts[v] = iAnd({iLe(num(0), v), iLt(v, num(pow2(w)))});
                e.l = atomOf(v, 0, pow2(w) - 1);
                e.isInt = true;
                extra.push_back(v);
                if (w == 64) gBitsAtom[a] = v;
            }
        }
        if (Z3_get_ast_kind(Z, a) == Z3_APP_AST && Z3_get_app_num_args(Z, Z3_to_app(Z, a)) == 0) gLiaBack[e.t] = a;
        if (sk == Z3_BV_SORT && w == 64) fpLink(a, e.t);
    }
    vs.insert(extra.begin(), extra.end());
    e.vars.assign(vs.begin(), vs.end());
    return gLia[a] = e;
}
// ---- floating point lemmas: facts of IEEE arithmetic (correct rounding is monotone), as Boolean terms
// over the operands' and result's bits; added on demand where a candidate model breaks them.
enum { P_EQ = 1, P_GT = 2, P_GE = 3, P_LT = 4, P_LE = 5 };
static Val imp(Val const& a, Val const& b) { return orB(notB(a), b); }
static Val all(std::vector<Val> const& v) { Val r(1, (u128)1); for (auto& x : v) r = andB(r, x); return r; }
static std::unordered_map<Z3_ast, std::vector<Z3_ast>> gFpLemmas;   // by definition
static std::vector<std::pair<int, Z3_ast>> gFpSeen;
static void addLemma(Z3_ast d, Val const& v) { if (v.sym()) gFpLemmas[d].push_back(K(v.a)); }
static Val finiteV(Val const& x) {
    return cmp(Cmp::ULT, fpAbs(x), Val(64, (u128)0x7ff0000000000000ull));
}
static Val absLe(Val const& x, double m) { return andB(fpCmp(P_LE, x, ofDouble(m)), fpCmp(P_GE, x, ofDouble(-m))); }
static void baseLemmas(FpDef const& f) {
    Z3_ast d = f.f;
    Val zero = ofDouble(0.0);
    Val ok = notB(f.nan);
    Val xn = f.kind >= FK_SI ? Val(1, (u128)0) : fpIsNan(f.x);
    switch (f.kind) {
        case FK_Add: case FK_Sub: {
            bool sub = f.kind == FK_Sub;
            Val yn = fpIsNan(f.y);
            addLemma(d, imp(orB(xn, yn), f.nan));
            addLemma(d, imp(andB(notB(orB(xn, yn)), orB(absLe(f.x, DBL_MAX), absLe(f.y, DBL_MAX))), ok));
            // sign of the result, and comparison with the operands
            Val yneg = sub ? f.y : Val();
            if (sub) {
                addLemma(d, imp(ok, cmp(Cmp::EQ, fpCmp(P_LT, f.x, f.y), fpCmp(P_LT, f.s, zero))));
                addLemma(d, imp(ok, cmp(Cmp::EQ, fpCmp(P_GT, f.x, f.y), fpCmp(P_GT, f.s, zero))));
                addLemma(d, imp(andB(ok, fpCmp(P_GE, f.y, zero)), fpCmp(P_LE, f.s, f.x)));
                addLemma(d, imp(andB(ok, fpCmp(P_LE, f.y, zero)), fpCmp(P_GE, f.s, f.x)));
            } else {
                for (int k = 0; k < 2; ++k) {
                    Val const& u = k ? f.x : f.y;
                    Val const& v = k ? f.y : f.x;
                    addLemma(d, imp(andB(ok, fpCmp(P_GE, u, zero)), fpCmp(P_GE, f.s, v)));
                    addLemma(d, imp(andB(ok, fpCmp(P_LE, u, zero)), fpCmp(P_LE, f.s, v)));
                }
            }
            addLemma(d, imp(andB(absLe(f.x, 1e300), absLe(f.y, 1e300)), andB(ok, absLe(f.s, 2.1e300))));
            break;
        }
        case FK_Mul: {
            Val yn = fpIsNan(f.y);
            addLemma(d, imp(orB(xn, yn), f.nan));
            addLemma(d, imp(andB(absLe(f.x, DBL_MAX), absLe(f.y, DBL_MAX)), ok));
            Val xp = fpCmp(P_GE, f.x, zero), yp = fpCmp(P_GE, f.y, zero), xm = fpCmp(P_LE, f.x, zero), ym = fpCmp(P_LE, f.y, zero);
            addLemma(d, imp(andB(ok, orB(andB(xp, yp), andB(xm, ym))), fpCmp(P_GE, f.s, zero)));
            addLemma(d, imp(andB(ok, orB(andB(xp, ym), andB(xm, yp))), fpCmp(P_LE, f.s, zero)));
            for (int k = 0; k < 2; ++k) {   // |u| <= 1 shrinks v
                Val const& u = k ? f.x : f.y;
                Val const& v = k ? f.y : f.x;
                Val sm = all({ok, fpCmp(P_GE, u, zero), fpCmp(P_LE, u, ofDouble(1.0))});
                addLemma(d, imp(andB(sm, fpCmp(P_GE, v, zero)), fpCmp(P_LE, f.s, v)));
                addLemma(d, imp(andB(sm, fpCmp(P_LE, v, zero)), fpCmp(P_GE, f.s, v)));
                if (!u.sym() && asDouble(u) == 0.5) {
                    // half of a sum lies between the summands
                    for (auto& p : gFpDefs) if (p.second.kind == FK_Add && p.second.s.a == v.a) {
                        FpDef const& g = p.second;
                        Val sm2 = andB(absLe(g.x, 1e300), absLe(g.y, 1e300));
                        addLemma(d, imp(andB(sm2, fpCmp(P_LE, g.x, g.y)), andB(fpCmp(P_GE, f.s, g.x), fpCmp(P_LE, f.s, g.y))));
                        addLemma(d, imp(andB(sm2, fpCmp(P_GE, g.x, g.y)), andB(fpCmp(P_LE, f.s, g.x), fpCmp(P_GE, f.s, g.y))));
                        break;
                    }
                }
            }
            break;
        }
        case FK_Sqrt: addLemma(d, imp(fpCmp(P_GE, f.x, zero), andB(ok, fpCmp(P_GE, f.s, zero)))); break;
        case FK_Floor: case FK_Ceil: case FK_Trunc: case FK_Rne: case FK_Rna:
            addLemma(d, cmp(Cmp::EQ, xn, f.nan));
            if (f.kind == FK_Floor) addLemma(d, imp(ok, fpCmp(P_LE, f.s, f.x)));
            if (f.kind == FK_Ceil) addLemma(d, imp(ok, fpCmp(P_GE, f.s, f.x)));
            break;
        case FK_SI: case FK_UI: addLemma(d, ok); break;
        default: break;
    }
    auto sameV = [](Val const& a, Val const& b) { return a.sym() == b.sym() && (a.sym() ? a.a == b.a : a.c == b.c); };
    // same operation elsewhere: monotone in each operand
    for (auto& p : gFpSeen) if (p.first == f.kind && gFpDefs.count(p.second)) {
        FpDef const& g = gFpDefs[p.second];
        Val both = andB(ok, notB(g.nan));
        if (f.kind == FK_Add || f.kind == FK_Sub) {
            unsigned fw = f.kind == FK_Add ? P_LE : P_GE, bw = f.kind == FK_Add ? P_GE : P_LE;
            addLemma(d, imp(all({both, fpCmp(P_LE, f.x, g.x), fpCmp(fw, f.y, g.y)}), fpCmp(P_LE, f.s, g.s)));
            addLemma(d, imp(all({both, fpCmp(P_GE, f.x, g.x), fpCmp(bw, f.y, g.y)}), fpCmp(P_GE, f.s, g.s)));
            if (f.kind == FK_Sub && sameV(f.x, g.y) && sameV(f.y, g.x)) {   // x - y = -(y - x)
                addLemma(d, cmp(Cmp::EQ, f.nan, g.nan));
                addLemma(d, imp(both, cmp(Cmp::EQ, extract(f.s, 62, 0), extract(g.s, 62, 0))));
            }
        } else if (f.kind == FK_Mul && !f.x.sym() && !g.x.sym() && f.x.c == g.x.c) {
            bool pos = asDouble(f.x) >= 0;
            addLemma(d, imp(all({both, fpCmp(P_LE, f.y, g.y)}), fpCmp(pos ? P_LE : P_GE, f.s, g.s)));
            addLemma(d, imp(all({both, fpCmp(P_GE, f.y, g.y)}), fpCmp(pos ? P_GE : P_LE, f.s, g.s)));
        } else if (f.kind == FK_Mul && !f.y.sym() && !g.y.sym() && f.y.c == g.y.c) {
            bool pos = asDouble(f.y) >= 0;
            addLemma(d, imp(all({both, fpCmp(P_LE, f.x, g.x)}), fpCmp(pos ? P_LE : P_GE, f.s, g.s)));
            addLemma(d, imp(all({both, fpCmp(P_GE, f.x, g.x)}), fpCmp(pos ? P_GE : P_LE, f.s, g.s)));
        } else if (f.kind >= FK_Sqrt && f.kind <= FK_Rna) {
            addLemma(d, imp(all({both, fpCmp(P_LE, f.x, g.x)}), fpCmp(P_LE, f.s, g.s)));
            addLemma(d, imp(all({both, fpCmp(P_GE, f.x, g.x)}), fpCmp(P_GE, f.s, g.s)));
        }
    }
    if (gFpSeen.size() < 400) gFpSeen.push_back({f.kind, d});
}
static double evalFp(int kind, Val const& x, Val const& y) {
    double a = kind < FK_SI ? asDouble(x) : 0, b = kind <= FK_Div ? asDouble(y) : 0;
    volatile double r;
    switch (kind) {
        case FK_Add: r = a + b; break;
        case FK_Sub: r = a - b; break;
        case FK_Mul: r = a * b; break;
        case FK_Div: r = a / b; break;
        case FK_Sqrt: r = std::sqrt(a); break;
        case FK_Floor: r = std::floor(a); break;
        case FK_Ceil: r = std::ceil(a); break;
        case FK_Trunc: r = std::trunc(a); break;
        case FK_Rne: r = std::nearbyint(a); break;
        case FK_Rna: r = std::round(a); break;
        case FK_SI: r = (double)x.s64(); break;
        default: r = (double)(uint64_t)x.c; break;
    }
    return r;
}
// lemmas that pin the operation at (and around) the given operand values
static void pointLemmas(FpDef const& f, Val const& vx, Val const& vy) {
    Z3_ast d = f.f;
    double R = evalFp(f.kind, vx, vy);
    Val r = ofDouble(R), ok = notB(f.nan), zero = ofDouble(0.0);
    bool bin2 = f.kind <= FK_Div;
    auto same = [](Val const& a, Val const& v) {
        if (!a.sym()) return Val(1, (u128)1);
        if (asDouble(v) != asDouble(v)) return fpIsNan(a);
        if (asDouble(v) == 0) return cmp(Cmp::EQ, a, v);
        return fpCmp(P_EQ, a, v);
    };
    Val at = f.kind >= FK_SI ? cmp(Cmp::EQ, f.x, vx) : same(f.x, vx);
    if (bin2 && f.y.sym()) at = andB(at, same(f.y, vy));
    if (R != R) { addLemma(d, imp(at, f.nan)); return; }
    addLemma(d, imp(at, andB(ok, fpCmp(P_EQ, f.s, r))));
    auto le = [&](Val const& a, Val const& b) { return fpCmp(P_LE, a, b); };
    auto ge = [&](Val const& a, Val const& b) { return fpCmp(P_GE, a, b); };
    switch (f.kind) {
        case FK_Add:
            addLemma(d, imp(all({ok, le(f.x, vx), le(f.y, vy)}), le(f.s, r)));
            addLemma(d, imp(all({ok, ge(f.x, vx), ge(f.y, vy)}), ge(f.s, r)));
            break;
        case FK_Sub:
            addLemma(d, imp(all({ok, le(f.x, vx), ge(f.y, vy)}), le(f.s, r)));
            addLemma(d, imp(all({ok, ge(f.x, vx), le(f.y, vy)}), ge(f.s, r)));
            break;
        case FK_Mul: case FK_Div: {
            bool nx = std::signbit(asDouble(vx)), ny = std::signbit(asDouble(vy)), ns = nx != ny;
            // smaller / larger magnitude with the same sign as the point
            auto smaller = [&](Val const& a, Val const& v, bool neg) { return neg ? andB(le(a, zero), ge(a, v)) : andB(ge(a, zero), le(a, v)); };
            auto larger = [&](Val const& a, Val const& v, bool neg) { return neg ? le(a, v) : ge(a, v); };
            Val sSmall = ns ? ge(f.s, r) : le(f.s, r), sLarge = ns ? le(f.s, r) : ge(f.s, r);
            bool mul = f.kind == FK_Mul;
            if (!mul && asDouble(vy) == 0) break;
            addLemma(d, imp(all({ok, smaller(f.x, vx, nx), mul ? smaller(f.y, vy, ny) : larger(f.y, vy, ny)}), sSmall));
            Val yNonzero = mul ? Val(1, (u128)1) : notB(fpCmp(P_EQ, f.y, zero));
            addLemma(d, imp(all({ok, yNonzero, larger(f.x, vx, nx), mul ? larger(f.y, vy, ny) : smaller(f.y, vy, ny)}), sLarge));
            break;
        }
        case FK_SI:
            addLemma(d, imp(cmp(Cmp::SLE, f.x, vx), le(f.s, r)));
            addLemma(d, imp(cmp(Cmp::SGE, f.x, vx), ge(f.s, r)));
            break;
        case FK_UI:
            addLemma(d, imp(cmp(Cmp::ULE, f.x, vx), le(f.s, r)));
            addLemma(d, imp(cmp(Cmp::UGE, f.x, vx), ge(f.s, r)));
            break;
        default:
            addLemma(d, imp(andB(ok, le(f.x, vx)), le(f.s, r)));
            addLemma(d, imp(andB(ok, ge(f.x, vx)), ge(f.s, r)));
            break;
    }
}
static Z3_solver gLs = nullptr;
static std::vector<Z3_ast> gLStack;
// which definitions' lemmas each solver level has asserted, and how many of them
static std::unordered_map<Z3_ast, size_t> gLCount;
static std::vector<std::vector<std::pair<Z3_ast, size_t>>> gLUndo;   // per level: previous counts
static std::vector<Z3_ast> gLDefs;                                   // definitions in use, in order
static std::vector<size_t> gLDefMark;
static void liaPush() { Z3_solver_push(Z, gLs); gLUndo.emplace_back(); gLDefMark.push_back(gLDefs.size()); }
static void liaPop() {
    for (size_t i = gLUndo.back().size(); i-- > 0;) gLCount[gLUndo.back()[i].first] = gLUndo.back()[i].second;
    gLUndo.pop_back();
    gLDefs.resize(gLDefMark.back());
    gLDefMark.pop_back();
    Z3_solver_pop(Z, gLs, 1);
}
static void liaReset() {
    if (gLs) Z3_solver_dec_ref(Z, gLs);
    gLs = nullptr;
    gLStack.clear();
    gLCount.clear();
    gLUndo.clear();
    gLDefs.clear();
    gLDefMark.clear();
}
static void liaVars(LiaEntry const& e);
static void liaLemmas(Z3_ast def) {
    auto& ls = gFpLemmas[def];
    size_t& c = gLCount[def];
    if (c >= ls.size()) return;
    if (!gLUndo.empty()) gLUndo.back().push_back({def, c});
    size_t from = c;
    c = ls.size();
    for (size_t i = from; i < ls.size(); ++i) {
        Z3_ast l = gFpLemmas[def][i];
        LiaEntry e = lia(l);
        liaVars(e);
        Z3_solver_assert(Z, gLs, e.t);
    }
}
static void liaVars(LiaEntry const& e) {
    for (auto v : e.vars) {
        auto ft = gLiaFacts.find(v);
        if (ft != gLiaFacts.end()) Z3_solver_assert(Z, gLs, ft->second);
        auto dt = gVarDef.find(v);
        if (dt == gVarDef.end()) continue;
        Z3_ast d = dt->second;
        if (!gFpLemmas.count(d)) { gFpLemmas[d]; FpDef f = gFpDefs[d]; baseLemmas(f); }
        if (!gLCount.count(d) || gLCount[d] == 0) gLDefs.push_back(d);
        liaLemmas(d);
    }
}
static void liaAssert(Z3_ast a) {
    LiaEntry e = lia(a);
    liaVars(e);
    Z3_solver_assert(Z, gLs, e.t);
}
static bool liaValue(Z3_model im, Val const& v, Val& out, bool fp) {
    if (!v.sym()) { out = v; return true; }
    if (fp) {
        FpEnt e = fpEnt(fpTerm(v));
        if (!e.ok) return false;
        Z3_ast r = nullptr, q = nullptr;
        if (!Z3_model_eval(Z, im, e.nan, true, &q)) return false;
        Z3_inc_ref(Z, q);
        if (Z3_get_bool_value(Z, q) == Z3_L_TRUE) { out = Val(64, (u128)0xfff8000000000000ull); return true; }
        if (!Z3_model_eval(Z, im, linAst(e.o), true, &r)) return false;
        Z3_inc_ref(Z, r);
        if (Z3_get_ast_kind(Z, r) != Z3_NUMERAL_AST) return false;
        BI b(std::string(Z3_get_numeral_string(Z, r)));
        if (b > INFO() || b < -INFO()) return false;
        out = Val(64, (u128)(uint64_t)(b >= 0 ? b : BI(pow2(63) - b)));
        return true;
    }
    LiaEntry e = lia(v.a);
    if (!e.isInt) return false;
    Z3_ast r = nullptr;
    if (!Z3_model_eval(Z, im, linAst(e.l), true, &r)) return false;
    Z3_inc_ref(Z, r);
    if (Z3_get_ast_kind(Z, r) != Z3_NUMERAL_AST) return false;
    BI b(std::string(Z3_get_numeral_string(Z, r)));
    BI N = pow2(v.w);
    b %= N;
    if (b < 0) b += N;
    out = Val(v.w, (u128)(uint64_t)b);
    return v.w <= 64;
}
static Sat liaSolve(std::vector<Z3_ast> const& pc, Val const& extra, ModelP* out) {
    gStats.lia++;
    const char* why = "timeout";
    unsigned rounds = 0;
    double t00 = now();
    if (!gLs) { liaReset(); gLs = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, gLs); }
    Sat r = Sat::Unknown;
    try {
        size_t k = 0;
        while (k < gLStack.size() && k < pc.size() && gLStack[k] == pc[k]) ++k;
        while (gLStack.size() > k) { liaPop(); gLStack.pop_back(); }
        for (; k < pc.size(); ++k) { liaPush(); gLStack.push_back(pc[k]); liaAssert(pc[k]); }
        setTimeout(gLs, gSolverOpts.liaMs);
        liaPush();
        liaAssert(toAst(extra));
        double tEnd = now() + 4.0 * gSolverOpts.liaMs / 1000;
        for (unsigned round = 0; ; ++round) {
            r = conv(Z3_solver_check(Z, gLs));
            if (r != Sat::Yes) break;
            Z3_model im = Z3_solver_get_model(Z, gLs);
            Z3_model_inc_ref(Z, im);
            Z3_model bm = Z3_mk_model(Z);
            ModelP mp = std::make_shared<Model>(bm);
            unsigned n = Z3_model_get_num_consts(Z, im);
            for (unsigned i = 0; i < n; ++i) {
                Z3_func_decl d = Z3_model_get_const_decl(Z, im, i);
                Z3_ast c = Z3_mk_app(Z, d, 0, nullptr);
                Z3_inc_ref(Z, c);
                auto it = gLiaBack.find(c);
                auto fb = gFpBack.find(c);
                if (fb != gFpBack.end()) {
                    auto bt = gBitsAtom.find(fb->second.first);
                    if (bt != gBitsAtom.end() && Z3_model_has_interp(Z, im, Z3_get_app_decl(Z, Z3_to_app(Z, bt->second)))) continue;
                    Val bv;
                    if (!liaValue(im, Val(64, fb->second.first), bv, true)) continue;
                    Z3_add_const_interp(Z, bm, Z3_get_app_decl(Z, Z3_to_app(Z, fb->second.first)), K(toAst(bv)));
                    continue;
                }
                if (it == gLiaBack.end()) continue;
                Z3_ast v = Z3_model_get_const_interp(Z, im, d);
                if (!v) continue;
                Z3_inc_ref(Z, v);
                Z3_sort srt = Z3_get_sort(Z, it->second);
                Z3_ast bv = Z3_get_sort_kind(Z, srt) == Z3_BOOL_SORT ? v : K(Z3_mk_numeral(Z, Z3_get_numeral_string(Z, v), srt));
                Z3_add_const_interp(Z, bm, Z3_get_app_decl(Z, Z3_to_app(Z, it->second)), bv);
            }
            bool ok = mp->evalBool(extra);
            for (size_t i = 0; ok && i < pc.size(); ++i) ok = mp->evalBool(Val(1, pc[i]));
            if (ok) { if (out) *out = mp; Z3_model_dec_ref(Z, im); break; }
            r = Sat::Unknown;
            // refine: operations whose value in this model is not the IEEE result
            bool refined = false;
            if (round < gSolverOpts.fpRounds && now() < tEnd) {
                std::vector<Z3_ast> defs = gLDefs;
                for (auto d : defs) {
                    FpDef f = gFpDefs[d];
                    Val vx, vy = ofDouble(0), vs, vn;
                    if (!liaValue(im, f.x, vx, f.kind < FK_SI) || (f.kind <= FK_Div && !liaValue(im, f.y, vy, true)) || !liaValue(im, f.s, vs, true)) continue;
                    double want = evalFp(f.kind, vx, vy), have = asDouble(vs);
                    if (want == have || (want != want && have != have)) continue;
                    if (gFpLemmas[d].size() > 600) continue;
                    pointLemmas(f, vx, vy);
                    Val tx = mp->eval(f.x), ty = f.kind <= FK_Div ? mp->eval(f.y) : ofDouble(0);
                    if (!tx.sym() && !ty.sym() && (tx.c != vx.c || ty.c != vy.c)) pointLemmas(f, tx, ty);
                    liaLemmas(d);
                    refined = true;
                }
            }
            Z3_model_dec_ref(Z, im);
            rounds = round;
            if (!refined && getenv("VF_LIADEBUG") && round < gSolverOpts.fpRounds) {
                std::vector<Z3_ast> ps = pc; ps.push_back(toAst(extra));
                for (auto q : ps) if (!mp->evalBool(Val(1, q))) fprintf(stderr, "OPAQUE fails: %s\n", Z3_ast_to_string(Z, q)), fprintf(stderr, "   as %s\n", Z3_ast_to_string(Z, lia(q).t));
            }
            if (!refined) { why = round < gSolverOpts.fpRounds && now() < tEnd ? "opaque" : "rounds"; break; }
            gStats.fpRefine++;
        }
        liaPop();
    } catch (std::runtime_error const&) {
        r = Sat::Unknown;
        liaReset();
    }
    if (r == Sat::Unknown) {
        gStats.liaMiss++;
        if (getenv("VF_LIADEBUG")) fprintf(stderr, "lia miss: %s rounds=%u %.2fs\n", why, rounds, now() - t00);
    }
    return r;
}
static Sat oneSolve(std::vector<Z3_ast> const& pc, Val const& extra, ModelP* out, unsigned ms) {
    gStats.oneshot++;
    Z3_solver s;
    if (gSolverOpts.tactic.empty()) s = Z3_mk_solver(Z);
    else {
        // tactic list separated by ','
        std::stringstream ss(gSolverOpts.tactic);
        std::string t;
        Z3_tactic acc = nullptr;
        while (std::getline(ss, t, ',')) {
            Z3_tactic n = Z3_mk_tactic(Z, t.c_str());
            Z3_tactic_inc_ref(Z, n);
            acc = acc ? Z3_tactic_and_then(Z, acc, n) : n;
            Z3_tactic_inc_ref(Z, acc);
        }
        s = Z3_mk_solver_from_tactic(Z, acc);
    }
    Z3_solver_inc_ref(Z, s);
    setTimeout(s, ms);
    for (auto a : pc) Z3_solver_assert(Z, s, a);
    Z3_solver_assert(Z, s, toAst(extra));
    Sat r = Sat::Unknown;
    try {
        r = conv(Z3_solver_check(Z, s));
        if (r == Sat::Yes && out) *out = std::make_shared<Model>(Z3_solver_get_model(Z, s));
    } catch (std::runtime_error const&) { r = Sat::Unknown; }
    Z3_solver_dec_ref(Z, s);
    return r;
}
static void collect(Z3_ast a, std::set<Z3_ast>& seen, std::vector<Z3_ast>& consts, bool& ufs) {
    if (!seen.insert(a).second) return;
    if (Z3_get_ast_kind(Z, a) != Z3_APP_AST) return;
    Z3_app p = Z3_to_app(Z, a);
    unsigned n = Z3_get_app_num_args(Z, p);
    if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, p)) == Z3_OP_UNINTERPRETED) {
        if (n == 0) consts.push_back(a); else ufs = true;
    }
    for (unsigned i = 0; i < n; ++i) collect(Z3_get_app_arg(Z, p, i), seen, consts, ufs);
}
// Decide with an external solver process (SMT-LIB2 text); models are read back as constants.
static Sat extSolve(std::vector<Z3_ast> const& pc, Val const& extra, ModelP* out, unsigned ms) {
    if (gSolverOpts.ext.empty()) return Sat::Unknown;
    gStats.external++;
    Z3_solver s = Z3_mk_simple_solver(Z);
    Z3_solver_inc_ref(Z, s);
    for (auto a : pc) Z3_solver_assert(Z, s, a);
    Z3_solver_assert(Z, s, toAst(extra));
    std::string smt = Z3_solver_to_string(Z, s);
    Z3_solver_dec_ref(Z, s);
    std::set<Z3_ast> seen;
    std::vector<Z3_ast> consts;
    bool ufs = false;
    for (auto a : pc) collect(a, seen, consts, ufs);
    collect(toAst(extra), seen, consts, ufs);
    char base[64] = "/tmp/symex-XXXXXX";
    int fd = mkstemp(base);
    if (fd < 0) return Sat::Unknown;
    close(fd);
    std::string f = base;
    {
        std::ofstream o(f);
        o << "(set-logic ALL)\n(set-option :produce-models true)\n";
        // z3-only spelling of to_ieee_bv is not accepted elsewhere
        o << smt << "\n(check-sat)\n";
        if (!consts.empty()) {
            o << "(get-value (";
            for (auto c : consts) o << Z3_ast_to_string(Z, c) << "\n";
            o << "))\n";
        }
    }
    if (smt.find("fp.to_ieee_bv") != std::string::npos) { unlink(base); return Sat::Unknown; }
    std::string cmd = "timeout " + std::to_string(ms / 1000 + 1) + " " + gSolverOpts.ext + " " + f + " 2>&1";
    FILE* p = popen(cmd.c_str(), "r");
    std::string text;
    char buf[4096];
    size_t n;
    while (p && (n = fread(buf, 1, sizeof buf, p)) > 0) text.append(buf, n);
    if (p) pclose(p);
    unlink(base);
    Sat r = text.compare(0, 3, "sat") == 0 ? Sat::Yes : text.compare(0, 5, "unsat") == 0 ? Sat::No : Sat::Unknown;
    if (r == Sat::Yes && out) {
        Z3_model m = Z3_mk_model(Z);
        ModelP mp = std::make_shared<Model>(m);
        for (auto c : consts) {
            std::string name = Z3_ast_to_string(Z, c);
            size_t pos = text.find("(" + name + " ");
            if (pos == std::string::npos) return Sat::Unknown;
            pos += name.size() + 2;
            Z3_sort srt = Z3_get_sort(Z, c);
            Z3_ast v;
            if (Z3_get_sort_kind(Z, srt) == Z3_BOOL_SORT) v = text.compare(pos, 4, "true") == 0 ? Z3_mk_true(Z) : Z3_mk_false(Z);
            else {
                unsigned w = Z3_get_bv_sort_size(Z, srt);
                uint64_t u = 0;
                if (w > 64) return Sat::Unknown;
                if (text.compare(pos, 2, "#b") == 0) { for (size_t i = pos + 2; i < text.size() && (text[i] == '0' || text[i] == '1'); ++i) u = u * 2 + (text[i] - '0'); }
                else if (text.compare(pos, 2, "#x") == 0) u = strtoull(text.c_str() + pos + 2, nullptr, 16);
                else return Sat::Unknown;
                v = Z3_mk_unsigned_int64(Z, u, srt);
            }
            Z3_add_const_interp(Z, m, Z3_get_app_decl(Z, Z3_to_app(Z, c)), v);
        }
        if (ufs) return Sat::Unknown;  // no function interpretations
        for (auto a : pc) if (!mp->evalBool(Val(1, a))) return Sat::Unknown;
        if (!mp->evalBool(extra)) return Sat::Unknown;
        *out = mp;
    }
    return r;
}
Sat solve(std::vector<Z3_ast> const& pc, Val const& extra, ModelP* out, bool assertQuery, bool full) {
    if (!extra.sym() && !extra.c) return Sat::No;
    double t0 = now();
    gStats.queries++;
    Sat r = Sat::Unknown;
    if (gSolverOpts.lia && !(gStats.lia > 400 && gStats.liaMiss * 10 > gStats.lia * 9)) r = liaSolve(pc, extra, out);
    bool one = gSolverOpts.noInc || (assertQuery && gSolverOpts.oneshotFirst);
    if (r == Sat::Unknown && !one) r = incSolve(pc, extra, out);
    // portfolio with growing budgets, cut off at the deadline
    auto left = [&](unsigned ms) -> unsigned { double l = (gSolverOpts.deadline - now()) * 1000; return l < 50 ? 0 : l < ms ? (unsigned)l : ms; };
    unsigned oneMs = full ? gSolverOpts.oneMs : std::min(gSolverOpts.oneMs, gSolverOpts.branchMs);
    unsigned extMs = full ? gSolverOpts.extMs : 0;
    unsigned small = std::min(oneMs, 4000u), smallX = std::min(extMs, 8000u);
    if (r == Sat::Unknown && (one || gSolverOpts.incMs < small) && left(small)) r = oneSolve(pc, extra, out, left(small));
    if (r == Sat::Unknown && left(smallX)) r = extSolve(pc, extra, out, left(smallX));
    if (r == Sat::Unknown && oneMs > small && left(oneMs)) r = oneSolve(pc, extra, out, left(oneMs));
    if (r == Sat::Unknown && extMs > smallX && left(extMs)) r = extSolve(pc, extra, out, left(extMs));
    double dt = now() - t0;
    gStats.secs += dt;
    if (dt > gStats.maxSecs) gStats.maxSecs = dt;
    if (r == Sat::Yes) gStats.sat++; else if (r == Sat::No) gStats.unsat++; else gStats.unknown++;
    if (!gSolverOpts.dump.empty() && (dt * 1000 > gSolverOpts.dumpMs || r == Sat::Unknown)) {
        static int k = 0;
        Z3_solver s = Z3_mk_simple_solver(Z);
        Z3_solver_inc_ref(Z, s);
        for (auto a : pc) Z3_solver_assert(Z, s, a);
        Z3_solver_assert(Z, s, toAst(extra));
        std::ofstream o(gSolverOpts.dump + "/q" + std::to_string(getpid()) + "_" + std::to_string(k++) + ".smt2");
        o << "; " << dt << " s result " << (int)r << "\n(set-logic ALL)\n" << Z3_solver_to_string(Z, s) << "\n(check-sat)\n";
        Z3_solver_dec_ref(Z, s);
    }
    return r;
}
