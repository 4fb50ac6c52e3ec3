#include "expr.h"
#include <cassert>
#include <cfenv>

Z3_context Z;
bool gFpUF = false;

static void zerr(Z3_context c, Z3_error_code e) {
    throw std::runtime_error(std::string("z3: ") + Z3_get_error_msg(c, e));
}
void exprInit() {
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    Z = Z3_mk_context_rc(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(Z, zerr);
    Z3_set_ast_print_mode(Z, Z3_PRINT_SMTLIB2_COMPLIANT);
}
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(Z, a); return a; }

static Z3_sort bvs(uint32_t w) {
    static std::unordered_map<uint32_t, Z3_sort> m;
    auto& s = m[w];
    if (!s) { s = w == 1 ? Z3_mk_bool_sort(Z) : Z3_mk_bv_sort(Z, w); Z3_inc_ref(Z, Z3_sort_to_ast(Z, s)); }
    return s;
}
Z3_ast toAst(Val const& v) {
    if (v.a) return v.a;
    if (v.w == 1) return keep(v.c ? Z3_mk_true(Z) : Z3_mk_false(Z));
    static std::map<std::pair<uint32_t, u128>, Z3_ast> cache;
    auto& r = cache[{v.w, v.c}];
    if (!r) {
        if (v.w <= 64) r = keep(Z3_mk_unsigned_int64(Z, (uint64_t)v.c, bvs(v.w)));
        else {
            std::string t;
            u128 x = v.c;
            if (!x) t = "0";
            while (x) { t.insert(t.begin(), '0' + (int)(x % 10)); x /= 10; }
            r = keep(Z3_mk_numeral(Z, t.c_str(), bvs(v.w)));
        }
    }
    return r;
}
static std::unordered_map<Z3_ast, uint32_t> gSize;
uint32_t astSize(Z3_ast a) {
    auto it = gSize.find(a);
    if (it != gSize.end()) return it->second;
    uint32_t s = 1;
    if (Z3_get_ast_kind(Z, a) == Z3_APP_AST) {
        Z3_app p = Z3_to_app(Z, a);
        unsigned n = Z3_get_app_num_args(Z, p);
        for (unsigned i = 0; i < n && s < 100000; ++i) s += astSize(Z3_get_app_arg(Z, p, i));
        if (s > 100000) s = 100000;
    }
    keep(a);
    gSize[a] = s;
    return s;
}
Val fromAst(uint32_t w, Z3_ast a) {
    keep(a);
    static std::unordered_map<Z3_ast, Z3_ast> memo;
    Z3_ast& m = memo[a];
    if (!m) {
        m = astSize(a) < 200 && Z3_get_ast_kind(Z, a) != Z3_NUMERAL_AST ? keep(Z3_simplify(Z, a)) : a;
        memo[m] = m;
    }
    a = memo[a];
    if (w == 1) {
        Z3_lbool b = Z3_get_bool_value(Z, a);
        if (b == Z3_L_TRUE) return Val(1, (u128)1);
        if (b == Z3_L_FALSE) return Val(1, (u128)0);
        return Val(1, a);
    }
    if (Z3_get_ast_kind(Z, a) == Z3_NUMERAL_AST) {
        if (w <= 64) { uint64_t u; if (Z3_get_numeral_uint64(Z, a, &u)) return Val(w, (u128)u); }
        else {
            std::string s = Z3_get_numeral_string(Z, a);
            u128 r = 0;
            for (char ch : s) r = r * 10 + (ch - '0');
            return Val(w, r);
        }
    }
    return Val(w, a);
}
Val freshVar(const std::string& name, uint32_t w) {
    return Val(w, keep(Z3_mk_const(Z, Z3_mk_string_symbol(Z, name.c_str()), bvs(w))));
}
int (*gKnown)(Z3_ast) = nullptr;
static int knownB(Val const& c) {
    if (!c.sym()) return (int)c.c;
    return gKnown ? gKnown(c.a) : -1;
}
// number of constant leaves, 0 when a is not such a tree
static unsigned ciLeaves(Z3_ast a) {
    static std::unordered_map<Z3_ast, unsigned> memo;
    auto it = memo.find(a);
    if (it != memo.end()) return it->second;
    unsigned r = 0;
    if (Z3_get_ast_kind(Z, a) == Z3_NUMERAL_AST) return 1;
    if (Z3_get_ast_kind(Z, a) == Z3_APP_AST) {
        Z3_app p = Z3_to_app(Z, a);
        if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, p)) == Z3_OP_ITE) {
            unsigned x = ciLeaves(Z3_get_app_arg(Z, p, 1)), y = x ? ciLeaves(Z3_get_app_arg(Z, p, 2)) : 0;
            if (x && y && x + y <= 8) r = x + y;
        }
    }
    keep(a);
    memo[a] = r;
    return r;
}
bool isCI(Val const& v) { return v.sym() && v.w > 1 && ciLeaves(v.a) > 1; }
static Val rawVal(uint32_t w, Z3_ast a) {
    keep(a);
    if (Z3_get_ast_kind(Z, a) == Z3_NUMERAL_AST) return fromAst(w, a);
    return Val(w, a);
}
void ciSplit(Val const& v, Val& c, Val& x, Val& y) {
    Z3_app p = Z3_to_app(Z, v.a);
    c = Val(1, keep(Z3_get_app_arg(Z, p, 0)));
    x = rawVal(v.w, Z3_get_app_arg(Z, p, 1));
    y = rawVal(v.w, Z3_get_app_arg(Z, p, 2));
}
Val ciReduce(Val const& v0) {
    Val v = v0;
    while (isCI(v)) {
        Val c, x, y;
        ciSplit(v, c, x, y);
        int k = knownB(c);
        if (k < 0) break;
        v = k ? x : y;
    }
    return v;
}
template <class F> static Val ciMap1(Val const& x, F f) {
    Val c, a, b;
    if (!isCI(x)) return f(x);
    ciSplit(x, c, a, b);
    int k = knownB(c);
    if (k >= 0) return ciMap1(k ? a : b, f);
    return ite(c, ciMap1(a, f), ciMap1(b, f));
}
template <class F> static Val ciMap2(Val const& x, Val const& y, F f) {
    if (isCI(x)) {
        Val c, a, b;
        ciSplit(x, c, a, b);
        int k = knownB(c);
        if (k >= 0) return ciMap2(k ? a : b, y, f);
        if (isCI(y)) {
            Val d, p, q;
            ciSplit(y, d, p, q);
            if (d.a == c.a) return ite(c, ciMap2(a, p, f), ciMap2(b, q, f));
        }
        return ite(c, ciMap2(a, y, f), ciMap2(b, y, f));
    }
    return ciMap1(y, [&](Val const& v) { return f(x, v); });
}
static bool ciPair(Val const& x, Val const& y) {
    bool cx = isCI(x), cy = isCI(y);
    if (!cx && !cy) return false;
    if (cx && cy) return ciLeaves(x.a) * ciLeaves(y.a) <= 8 || Z3_get_app_arg(Z, Z3_to_app(Z, x.a), 0) == Z3_get_app_arg(Z, Z3_to_app(Z, y.a), 0);
    return cx ? !y.sym() : !x.sym();
}
Val notB(Val const& x) {
    if (!x.sym()) return Val(1, (u128)!x.c);
    return fromAst(1, Z3_mk_not(Z, x.a));
}
Val andB(Val const& x, Val const& y) {
    if (!x.sym()) return x.c ? y : x;
    if (!y.sym()) return y.c ? x : y;
    if (x.a == y.a) return x;
    Z3_ast v[2] = {x.a, y.a};
    return fromAst(1, Z3_mk_and(Z, 2, v));
}
Val orB(Val const& x, Val const& y) {
    if (!x.sym()) return x.c ? x : y;
    if (!y.sym()) return y.c ? y : x;
    if (x.a == y.a) return x;
    Z3_ast v[2] = {x.a, y.a};
    return fromAst(1, Z3_mk_or(Z, 2, v));
}
Val bin(Op op, Val const& x, Val const& y) {
    uint32_t w = x.w;
    if (x.w != y.w) throw std::runtime_error("bin width");
    if (!x.sym() && !y.sym()) {
        u128 a = x.c, b = y.c, r = 0;
        switch (op) {
            case Op::Add: r = a + b; break;
            case Op::Sub: r = a - b; break;
            case Op::Mul: r = a * b; break;
            case Op::UDiv: r = b ? a / b : maskOf(w); break;
            case Op::URem: r = b ? a % b : a; break;
            case Op::SDiv: { i128 p = sext128(a, w), q = sext128(b, w); r = q ? (q == -1 ? (u128)0 - (u128)p : (u128)(p / q)) : 0; break; }
            case Op::SRem: { i128 p = sext128(a, w), q = sext128(b, w); r = q ? (q == -1 ? 0 : (u128)(p % q)) : (u128)p; break; }
            case Op::Shl: r = b >= w ? 0 : a << (unsigned)b; break;
            case Op::LShr: r = b >= w ? 0 : a >> (unsigned)b; break;
            case Op::AShr: r = (u128)(sext128(a, w) >> (unsigned)(b >= w ? w - 1 : b)); break;
            case Op::And: r = a & b; break;
            case Op::Or: r = a | b; break;
            case Op::Xor: r = a ^ b; break;
        }
        return Val(w, r);
    }
    if (ciPair(x, y)) return ciMap2(x, y, [&](Val const& p, Val const& q) { return bin(op, p, q); });
    if (w == 1) {
        switch (op) {
            case Op::And: case Op::Mul: return andB(x, y);
            case Op::Or: return orB(x, y);
            case Op::Xor: case Op::Add: case Op::Sub:
                if (!y.sym()) return y.c ? notB(x) : x;
                if (!x.sym()) return x.c ? notB(y) : y;
                return fromAst(1, Z3_mk_xor(Z, x.a, y.a));
            default: throw Unsupported("i1 op");
        }
    }
    if (!y.sym()) {
        u128 c = y.c;
        switch (op) {
            case Op::Add: case Op::Sub: case Op::Or: case Op::Xor: case Op::Shl: case Op::LShr: case Op::AShr:
                if (c == 0) return x;
                break;
            case Op::And: if (c == 0) return y; if (c == maskOf(w)) return x; break;
            case Op::Mul: if (c == 0) return y; if (c == 1) return x; break;
            default: break;
        }
    }
    if (!x.sym()) {
        u128 c = x.c;
        switch (op) {
            case Op::Add: case Op::Or: case Op::Xor: if (c == 0) return y; break;
            case Op::And: if (c == 0) return x; if (c == maskOf(w)) return y; break;
            case Op::Mul: if (c == 0) return x; if (c == 1) return y; break;
            case Op::Shl: case Op::LShr: case Op::AShr: if (c == 0) return x; break;
            default: break;
        }
    }
    Z3_ast a = toAst(x), b = toAst(y), r;
    switch (op) {
        case Op::Add: r = Z3_mk_bvadd(Z, a, b); break;
        case Op::Sub: if (a == b) return Val(w, (u128)0); r = Z3_mk_bvsub(Z, a, b); break;
        case Op::Mul: r = Z3_mk_bvmul(Z, a, b); break;
        case Op::UDiv: r = Z3_mk_bvudiv(Z, a, b); break;
        case Op::SDiv: r = Z3_mk_bvsdiv(Z, a, b); break;
        case Op::URem: r = Z3_mk_bvurem(Z, a, b); break;
        case Op::SRem: r = Z3_mk_bvsrem(Z, a, b); break;
        case Op::Shl: r = Z3_mk_bvshl(Z, a, b); break;
        case Op::LShr: r = Z3_mk_bvlshr(Z, a, b); break;
        case Op::AShr: r = Z3_mk_bvashr(Z, a, b); break;
        case Op::And: if (a == b) return x; r = Z3_mk_bvand(Z, a, b); break;
        case Op::Or: if (a == b) return x; r = Z3_mk_bvor(Z, a, b); break;
        case Op::Xor: if (a == b) return Val(w, (u128)0); r = Z3_mk_bvxor(Z, a, b); break;
        default: throw std::runtime_error("op");
    }
    return fromAst(w, r);
}
Val cmp(Cmp p, Val const& x, Val const& y) {
    uint32_t w = x.w;
    if (x.w != y.w) throw std::runtime_error("cmp width");
    if (!x.sym() && !y.sym()) {
        u128 a = x.c, b = y.c; i128 s = sext128(a, w), t = sext128(b, w);
        bool r = false;
        switch (p) {
            case Cmp::EQ: r = a == b; break; case Cmp::NE: r = a != b; break;
            case Cmp::UGT: r = a > b; break; case Cmp::UGE: r = a >= b; break;
            case Cmp::ULT: r = a < b; break; case Cmp::ULE: r = a <= b; break;
            case Cmp::SGT: r = s > t; break; case Cmp::SGE: r = s >= t; break;
            case Cmp::SLT: r = s < t; break; case Cmp::SLE: r = s <= t; break;
        }
        return Val(1, (u128)r);
    }
    if (ciPair(x, y)) return ciMap2(x, y, [&](Val const& a, Val const& b) { return cmp(p, a, b); });
    if (w == 1) {
        Val e;
        switch (p) {
            case Cmp::EQ: return notB(bin(Op::Xor, x, y));
            case Cmp::NE: return bin(Op::Xor, x, y);
            case Cmp::UGT: return andB(x, notB(y));
            case Cmp::ULT: return andB(notB(x), y);
            case Cmp::UGE: return orB(x, notB(y));
            case Cmp::ULE: return orB(notB(x), y);
            default: throw Unsupported("i1 signed cmp");
        }
    }
    Z3_ast a = toAst(x), b = toAst(y);
    if (a == b) return Val(1, (u128)(p == Cmp::EQ || p == Cmp::UGE || p == Cmp::ULE || p == Cmp::SGE || p == Cmp::SLE));
    Z3_ast r;
    switch (p) {
        case Cmp::EQ: r = Z3_mk_eq(Z, a, b); break;
        case Cmp::NE: r = Z3_mk_not(Z, keep(Z3_mk_eq(Z, a, b))); break;
        case Cmp::UGT: r = Z3_mk_bvugt(Z, a, b); break;
        case Cmp::UGE: r = Z3_mk_bvuge(Z, a, b); break;
        case Cmp::ULT: r = Z3_mk_bvult(Z, a, b); break;
        case Cmp::ULE: r = Z3_mk_bvule(Z, a, b); break;
        case Cmp::SGT: r = Z3_mk_bvsgt(Z, a, b); break;
        case Cmp::SGE: r = Z3_mk_bvsge(Z, a, b); break;
        case Cmp::SLT: r = Z3_mk_bvslt(Z, a, b); break;
        default: r = Z3_mk_bvsle(Z, a, b); break;
    }
    return fromAst(1, r);
}
static std::unordered_map<Z3_ast, Z3_ast> gFp;  // bit pattern term -> FP term it came from
Val ite(Val const& c, Val const& x, Val const& y) {
    if (!c.sym()) return c.c ? x : y;
    if (int k = knownB(c); k >= 0) return k ? x : y;
    if (!x.sym() && !y.sym() && x.c == y.c) return x;
    if (x.sym() && x.a == y.a) return x;
    if (x.w == 1) {
        if (!x.sym() && !y.sym()) return x.c ? c : notB(c);
        if (!x.sym()) return x.c ? orB(c, y) : andB(notB(c), y);
        if (!y.sym()) return y.c ? orB(notB(c), x) : andB(c, x);
    }
    return fromAst(x.w, Z3_mk_ite(Z, c.a, toAst(x), toAst(y)));
}
Val zext(Val const& x, uint32_t w) {
    if (x.w == w) return x;
    if (isCI(x)) return ciMap1(x, [&](Val const& v) { return zext(v, w); });
    if (!x.sym()) return Val(w, x.c);
    if (x.w == 1) return fromAst(w, Z3_mk_ite(Z, x.a, toAst(Val(w, (u128)1)), toAst(Val(w, (u128)0))));
    return fromAst(w, Z3_mk_zero_ext(Z, w - x.w, x.a));
}
Val sext(Val const& x, uint32_t w) {
    if (x.w == w) return x;
    if (isCI(x)) return ciMap1(x, [&](Val const& v) { return sext(v, w); });
    if (!x.sym()) return Val(w, (u128)sext128(x.c, x.w));
    if (x.w == 1) return fromAst(w, Z3_mk_ite(Z, x.a, toAst(Val(w, ~(u128)0)), toAst(Val(w, (u128)0))));
    return fromAst(w, Z3_mk_sign_ext(Z, w - x.w, x.a));
}
Val extract(Val const& x, uint32_t hi, uint32_t lo) {
    if (hi == x.w - 1 && lo == 0) return x;
    uint32_t w = hi - lo + 1;
    if (isCI(x)) return ciMap1(x, [&](Val const& v) { return extract(v, hi, lo); });
    if (!x.sym()) return Val(w, x.c >> lo);
    if (w == 1) {
        // bit as Bool
        Z3_ast e = keep(Z3_mk_extract(Z, hi, lo, x.a));
        Z3_ast one = keep(Z3_mk_unsigned_int64(Z, 1, Z3_get_sort(Z, e)));
        return fromAst(1, Z3_mk_eq(Z, e, one));
    }
    return fromAst(w, Z3_mk_extract(Z, hi, lo, x.a));
}
static Z3_ast asBV1(Val const& v) {  // BV of width >= 1 even for Bool
    if (v.w != 1) return toAst(v);
    Z3_sort s = Z3_mk_bv_sort(Z, 1);
    Z3_inc_ref(Z, Z3_sort_to_ast(Z, s));
    Z3_ast one = keep(Z3_mk_unsigned_int64(Z, 1, s)), zero = keep(Z3_mk_unsigned_int64(Z, 0, s));
    if (!v.sym()) return v.c ? one : zero;
    return keep(Z3_mk_ite(Z, v.a, one, zero));
}
Val concat(Val const& hi, Val const& lo) {
    if (hi.w + lo.w <= 128 && ciPair(hi, lo)) return ciMap2(hi, lo, [&](Val const& a, Val const& b) { return concat(a, b); });
    if (!hi.sym() && !lo.sym()) return Val(hi.w + lo.w, (hi.c << lo.w) | lo.c);
    return fromAst(hi.w + lo.w, Z3_mk_concat(Z, asBV1(hi), asBV1(lo)));
}

// ---------------------------------------------------------------- floating point
static uint32_t ebits(uint32_t w) { return w == 64 ? 11 : 8; }
static uint32_t mbits(uint32_t w) { return w == 64 ? 52 : 23; }
static Z3_sort fps(uint32_t w) {
    static Z3_sort s64 = nullptr, s32 = nullptr;
    Z3_sort& s = w == 64 ? s64 : s32;
    if (!s) { s = w == 64 ? Z3_mk_fpa_sort_double(Z) : Z3_mk_fpa_sort_single(Z); Z3_inc_ref(Z, Z3_sort_to_ast(Z, s)); }
    return s;
}
static Z3_ast rne() { static Z3_ast r = keep(Z3_mk_fpa_rne(Z)); return r; }
static Z3_ast fpOf(Val const& x) {
    Z3_ast a = toAst(x);
    auto it = gFp.find(a);
    if (it != gFp.end()) return it->second;
    Z3_ast f = keep(Z3_mk_fpa_to_fp_bv(Z, a, fps(x.w)));
    gFp[a] = f;
    return f;
}
Z3_ast fpTerm(Val const& x) { return fpOf(x); }
std::unordered_map<Z3_ast, FpDef> gFpDefs;
static std::unordered_map<Z3_ast, Val> gNan;
static Val ofFp(uint32_t w, Z3_ast f, int kind = -1, Val const& x = Val(), Val const& y = Val()) {
    keep(f);
    f = keep(Z3_simplify(Z, f));
    Z3_ast a = keep(Z3_mk_fpa_to_ieee_bv(Z, f));
    Val v = fromAst(w, a);
    if (!v.sym()) return v;
    // the bits of a NaN result are unspecified in SMT-LIB: use the hardware's default NaN
    Val nan = fromAst(1, Z3_mk_fpa_is_nan(Z, f));
    v = ite(nan, Val(w, (maskOf(ebits(w) + 2) << (mbits(w) - 1))), v);
    if (v.sym()) {
        gFp[v.a] = f;
        gNan[v.a] = nan;
        if (kind >= 0 && w == 64) gFpDefs[f] = FpDef{kind, x, y, v, nan, f};
    }
    return v;
}
static bool nanBits(Val const& x) { return (x.c & maskOf(x.w - 1)) > (maskOf(ebits(x.w)) << mbits(x.w)); }
Val fpIsNan(Val const& x) {
    if (!x.sym()) return Val(1, (u128)nanBits(x));
    auto it = gNan.find(x.a);
    if (it != gNan.end()) return it->second;
    if (isCI(x)) return ciMap1(x, [](Val const& v) { return fpIsNan(v); });
    return fromAst(1, Z3_mk_fpa_is_nan(Z, fpOf(x)));
}
static double hostD(Val const& v) {
    if (v.w == 64) return asDouble(v);
    float f; uint32_t u = (uint32_t)v.c; memcpy(&f, &u, 4); return f;
}
Val fpCmp(unsigned p, Val const& x, Val const& y) {
    // LLVM predicate: bit0 eq, bit1 gt, bit2 lt, bit3 unordered
    if (p == 0) return Val(1, (u128)0);
    if (p == 15) return Val(1, (u128)1);
    if (!x.sym() && !y.sym()) {
        double a = hostD(x), b = hostD(y);
        bool r = (a == b && (p & 1)) || (a > b && (p & 2)) || (a < b && (p & 4)) || ((a != a || b != b) && (p & 8));
        return Val(1, (u128)r);
    }
    if (ciPair(x, y)) return ciMap2(x, y, [&](Val const& a, Val const& b) { return fpCmp(p, a, b); });
    unsigned o = p & 7;
    bool u = p & 8;
    // unordered-or-r is the negation of the ordered complement
    if (u && o) return notB(fpCmp(7 & ~o, x, y));
    if (u) return orB(fpIsNan(x), fpIsNan(y));
    if (o == 7) return notB(orB(fpIsNan(x), fpIsNan(y)));
    if (o == 6) return orB(fpCmp(4, x, y), fpCmp(2, x, y));
    Z3_ast a = fpOf(x), b = fpOf(y);
    Z3_ast r = o == 1 ? Z3_mk_fpa_eq(Z, a, b) : o == 4 ? Z3_mk_fpa_lt(Z, a, b) : o == 2 ? Z3_mk_fpa_lt(Z, b, a)
             : o == 5 ? Z3_mk_fpa_leq(Z, a, b) : Z3_mk_fpa_leq(Z, b, a);
    return fromAst(1, r);
}
Val uf(const std::string& name, std::vector<Val> const& args, uint32_t w) {
    static std::unordered_map<std::string, Z3_func_decl> decls;
    auto& d = decls[name];
    std::vector<Z3_ast> as;
    if (!d) {
        std::vector<Z3_sort> ss;
        for (auto& a : args) ss.push_back(bvs(a.w));
        d = Z3_mk_func_decl(Z, Z3_mk_string_symbol(Z, name.c_str()), ss.size(), ss.data(), bvs(w));
        Z3_inc_ref(Z, Z3_func_decl_to_ast(Z, d));
    }
    for (auto& a : args) as.push_back(toAst(a));
    return fromAst(w, Z3_mk_app(Z, d, as.size(), as.data()));
}
static Val mkHost(uint32_t w, double d) {
    if (w == 64) return ofDouble(d);
    float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return Val(32, (u128)u);
}
Val fpBin(FOp op, Val const& x, Val const& y) {
    if (!x.sym() && !y.sym()) {
        if (x.w == 64) {
            volatile double a = hostD(x), b = hostD(y), r = 0;
            switch (op) { case FOp::Add: r = a + b; break; case FOp::Sub: r = a - b; break;
                          case FOp::Mul: r = a * b; break; case FOp::Div: r = a / b; break; }
            return ofDouble(r);
        } else {
            volatile float a = hostD(x), b = hostD(y), r = 0;
            switch (op) { case FOp::Add: r = a + b; break; case FOp::Sub: r = a - b; break;
                          case FOp::Mul: r = a * b; break; case FOp::Div: r = a / b; break; }
            return mkHost(32, r);
        }
    }
    // multiplication / division by +-1 (exact; NaN payloads aside)
    if ((op == FOp::Mul || op == FOp::Div) && !y.sym() && hostD(y) == 1.0) return x;
    if (op == FOp::Mul && !x.sym() && hostD(x) == 1.0) return y;
    if ((op == FOp::Mul || op == FOp::Div) && !y.sym() && hostD(y) == -1.0) return fpNeg(x);
    if (op == FOp::Mul && !x.sym() && hostD(x) == -1.0) return fpNeg(y);
    if (gFpUF) {
        Val p = x, q = y;
        static const char* n[] = {"fadd", "fsub", "fmul", "fdiv"};
        if ((op == FOp::Add || op == FOp::Mul) && toAst(q) < toAst(p)) std::swap(p, q);
        return uf(n[(int)op] + std::to_string(x.w), {p, q}, x.w);
    }
    Z3_ast a = fpOf(x), b = fpOf(y), r;
    switch (op) {
        case FOp::Add: r = Z3_mk_fpa_add(Z, rne(), a, b); break;
        case FOp::Sub: r = Z3_mk_fpa_sub(Z, rne(), a, b); break;
        case FOp::Mul: r = Z3_mk_fpa_mul(Z, rne(), a, b); break;
        default: r = Z3_mk_fpa_div(Z, rne(), a, b); break;
    }
    return ofFp(x.w, r, (int)op, x, y);
}
Val fpSqrt(Val const& x) {
    if (!x.sym()) return mkHost(x.w, std::sqrt(hostD(x)));
    if (gFpUF) return uf("fsqrt" + std::to_string(x.w), {x}, x.w);
    return ofFp(x.w, Z3_mk_fpa_sqrt(Z, rne(), fpOf(x)), FK_Sqrt, x);
}
Val fpFma(Val const& x, Val const& y, Val const& z) {
    if (!x.sym() && !y.sym() && !z.sym()) return mkHost(x.w, std::fma(hostD(x), hostD(y), hostD(z)));
    if (gFpUF) return uf("ffma" + std::to_string(x.w), {x, y, z}, x.w);
    return ofFp(x.w, Z3_mk_fpa_fma(Z, rne(), fpOf(x), fpOf(y), fpOf(z)));
}
Val fpRound(Val const& x, int mode) {
    if (!x.sym()) {
        double d = hostD(x);
        switch (mode) { case 0: d = std::floor(d); break; case 1: d = std::ceil(d); break; case 2: d = std::trunc(d); break;
                        case 3: d = std::nearbyint(d); break; default: d = std::round(d); }
        return mkHost(x.w, d);
    }
    Z3_ast rm = keep(mode == 0 ? Z3_mk_fpa_rtn(Z) : mode == 1 ? Z3_mk_fpa_rtp(Z) : mode == 2 ? Z3_mk_fpa_rtz(Z)
                     : mode == 3 ? Z3_mk_fpa_rne(Z) : Z3_mk_fpa_rna(Z));
    if (gFpUF) return uf("fround" + std::to_string(mode) + "_" + std::to_string(x.w), {x}, x.w);
    return ofFp(x.w, Z3_mk_fpa_round_to_integral(Z, rm, fpOf(x)), FK_Floor + mode, x);
}
Val fpNeg(Val const& x) {
    Val r = bin(Op::Xor, x, Val(x.w, (u128)1 << (x.w - 1)));
    if (r.sym() && x.sym() && !isCI(x) && !gFp.count(r.a)) gFp[r.a] = keep(Z3_mk_fpa_neg(Z, fpOf(x)));
    return r;
}
Val fpAbs(Val const& x) {
    Val r = bin(Op::And, x, Val(x.w, maskOf(x.w - 1)));
    if (r.sym() && x.sym() && !isCI(x) && !gFp.count(r.a)) gFp[r.a] = keep(Z3_mk_fpa_abs(Z, fpOf(x)));
    return r;
}
Val fpConv(Val const& x, uint32_t w) {
    if (!x.sym()) return mkHost(w, hostD(x));
    return ofFp(w, Z3_mk_fpa_to_fp_float(Z, rne(), fpOf(x), fps(w)));
}
Val fpToIntOk(Val const& x, uint32_t w, bool sgn) {
    // trunc(x) representable
    double lo = sgn ? -std::ldexp(1.0, w - 1) : 0.0, hi = sgn ? std::ldexp(1.0, w - 1) : std::ldexp(1.0, w);
    Val xd = x.w == 64 ? x : fpConv(x, 64);
    Val up = fpCmp(4, xd, ofDouble(hi));
    Val dn;
    if (w >= 53) dn = sgn ? fpCmp(3, xd, ofDouble(lo)) : fpCmp(2, xd, ofDouble(-1.0));
    else dn = fpCmp(2, xd, ofDouble(lo - 1.0));
    return andB(up, dn);
}
Val fpToInt(Val const& x, uint32_t w, bool sgn) {
    if (!x.sym()) {
        double d = hostD(x);
        if (sgn) { if (!(d >= -9.3e18 && d < 9.3e18)) return Val(w, (u128)1 << (w - 1)); 
                   if (d >= 9223372036854775808.0 || d < -9223372036854775808.0) return Val(w, (u128)1 << (w - 1));
                   return Val(w, (u128)(i128)(int64_t)d); }
        if (!(d > -1 && d < 18446744073709551616.0)) return Val(w, maskOf(w));
        return Val(w, (u128)(uint64_t)d);
    }
    // out of range: x86 "integer indefinite"
    Val ok = fpToIntOk(x, w, sgn);
    Z3_ast rtz = keep(Z3_mk_fpa_rtz(Z));
    Z3_ast r = keep(sgn ? Z3_mk_fpa_to_sbv(Z, rtz, fpOf(x), w) : Z3_mk_fpa_to_ubv(Z, rtz, fpOf(x), w));
    return ite(ok, fromAst(w, r), Val(w, (u128)1 << (w - 1)));
}
Val intToFp(Val const& x, uint32_t w, bool sgn) {
    if (!x.sym()) {
        double d = sgn ? (double)x.s64() : (double)(uint64_t)x.c;
        if (w == 32) { float f = sgn ? (float)x.s64() : (float)(uint64_t)x.c; d = f; }
        return mkHost(w, d);
    }
    if (x.w == 1) return ite(x, mkHost(w, sgn ? -1.0 : 1.0), mkHost(w, 0.0));
    return ofFp(w, sgn ? Z3_mk_fpa_to_fp_signed(Z, rne(), x.a, fps(w)) : Z3_mk_fpa_to_fp_unsigned(Z, rne(), x.a, fps(w)), sgn ? FK_SI : FK_UI, x);
}
