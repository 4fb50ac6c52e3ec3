// Symbolic executor for LLVM IR: runs a harness entry point over symbolic inputs, forks on
// feasible branches, and asks the SMT solver for every assertion, memory access and UB check.
#include "solver.h"
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/SmallVector.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <cmath>
#include <deque>
#include <fstream>
#include <iostream>
#include <random>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>

using namespace llvm;

struct RV {
    SmallVector<Val, 1> v;
    RV() {}
    RV(Val const& x) { v.push_back(x); }
    Val const& s() const { if (v.size() != 1) throw Unsupported("scalar expected"); return v[0]; }
};
enum : uint8_t { B_CONC = 0, B_SYM = 1, B_UNDEF = 2 };
struct Byte { Z3_ast a = nullptr; uint8_t k = 0; uint8_t kind = B_UNDEF; uint8_t w = 0; /* bytes in a */ };
struct Object {
    uint64_t base = 0, size = 0;
    std::vector<Byte> b;
    bool ro = false, heap = false, stack = false;
    std::string name;
};
using ObjP = std::shared_ptr<Object>;
struct FnInfo { DenseMap<const Value*, unsigned> slot; unsigned n = 0; };
struct Frame {
    Function* f = nullptr;
    FnInfo* info = nullptr;
    BasicBlock *bb = nullptr, *prev = nullptr;
    BasicBlock::iterator ip;
    std::vector<RV> regs;
    std::vector<uint64_t> allocas;
    CallBase* call = nullptr;  // instruction in the caller
};
struct Input { std::string name; Val v; };
struct State {
    std::vector<Frame> st;
    std::map<uint64_t, ObjP> mem;       // overlay: heap, stack, touched mutable globals
    std::vector<Z3_ast> pc;
    std::unordered_map<Z3_ast, bool> known;   // literals fixed by pc
    ModelP model;
    std::vector<Input> inputs;
    std::vector<Val> obs;
    std::vector<std::string> reached;
    uint64_t nextAddr = 0x100000000ull;
    uint64_t steps = 0, asserts = 0;
    unsigned undefs = 0;
    uint64_t excObj = 0, excType = 0;   // in flight / landing
    std::vector<std::pair<uint64_t, uint64_t>> caught;
    uint64_t forks = 0;
    std::vector<std::pair<uint64_t,bool>> trace; // unused unless debugging
};
using StateP = std::unique_ptr<State>;

struct PathEnd {};                        // path finished (infeasible assumption, violation, ...)
struct Violation { std::string kind, msg, where; std::vector<std::pair<std::string, std::string>> inputs; };

// ---------------------------------------------------------------- options and results
static uint64_t oMaxSteps = 3000000, oMaxViol = 1, oSamples = 6;
static double oTime = 600;
static int oJobs = 1;
static bool oOverflow = true, oTrace = false;
static std::string oOut, oEntry;
static unsigned oSeed = 1;
static uint64_t oMemMB = 6000;

struct Results {
    uint64_t paths = 0, steps = 0, forks = 0, asserts = 0, assertQueries = 0, undecided = 0, stepLimit = 0, killed = 0, checks = 0, bothWays = 0;
    std::set<std::string> reached, functions, stubs;
    std::map<std::string, uint64_t> assertIds;
    std::vector<Violation> viol;
    std::vector<std::string> samples;   // JSON objects
    std::vector<std::string> unsupported, undecidedWhere;
    bool timeout = false;
};
static Results R;
static std::atomic<uint64_t>* gShared = nullptr;  // [0] next work index, [1] violations, [2] idle count

static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::map<uint64_t, ObjP> gGlobals;              // shared initial memory
static DenseMap<const Value*, uint64_t> gGlobalAddr;
static DenseMap<const Function*, FnInfo*> gFn;
static std::map<uint64_t, Function*> gFnByAddr;
static DenseMap<const Constant*, RV> gConst;
static std::deque<StateP> work;
static State* S = nullptr;
static std::mt19937 rng;
static double tStart;

static double now() {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}
static std::string jstr(std::string const& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static std::string hex(u128 v) {
    char b[64];
    if (v >> 64) snprintf(b, 64, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v);
    else snprintf(b, 64, "0x%llx", (unsigned long long)v);
    return b;
}

// ---------------------------------------------------------------- type helpers
static uint32_t bitsOf(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    std::string s; raw_string_ostream o(s); t->print(o);
    throw Unsupported("type " + o.str());
}
static void flat(Type* t, SmallVectorImpl<Type*>& out) {
    if (auto* s = dyn_cast<StructType>(t)) { for (Type* e : s->elements()) flat(e, out); }
    else if (auto* a = dyn_cast<ArrayType>(t)) { for (uint64_t i = 0; i < a->getNumElements(); ++i) flat(a->getElementType(), out); }
    else if (auto* v = dyn_cast<FixedVectorType>(t)) { for (unsigned i = 0; i < v->getNumElements(); ++i) out.push_back(v->getElementType()); }
    else out.push_back(t);
}
static unsigned flatCount(Type* t) { SmallVector<Type*, 8> o; flat(t, o); return o.size(); }
static void flatOff(Type* t, uint64_t base, SmallVectorImpl<std::pair<uint64_t, Type*>>& out) {
    if (auto* s = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); ++i) flatOff(s->getElementType(i), base + sl->getElementOffset(i), out);
    } else if (auto* a = dyn_cast<ArrayType>(t)) {
        uint64_t sz = DL->getTypeAllocSize(a->getElementType());
        for (uint64_t i = 0; i < a->getNumElements(); ++i) flatOff(a->getElementType(), base + i * sz, out);
    } else if (auto* v = dyn_cast<FixedVectorType>(t)) {
        uint64_t bw = bitsOf(v->getElementType());
        if (bw % 8) throw Unsupported("vector of sub-byte in memory");
        for (unsigned i = 0; i < v->getNumElements(); ++i) out.push_back({base + i * bw / 8, v->getElementType()});
    } else out.push_back({base, t});
}

// ---------------------------------------------------------------- memory bytes
static void putBytes(Object& o, uint64_t off, Val const& v0) {
    Val v = v0;
    if (v.w == 1 || v.w % 8) v = zext(v, (v.w + 7) / 8 * 8);
    unsigned n = v.w / 8;
    for (unsigned i = 0; i < n; ++i) {
        Byte& b = o.b[off + i];
        if (v.sym()) { b.a = v.a; b.k = i; b.kind = B_SYM; b.w = n; }
        else { b.a = nullptr; b.k = (uint8_t)(v.c >> (8 * i)); b.kind = B_CONC; }
    }
}
static Val byteVal(Byte const& b, State* s) {
    if (b.kind == B_CONC) return Val(8, (u128)b.k);
    if (b.kind == B_SYM) return extract(Val(b.w * 8, b.a), b.k * 8 + 7, b.k * 8);
    return freshVar("undef_" + std::to_string(s ? s->undefs++ : 0), 8);
}
static Val getBytes(Object const& o, uint64_t off, uint32_t w, State* s) {
    unsigned n = (w + 7) / 8;
    bool conc = true, undef = true;
    for (unsigned i = 0; i < n; ++i) { if (o.b[off + i].kind != B_CONC) conc = false; if (o.b[off + i].kind != B_UNDEF) undef = false; }
    if (conc) {
        u128 r = 0;
        for (unsigned i = 0; i < n; ++i) r |= (u128)o.b[off + i].k << (8 * i);
        return Val(w, r);
    }
    if (undef) return freshVar("undef_" + std::to_string(s->undefs++), w);
    Byte const& f = o.b[off];
    if (f.kind == B_SYM) {
        bool same = true;
        for (unsigned i = 0; i < n; ++i) {
            Byte const& b = o.b[off + i];
            if (b.kind != B_SYM || b.a != f.a || b.k != f.k + i) { same = false; break; }
        }
        if (same) {
            Val whole(f.w * 8, f.a);
            Val r = (f.k == 0 && f.w == n) ? whole : extract(whole, (f.k + n) * 8 - 1, f.k * 8);
            return w % 8 ? trunc(r, w) : r;
        }
    }
    // group runs
    Val acc;
    bool have = false;
    for (unsigned i = 0; i < n;) {
        Val piece;
        Byte const& b = o.b[off + i];
        unsigned j = i + 1;
        if (b.kind == B_SYM) {
            while (j < n && o.b[off + j].kind == B_SYM && o.b[off + j].a == b.a && o.b[off + j].k == b.k + (j - i)) ++j;
            piece = extract(Val(b.w * 8, b.a), (b.k + (j - i)) * 8 - 1, b.k * 8);
        } else if (b.kind == B_CONC) {
            u128 r = b.k;
            while (j < n && o.b[off + j].kind == B_CONC) { r |= (u128)o.b[off + j].k << (8 * (j - i)); ++j; }
            piece = Val((j - i) * 8, r);
        } else piece = byteVal(b, s);
        acc = have ? concat(piece, acc) : piece;
        have = true;
        i = j;
    }
    return w % 8 ? trunc(acc, w) : acc;
}

// ---------------------------------------------------------------- path conditions
static std::string whereAmI() {
    std::string r;
    if (!S) return r;
    unsigned n = 0;
    for (size_t i = S->st.size(); i-- > 0 && n < 6; ++n) {
        Frame& f = S->st[i];
        r += (n ? " < " : "") + demangle(f.f->getName().str());
        if (f.ip != f.bb->end()) {
            if (DebugLoc d = f.ip->getDebugLoc()) {
                r += "@" + std::string(cast<DIScope>(d.getScope())->getFilename().rsplit('/').second.empty() ? cast<DIScope>(d.getScope())->getFilename() : cast<DIScope>(d.getScope())->getFilename().rsplit('/').second) + ":" + std::to_string(d.getLine());
            }
        }
    }
    return r;
}
static bool isApp(Z3_ast a, Z3_decl_kind k) {
    return Z3_get_ast_kind(Z, a) == Z3_APP_AST && Z3_get_decl_kind(Z, Z3_get_app_decl(Z, Z3_to_app(Z, a))) == k;
}
static void learn(State& s, Z3_ast a, bool v) {
    if (isApp(a, Z3_OP_NOT)) { learn(s, Z3_get_app_arg(Z, Z3_to_app(Z, a), 0), !v); return; }
    s.known[a] = v;
    if (isApp(a, v ? Z3_OP_AND : Z3_OP_OR)) {
        unsigned n = Z3_get_app_num_args(Z, Z3_to_app(Z, a));
        for (unsigned i = 0; i < n; ++i) learn(s, Z3_get_app_arg(Z, Z3_to_app(Z, a), i), v);
    }
}
static int knownLit(Z3_ast a) {
    if (!S) return -1;
    bool pos = true;
    while (isApp(a, Z3_OP_NOT)) { a = Z3_get_app_arg(Z, Z3_to_app(Z, a), 0); pos = !pos; }
    auto it = S->known.find(a);
    if (it != S->known.end()) return it->second == pos;
    bool isAnd = isApp(a, Z3_OP_AND);
    if (isAnd || isApp(a, Z3_OP_OR)) {
        Z3_app p = Z3_to_app(Z, a);
        unsigned n = Z3_get_app_num_args(Z, p);
        bool all = true;
        if (n <= 8)
            for (unsigned i = 0; i < n; ++i) {
                int k = knownLit(Z3_get_app_arg(Z, p, i));
                if (k < 0) all = false;
                else if ((k == 1) != isAnd) return isAnd ? !pos : pos;
            }
        if (all && n <= 8) return isAnd ? pos : !pos;
    }
    return -1;
}
static void addPC(State& s, Val const& c) {
    if (!c.sym()) { if (!c.c) throw PathEnd(); return; }
    s.pc.push_back(c.a);
    learn(s, c.a, true);
    if (s.model && !s.model->evalBool(c)) s.model = nullptr;
}
static Val nb(Val const& c) { return notB(c); }
// Branch queries get a small budget: when it runs out both sides are explored (a superset of
// the feasible paths, so proofs stay sound and violations still need a model).
static Sat query(Val const& c, ModelP* m, bool assertQ = false, bool full = false) { return solve(S->pc, c, m, assertQ, full || assertQ); }
static void bothWays() { R.bothWays++; }

static void undecided(const char* what) {
    R.undecided++;
    if (R.undecidedWhere.size() < 20) R.undecidedWhere.push_back(std::string(what) + ": " + whereAmI());
}
// Is c possible on this path? Updates the cached model when it is.
static bool feasible(Val const& c, bool& unk) {
    unk = false;
    if (!c.sym()) return c.c;
    if (int k = knownLit(c.a); k >= 0) return k;
    if (S->model && S->model->evalBool(c)) { gStats.modelHits++; return true; }
    ModelP m;
    Sat r = query(c, &m);
    if (r == Sat::Unknown) { unk = true; return true; }
    return r == Sat::Yes;
}
static void ensureModel() {
    if (S->model) {
        bool ok = true;
        for (auto a : S->pc) if (!S->model->evalBool(Val(1, a))) { ok = false; break; }
        if (ok) return;
    }
    ModelP m;
    Sat r = query(Val(1, (u128)1), &m);
    if (r == Sat::Yes) S->model = m;
    else if (r == Sat::No) throw PathEnd();
    else S->model = nullptr;
}
static std::vector<std::pair<std::string, std::string>> inputsUnder(ModelP const& m) {
    std::vector<std::pair<std::string, std::string>> r;
    for (auto& in : S->inputs) {
        Val v = m ? m->eval(in.v) : in.v;
        r.push_back({in.name, hex(v.sym() ? 0 : v.c)});
    }
    return r;
}
static void violation(std::string const& kind, std::string const& msg, ModelP const& m) {
    Violation v;
    v.kind = kind; v.msg = msg; v.where = whereAmI();
    v.inputs = inputsUnder(m);
    R.viol.push_back(v);
    if (gShared) gShared[1]++;
}
static StateP cloneState(State const& s) { return std::make_unique<State>(s); }

// Check that c holds for every input of this path; report otherwise; continue assuming it.
static void require(Val const& c, const char* kind, std::string const& msg) {
    R.checks++;
    if (c.sym() && knownLit(c.a) == 1) return;
    if (!c.sym()) {
        if (c.c) return;
        ensureModel();
        if (!S->model) { undecided(kind); throw PathEnd(); }
        violation(kind, msg, S->model);
        throw PathEnd();
    }
    Val n = notB(c);
    bool isAssert = !strcmp(kind, "assert");
    ModelP m;
    Sat r;
    if (S->model && S->model->evalBool(n)) { 
        bool ok = true;
        for (auto a : S->pc) if (!S->model->evalBool(Val(1, a))) { ok = false; break; }
        if (ok) { r = Sat::Yes; m = S->model; } else r = query(n, &m, isAssert, true);
    }
    else { r = query(n, &m, isAssert, true); R.assertQueries++; }
    if (r == Sat::No) { if (isAssert) { S->pc.push_back(c.a); learn(*S, c.a, true); } return; }   // proven assertions become lemmas
    if (r == Sat::Unknown) { undecided((std::string(kind) + " " + msg).c_str()); addPC(*S, c); S->model = nullptr; return; }
    violation(kind, msg, m);
    // continue on the good side if there is one
    bool unk;
    if (!feasible(c, unk)) throw PathEnd();
    addPC(*S, c);
    S->model = nullptr;
    ensureModel();
}
// Fork: schedule the current state again (same instruction) with the extra constraint c.
static void forkRetry(Val const& c, ModelP const& m) {
    StateP n = cloneState(*S);
    addPC(*n, c);
    n->model = m;
    n->forks++;
    R.forks++;
    work.push_back(std::move(n));
}
// Decide a boolean for this path, forking if both values are possible.
static bool decide(Val const& c) {
    if (!c.sym()) return c.c;
    if (int k = knownLit(c.a); k >= 0) return k;
    Val n = notB(c);
    bool tKnown = false, fKnown = false;
    ModelP mt, mf;
    if (S->model) {
        if (S->model->evalBool(c)) { tKnown = true; mt = S->model; }
        else { fKnown = true; mf = S->model; }
        gStats.modelHits++;
    }
    Sat t = tKnown ? Sat::Yes : query(c, &mt);
    if (t == Sat::No) { learn(*S, c.a, false); return false; }
    Sat f = fKnown ? Sat::Yes : query(n, &mf);
    if (f == Sat::No) { learn(*S, c.a, true); return true; }
    if (t == Sat::Unknown || f == Sat::Unknown) bothWays();
    forkRetry(n, mf);
    addPC(*S, c);
    S->model = mt;
    return true;
}
static u128 concretize(Val const& v0) {
    Val v = ciReduce(v0);
    while (isCI(v)) {
        Val c, x, y;
        ciSplit(v, c, x, y);
        v = ciReduce(decide(c) ? x : y);
    }
    if (!v.sym()) return v.c;
    if (!S->model) ensureModel();
    if (!S->model) throw Unsupported("cannot concretise");
    Val x = S->model->eval(v);
    if (x.sym()) throw Unsupported("model eval not constant");
    Val eq = cmp(Cmp::EQ, v, x);
    Val ne = notB(eq);
    ModelP m;
    Sat r = query(ne, &m);
    if (r != Sat::No) { if (r == Sat::Unknown) undecided("concretize"); forkRetry(ne, m); addPC(*S, eq); }
    return x.c;
}

// ---------------------------------------------------------------- objects
static ObjP* findObj(uint64_t addr, bool forWrite) {
    auto it = S->mem.upper_bound(addr);
    if (it != S->mem.begin()) {
        --it;
        Object& o = *it->second;
        if (addr >= o.base && addr <= o.base + o.size) {
            if (forWrite && it->second.use_count() > 1) it->second = std::make_shared<Object>(o);
            return &it->second;
        }
    }
    auto g = gGlobals.upper_bound(addr);
    if (g == gGlobals.begin()) return nullptr;
    --g;
    Object& o = *g->second;
    if (addr >= o.base && addr <= o.base + o.size) {
        if (forWrite) {
            auto& p = S->mem[o.base];
            p = std::make_shared<Object>(o);
            return &p;
        }
        return &g->second;
    }
    return nullptr;
}
static uint64_t allocObj(State& s, uint64_t size, std::string const& name, bool heap, bool stack) {
    auto o = std::make_shared<Object>();
    o->size = size;
    o->base = s.nextAddr;
    o->b.resize(size);
    o->heap = heap; o->stack = stack; o->name = name;
    s.nextAddr = (s.nextAddr + size + 64 + 31) & ~(uint64_t)31;
    s.mem[o->base] = o;
    return o->base;
}
struct Res { ObjP* o; bool conc; uint64_t off; Val offV; };
static Res resolve(Val const& addr0, uint64_t n, bool write) {
    Val addr = ciReduce(addr0);
    while (isCI(addr)) {
        Val c, x, y;
        ciSplit(addr, c, x, y);
        addr = ciReduce(decide(c) ? x : y);
    }
    if (!addr.sym()) {
        uint64_t a = addr.u64();
        ObjP* p = findObj(a, write);
        if (!p || a + n > (*p)->base + (*p)->size) {
            // adjacent object that starts exactly here?
            require(Val(1, (u128)0), "memory", std::string(write ? "invalid write of " : "invalid read of ") + std::to_string(n) + " bytes");
        }
        if (write && (*p)->ro) require(Val(1, (u128)0), "memory", "write to constant memory");
        return {p, true, a - (*p)->base, Val(64, (u128)(a - (*p)->base))};
    }
    if (!S->model) ensureModel();
    if (!S->model) throw Unsupported("symbolic address without model");
    uint64_t a = S->model->eval(addr).u64();
    ObjP* p = findObj(a, write);
    if (!p || a + n > (*p)->base + (*p)->size) {
        violation("memory", std::string(write ? "invalid write of " : "invalid read of ") + std::to_string(n) + " bytes (symbolic address)", S->model);
        throw PathEnd();
    }
    uint64_t base = (*p)->base, size = (*p)->size;
    Val off = bin(Op::Sub, addr, Val(64, (u128)base));
    Val in = cmp(Cmp::ULE, off, Val(64, (u128)(size - n)));
    R.checks++;
    if (in.sym()) {
        Val out = notB(in);
        ModelP m;
        Sat r = query(out, &m);
        if (r == Sat::Unknown) undecided("address");
        if (r != Sat::No) { forkRetry(out, m); addPC(*S, in); }
    }
    if (write && (*p)->ro) require(Val(1, (u128)0), "memory", "write to constant memory");
    p = findObj(a, write);
    return {p, false, 0, off};
}
static unsigned strideOf(Val const& off) {
    unsigned st = 1;
    for (unsigned k = 4; k >= 1; --k) {
        Val lo = extract(off, k - 1, 0);
        if (lo.w == 1) lo = zext(lo, 8);
        if (!lo.sym()) { if (lo.c == 0) return 1u << k; return 1; }
    }
    return st;
}
static Val muxRead(Object const& o, Val const& idx, unsigned bit, uint64_t lo, unsigned stride, uint32_t w) {
    // entries lo .. lo + 2^bit - 1 (in strides)
    uint64_t maxIdx = (o.size - (w + 7) / 8) / stride;
    if (bit == 0) return getBytes(o, std::min(lo, maxIdx) * stride, w, S);
    uint64_t half = 1ull << (bit - 1);
    Val l = muxRead(o, idx, bit - 1, lo, stride, w);
    if (lo + half > maxIdx) return l;
    Val h = muxRead(o, idx, bit - 1, lo + half, stride, w);
    return ite(extract(idx, bit - 1, bit - 1), h, l);
}
static Val loadScalar(Val const& addr, uint32_t w) {
    uint64_t n = (w + 7) / 8;
    Res r = resolve(addr, n, false);
    Object const& o = **r.o;
    if (r.conc) return getBytes(o, r.off, w, S);
    unsigned stride = strideOf(r.offV);
    uint64_t cnt = (o.size - n) / stride + 1;
    if (cnt > 4096) {
        uint64_t off = (uint64_t)concretize(r.offV);
        return getBytes(o, off, w, S);
    }
    Val idx = r.offV;
    unsigned sh = stride == 16 ? 4 : stride == 8 ? 3 : stride == 4 ? 2 : stride == 2 ? 1 : 0;
    if (sh) idx = bin(Op::LShr, idx, Val(64, (u128)sh));
    unsigned bits = 0;
    while ((1ull << bits) < cnt) ++bits;
    return muxRead(o, idx, bits, 0, stride, w);
}
static void storeScalar(Val const& addr, Val const& v) {
    uint64_t n = (v.w + 7) / 8;
    Res r = resolve(addr, n, true);
    if (r.conc) { putBytes(**r.o, r.off, v); return; }
    unsigned stride = strideOf(r.offV);
    Object& o = **r.o;
    uint64_t cnt = (o.size - n) / stride + 1;
    if (stride < n || cnt > 128) {
        uint64_t off = (uint64_t)concretize(r.offV);
        r.o = findObj((*r.o)->base, true);
        putBytes(**r.o, off, v);
        return;
    }
    for (uint64_t k = 0; k < cnt; ++k) {
        Val c = cmp(Cmp::EQ, r.offV, Val(64, (u128)(k * stride)));
        if (!c.sym() && !c.c) continue;
        Val old = getBytes(o, k * stride, v.w, S);
        putBytes(o, k * stride, ite(c, v, old));
    }
}
static RV loadTy(Val const& addr, Type* t) {
    SmallVector<std::pair<uint64_t, Type*>, 4> fl;
    flatOff(t, 0, fl);
    RV r;
    for (auto& e : fl) r.v.push_back(loadScalar(e.first ? bin(Op::Add, addr, Val(64, (u128)e.first)) : addr, bitsOf(e.second)));
    return r;
}
static void storeTy(Val const& addr, Type* t, RV const& x) {
    SmallVector<std::pair<uint64_t, Type*>, 4> fl;
    flatOff(t, 0, fl);
    for (size_t i = 0; i < fl.size(); ++i) {
        storeScalar(fl[i].first ? bin(Op::Add, addr, Val(64, (u128)fl[i].first)) : addr, x.v[i]);
    }
}

// ---------------------------------------------------------------- constants
static uint64_t addrOfGlobal(const GlobalValue* g);
static RV evalConst(const Constant* c);

static uint64_t gNextGlobal = 0x10000000ull, gNextFn = 0x100000ull;
static void writeConst(Object& o, uint64_t off, const Constant* c) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || c->isNullValue()) {
        uint64_t n = DL->getTypeAllocSize(t);
        for (uint64_t i = 0; i < n; ++i) { o.b[off + i] = Byte(); o.b[off + i].kind = B_CONC; }
        return;
    }
    if (isa<UndefValue>(c)) {
        uint64_t n = DL->getTypeAllocSize(t);
        for (uint64_t i = 0; i < n; ++i) { o.b[off + i] = Byte(); o.b[off + i].kind = B_CONC; }
        return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        uint64_t sz = DL->getTypeAllocSize(cd->getElementType());
        for (unsigned i = 0; i < cd->getNumElements(); ++i) writeConst(o, off + i * sz, cd->getElementAsConstant(i));
        return;
    }
    if (auto* s = dyn_cast<ConstantStruct>(c)) {
        auto* sl = DL->getStructLayout(s->getType());
        uint64_t n = DL->getTypeAllocSize(t);
        for (uint64_t i = 0; i < n; ++i) { o.b[off + i] = Byte(); o.b[off + i].kind = B_CONC; }
        for (unsigned i = 0; i < s->getNumOperands(); ++i) writeConst(o, off + sl->getElementOffset(i), s->getOperand(i));
        return;
    }
    if (auto* a = dyn_cast<ConstantArray>(c)) {
        uint64_t sz = DL->getTypeAllocSize(a->getType()->getElementType());
        for (unsigned i = 0; i < a->getNumOperands(); ++i) writeConst(o, off + i * sz, a->getOperand(i));
        return;
    }
    if (auto* a = dyn_cast<ConstantVector>(c)) {
        uint64_t sz = bitsOf(a->getType()->getElementType()) / 8;
        for (unsigned i = 0; i < a->getNumOperands(); ++i) writeConst(o, off + i * sz, a->getOperand(i));
        return;
    }
    RV v = evalConst(c);
    putBytes(o, off, v.s());
}
static uint64_t addrOfGlobal(const GlobalValue* g) {
    if (auto* al = dyn_cast<GlobalAlias>(g)) return addrOfGlobal(cast<GlobalValue>(al->getAliasee()->stripPointerCasts()));
    auto it = gGlobalAddr.find(g);
    if (it != gGlobalAddr.end()) return it->second;
    if (auto* f = dyn_cast<Function>(g)) {
        uint64_t a = gNextFn;
        gNextFn += 16;
        gGlobalAddr[g] = a;
        gFnByAddr[a] = const_cast<Function*>(f);
        return a;
    }
    auto* gv = cast<GlobalVariable>(g);
    uint64_t size = gv->hasInitializer() ? (uint64_t)DL->getTypeAllocSize(gv->getValueType()) : 256;
    auto o = std::make_shared<Object>();
    o->base = gNextGlobal;
    o->size = size;
    o->name = gv->getName().str();
    o->ro = gv->isConstant();
    gNextGlobal = (gNextGlobal + size + 64 + 31) & ~(uint64_t)31;
    o->b.resize(size);
    gGlobalAddr[g] = o->base;
    gGlobals[o->base] = o;
    if (gv->hasInitializer()) writeConst(*o, 0, gv->getInitializer());
    else for (auto& b : o->b) b.kind = B_CONC;
    return o->base;
}
static RV evalConst(const Constant* c) {
    auto it = gConst.find(c);
    if (it != gConst.end()) return it->second;
    RV r;
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        uint32_t w = ci->getBitWidth();
        if (w > 128) throw Unsupported("wide int");
        u128 v = ci->getValue().getRawData()[0];
        if (w > 64) v |= (u128)ci->getValue().getRawData()[1] << 64;
        r = RV(Val(w, v));
    } else if (auto* cf = dyn_cast<ConstantFP>(c)) {
        r = RV(Val(bitsOf(t), (u128)cf->getValueAPF().bitcastToAPInt().getZExtValue()));
    } else if (isa<ConstantPointerNull>(c)) r = RV(Val(64, (u128)0));
    else if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        SmallVector<Type*, 8> fl;
        flat(t, fl);
        for (Type* e : fl) r.v.push_back(Val(bitsOf(e), (u128)0));
    } else if (auto* g = dyn_cast<GlobalValue>(c)) r = RV(Val(64, (u128)addrOfGlobal(g)));
    else if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        for (unsigned i = 0; i < cd->getNumElements(); ++i) r.v.push_back(evalConst(cd->getElementAsConstant(i)).s());
    } else if (isa<ConstantAggregate>(c)) {
        for (auto& op : c->operands()) { RV e = evalConst(cast<Constant>(op)); r.v.append(e.v.begin(), e.v.end()); }
    } else if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                auto* gep = cast<GEPOperator>(ce);
                APInt off(64, 0);
                if (!gep->accumulateConstantOffset(*DL, off)) throw Unsupported("constexpr gep");
                Val b = evalConst(ce->getOperand(0)).s();
                r = RV(bin(Op::Add, b, Val(64, (u128)off.getZExtValue())));
                break;
            }
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: {
                Val b = evalConst(ce->getOperand(0)).s();
                uint32_t w = bitsOf(t);
                r = RV(w <= b.w ? trunc(b, w) : zext(b, w));
                break;
            }
            case Instruction::Sub: r = RV(bin(Op::Sub, evalConst(ce->getOperand(0)).s(), evalConst(ce->getOperand(1)).s())); break;
            case Instruction::Add: r = RV(bin(Op::Add, evalConst(ce->getOperand(0)).s(), evalConst(ce->getOperand(1)).s())); break;
            case Instruction::Trunc: r = RV(trunc(evalConst(ce->getOperand(0)).s(), bitsOf(t))); break;
            default: throw Unsupported(std::string("constexpr ") + ce->getOpcodeName());
        }
    } else {
        std::string s; raw_string_ostream o(s); c->print(o);
        throw Unsupported("constant " + o.str());
    }
    gConst[c] = r;
    return r;
}
static FnInfo* fnInfo(Function* f) {
    auto& p = gFn[f];
    if (!p) {
        p = new FnInfo;
        for (auto& a : f->args()) p->slot[&a] = p->n++;
        for (auto& b : *f) for (auto& i : b) if (!i.getType()->isVoidTy()) p->slot[&i] = p->n++;
    }
    return p;
}
static RV const& opv(Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) {
        auto it = gConst.find(c);
        if (it != gConst.end()) return it->second;
        evalConst(c);
        auto it2 = gConst.find(c);
        return it2->second;
    }
    Frame& f = S->st.back();
    auto it = f.info->slot.find(v);
    if (it == f.info->slot.end()) throw Unsupported("operand kind");
    return f.regs[it->second];
}
static Val sv(Value* v) { return opv(v).s(); }
static void setReg(Frame& f, Instruction* i, RV r) { f.regs[f.info->slot[i]] = std::move(r); }

// ---------------------------------------------------------------- calls and exceptions
static void pushFrame(Function* f, std::vector<RV> args, CallBase* call) {
    if (S->st.size() > 400) {
        ensureModel();
        violation("recursion", "call depth exceeds 400 frames", S->model);
        throw PathEnd();
    }
    S->st.emplace_back();
    Frame& n = S->st.back();
    n.f = f;
    n.info = fnInfo(f);
    n.bb = &f->getEntryBlock();
    n.ip = n.bb->begin();
    n.regs.resize(n.info->n);
    n.call = call;
    unsigned i = 0;
    for (auto& a : f->args()) {
        RV v = i < args.size() ? args[i] : RV();
        if (a.hasByValAttr() && i < args.size()) {
            uint64_t sz = DL->getTypeAllocSize(a.getParamByValType());
            uint64_t p = allocObj(*S, sz, "byval", false, true);
            n.allocas.push_back(p);
            ObjP* src = findObj(v.s().u64(), false);
            if (!src) throw Unsupported("byval source");
            uint64_t off = v.s().u64() - (*src)->base;
            auto& dst = S->mem[p];
            for (uint64_t k = 0; k < sz; ++k) dst->b[k] = (*src)->b[off + k];
            v = RV(Val(64, (u128)p));
        }
        n.regs[n.info->slot[&a]] = v;
        ++i;
    }
    R.functions.insert(f->getName().str());
}
static void popFrame() {
    for (uint64_t a : S->st.back().allocas) S->mem.erase(a);
    S->st.pop_back();
}
static void gotoBB(Frame& f, BasicBlock* to) {
    BasicBlock* from = f.bb;
    // phis evaluate in parallel
    SmallVector<std::pair<Instruction*, RV>, 8> ph;
    auto it = to->begin();
    for (; auto* p = dyn_cast<PHINode>(&*it); ++it) ph.push_back({p, opv(p->getIncomingValueForBlock(from))});
    for (auto& x : ph) setReg(f, x.first, x.second);
    f.prev = from;
    f.bb = to;
    f.ip = it;
}
static std::string nameOfTypeinfo(uint64_t a) {
    for (auto* m : {&S->mem, &gGlobals}) {
        auto it = m->find(a);
        if (it != m->end()) return it->second->name;
    }
    return "";
}
static uint64_t typeinfoByName(std::string const& n) {
    if (auto* g = M->getNamedGlobal(n)) return addrOfGlobal(g);
    return 0;
}
static const std::map<std::string, std::string> kStdBase = {
    {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
    {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
    {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"},
    {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
    {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}};
static std::string baseOfTypeinfo(std::string const& n) {
    auto it = kStdBase.find(n);
    if (it != kStdBase.end()) return it->second;
    if (auto* g = M->getNamedGlobal(n)) {
        if (g->hasInitializer()) {
            if (auto* s = dyn_cast<ConstantStruct>(g->getInitializer())) {
                if (s->getNumOperands() == 3)
                    if (auto* b = dyn_cast<GlobalVariable>(s->getOperand(2)->stripPointerCasts())) return b->getName().str();
            }
        }
    }
    return "";
}
static bool derivesFrom(std::string n, std::string const& b) {
    for (int i = 0; i < 20 && !n.empty(); ++i) { if (n == b) return true; n = baseOfTypeinfo(n); }
    return false;
}
static std::vector<std::string> gTypeIds{"<none>"};
static int typeId(std::string const& n) {
    for (size_t i = 1; i < gTypeIds.size(); ++i) if (gTypeIds[i] == n) return i;
    gTypeIds.push_back(n);
    return gTypeIds.size() - 1;
}
static void unwind() {
    std::string tn = nameOfTypeinfo(S->excType);
    // the frame on top is the one executing the throwing call
    while (!S->st.empty()) {
        Frame& f = S->st.back();
        Instruction* in = &*f.ip;
        if (auto* iv = dyn_cast<InvokeInst>(in)) {
            BasicBlock* ub = iv->getUnwindDest();
            auto* lp = ub->getLandingPadInst();
            // does it handle?
            int sel = 0;
            bool take = lp->isCleanup();
            for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
                if (!lp->isCatch(i)) {
                    // filter: treat as a match only when empty (noexcept)
                    if (cast<ArrayType>(lp->getClause(i)->getType())->getNumElements() == 0) { sel = -1; take = true; break; }
                    continue;
                }
                Constant* c = lp->getClause(i);
                if (isa<ConstantPointerNull>(c)) { sel = 1000000; take = true; break; }
                std::string cn = cast<GlobalValue>(c->stripPointerCasts())->getName().str();
                if (derivesFrom(tn, cn)) { sel = typeId(cn); take = true; break; }
            }
            if (take) {
                gotoBB(f, ub);
                // set landing pad registers lazily: store on state
                RV r;
                r.v.push_back(Val(64, (u128)S->excObj));
                r.v.push_back(Val(32, (u128)(uint32_t)sel));
                setReg(f, lp, r);
                // skip to after the landingpad
                while (&*f.ip != lp) ++f.ip;
                ++f.ip;
                return;
            }
        }
        if (S->st.size() == 1) break;
        popFrame();
    }
    ensureModel();
    violation("exception", "uncaught exception " + tn, S->model);
    throw PathEnd();
}
static void throwStd(const char* ti) {
    uint64_t o = allocObj(*S, 64, "exc", true, false);
    auto& ob = S->mem[o];
    for (auto& b : ob->b) b.kind = B_CONC;
    S->excObj = o;
    auto* g = M->getNamedGlobal(ti);
    if (!g) g = new GlobalVariable(*M, PointerType::get(M->getContext(), 0), true, GlobalValue::ExternalLinkage, nullptr, ti);
    S->excType = addrOfGlobal(g);
    unwind();
}
static std::string readCStr(uint64_t a) {
    std::string r;
    for (;;) {
        ObjP* o = findObj(a, false);
        if (!o || a >= (*o)->base + (*o)->size) return r;
        Byte const& b = (*o)->b[a - (*o)->base];
        if (b.kind != B_CONC || !b.k || r.size() > 500) return r;
        r += (char)b.k;
        ++a;
    }
}
static void copyMem(Val const& dst, Val const& src, uint64_t n) {
    if (!n) return;
    if (src.sym() || dst.sym()) {
        // element-wise through symbolic-address accesses
        std::vector<Val> tmp;
        uint64_t i = 0;
        std::vector<std::pair<uint64_t, uint32_t>> ch;
        while (i < n) { uint32_t k = n - i >= 8 ? 8 : 1; ch.push_back({i, k}); i += k; }
        for (auto& c : ch) tmp.push_back(loadScalar(bin(Op::Add, src, Val(64, (u128)c.first)), c.second * 8));
        for (size_t j = 0; j < ch.size(); ++j) storeScalar(bin(Op::Add, dst, Val(64, (u128)ch[j].first)), tmp[j]);
        return;
    }
    Res s = resolve(src, n, false);
    std::vector<Byte> tmp((*s.o)->b.begin() + s.off, (*s.o)->b.begin() + s.off + n);
    Res d = resolve(dst, n, true);
    std::copy(tmp.begin(), tmp.end(), (*d.o)->b.begin() + d.off);
}
static void setMem(Val const& dst, Val const& v, uint64_t n) {
    if (!n) return;
    for (uint64_t i = 0; i < n; ++i) storeScalar(bin(Op::Add, dst, Val(64, (u128)i)), v);
}
static Val memCmp(Val const& a, Val const& b, uint64_t n) {
    Val eq(1, (u128)1), less(1, (u128)0);
    for (uint64_t e = n; e > 0;) {   // last chunk first; bytes are compared as unsigned, most significant first
        uint64_t k = e >= 8 ? 8 : e >= 4 ? 4 : e >= 2 ? 2 : 1;
        uint64_t at = e - k;
        Val x = loadScalar(bin(Op::Add, a, Val(64, (u128)at)), 8 * k), y = loadScalar(bin(Op::Add, b, Val(64, (u128)at)), 8 * k);
        Val same = cmp(Cmp::EQ, x, y);
        Val bx = extract(x, 7, 0), by = extract(y, 7, 0);
        for (uint64_t i = 1; i < k; ++i) { bx = concat(bx, extract(x, 8 * i + 7, 8 * i)); by = concat(by, extract(y, 8 * i + 7, 8 * i)); }
        less = ite(same, less, cmp(Cmp::ULT, bx, by));
        eq = andB(same, eq);
        e = at;
    }
    return ite(eq, Val(32, (u128)0), ite(less, Val(32, ~(u128)0), Val(32, (u128)1)));
}
static std::string sanitize(std::string s) {
    for (auto& c : s) if (!isalnum((unsigned char)c)) c = '_';
    return s;
}
static Val newInput(std::string const& name, uint32_t w) {
    Val v = freshVar("in_" + std::to_string(S->inputs.size()) + "_" + sanitize(name), w);
    S->inputs.push_back({name, v});
    return v;
}

// libm contract: functional consistency plus the documented range of each function.
static Val ctlz52(Val const& x) {
    Val r(52, (u128)52);
    for (unsigned i = 0; i < 52; ++i) r = ite(extract(x, i, i), Val(52, (u128)(51 - i)), r);
    return r;
}
static Val libm1(std::string const& n, Val const& x) {
    if (!x.sym()) {
        double d = asDouble(x), r;
        if (n == "sin") r = std::sin(d); else if (n == "cos") r = std::cos(d); else if (n == "tan") r = std::tan(d);
        else if (n == "asin") r = std::asin(d); else if (n == "acos") r = std::acos(d); else if (n == "atan") r = std::atan(d);
        else if (n == "exp") r = std::exp(d); else if (n == "log") r = std::log(d);
        else throw Unsupported("libm " + n);
        return ofDouble(r);
    }
    Val r = uf("m_" + n, {x}, 64);
    Val nan = fpIsNan(r);
    auto between = [&](double lo, double hi) { return andB(fpCmp(3, r, ofDouble(lo)), fpCmp(5, r, ofDouble(hi))); };
    Val inf = cmp(Cmp::EQ, fpAbs(x), Val(64, (u128)0x7ff0000000000000ull));
    Val nx = fpIsNan(x);
    Val one = Val(64, (u128)0x3ff0000000000000ull);
    if (n == "sin" || n == "cos") addPC(*S, ite(orB(nx, inf), nan, between(-1, 1)));
    else if (n == "asin") addPC(*S, ite(orB(nx, fpCmp(2, fpAbs(x), one)), nan, between(-M_PI_2, M_PI_2)));
    else if (n == "acos") addPC(*S, ite(orB(nx, fpCmp(2, fpAbs(x), one)), nan, between(0, M_PI)));
    else if (n == "atan") addPC(*S, ite(nx, nan, between(-M_PI_2, M_PI_2)));
    else if (n == "tan") addPC(*S, ite(orB(nx, inf), nan, notB(nan)));
    else throw Unsupported("libm " + n);
    // signs: sin, tan, asin and atan agree in sign with an argument in their principal range,
    // and the cosine is positive up to the double nearest pi/2 (which is below pi/2)
    Val zero = ofDouble(0.0);
    if (n == "cos") addPC(*S, orB(notB(fpCmp(5, fpAbs(x), ofDouble(M_PI_2))), fpCmp(3, r, ofDouble(6.123e-17))));
    else if (n != "acos") {
        Val in = n == "sin" ? fpCmp(5, fpAbs(x), ofDouble(M_PI)) : n == "tan" ? fpCmp(5, fpAbs(x), ofDouble(M_PI_2)) : n == "asin" ? fpCmp(5, fpAbs(x), one) : notB(nx);
        addPC(*S, orB(notB(in), andB(cmp(Cmp::EQ, fpCmp(2, x, zero), fpCmp(2, r, zero)), cmp(Cmp::EQ, fpCmp(4, x, zero), fpCmp(4, r, zero)))));
    }
    R.stubs.insert("libm:" + n + " (uninterpreted with documented range and sign)");
    return r;
}
static Val libm2(std::string const& n, Val const& x, Val const& y) {
    if (!x.sym() && !y.sym()) {
        double a = asDouble(x), b = asDouble(y);
        return ofDouble(n == "atan2" ? std::atan2(a, b) : n == "fmod" ? std::fmod(a, b) : n == "pow" ? std::pow(a, b) : n == "hypot" ? std::hypot(a, b)
                       : n == "remainder" ? std::remainder(a, b) : n == "fmin" ? std::fmin(a, b) : n == "fmax" ? std::fmax(a, b) : throw Unsupported("libm " + n));
    }
    if (n == "fmin" || n == "fmax") {
        Val lt = fpCmp(4, x, y);
        Val r = n == "fmin" ? ite(lt, x, y) : ite(lt, y, x);
        return ite(fpIsNan(x), y, ite(fpIsNan(y), x, r));
    }
    Val r = uf("m_" + n, {x, y}, 64);
    Val nan = fpIsNan(r), anyNan = orB(fpIsNan(x), fpIsNan(y));
    if (n == "atan2") addPC(*S, ite(anyNan, nan, andB(fpCmp(3, r, ofDouble(-M_PI)), fpCmp(5, r, ofDouble(M_PI)))));
    else if (n == "fmod") {
        Val bad = orB(anyNan, orB(cmp(Cmp::EQ, fpAbs(x), Val(64, (u128)0x7ff0000000000000ull)), cmp(Cmp::EQ, fpAbs(y), Val(64, (u128)0))));
        Val lt = fpCmp(4, fpAbs(x), fpAbs(y));
        // |r| < |y|, |r| <= |x|, sign of x, and r == x when |x| < |y|
        Val ok = andB(fpCmp(4, fpAbs(r), fpAbs(y)), fpCmp(5, fpAbs(r), fpAbs(x)));
        ok = andB(ok, cmp(Cmp::EQ, extract(r, 63, 63), extract(x, 63, 63)));
        ok = andB(ok, orB(notB(lt), cmp(Cmp::EQ, r, x)));
        addPC(*S, ite(bad, nan, ok));
    } else throw Unsupported("libm " + n);
    R.stubs.insert("libm:" + n + " (uninterpreted with documented contract)");
    return r;
}

// Returns true if handled; out holds the result for non-void calls.
static bool builtin(std::string const& n, CallBase* cb, std::vector<RV>& a, RV& out, bool& noAdvance) {
    auto A = [&](unsigned i) -> Val { return a[i].s(); };
    auto conc = [&](unsigned i) -> uint64_t { return (uint64_t)concretize(a[i].s()); };
    // ---- harness API
    if (n.compare(0, 3, "vf_") == 0) {
        if (n == "vf_nondet") {
            std::string nm = readCStr(conc(0));
            uint32_t w = (uint32_t)conc(1);
            Val v = newInput(nm, w);
            out = RV(w < 64 ? zext(v, 64) : v);
            S->model = S->model;  // old model stays valid: new variable is unconstrained
            return true;
        }
        if (n == "vf_choose") {
            std::string nm = readCStr(conc(0));
            uint64_t k = conc(1);
            // fork k ways
            for (uint64_t i = 1; i < k; ++i) {
                StateP s = cloneState(*S);
                Frame& f = s->st.back();
                s->inputs.push_back({nm, Val(64, (u128)i)});
                State* old = S;
                S = s.get();
                setReg(f, cb, RV(Val(64, (u128)i)));
                if (auto* iv = dyn_cast<InvokeInst>(cb)) gotoBB(f, iv->getNormalDest()); else ++f.ip;
                S = old;
                R.forks++;
                work.push_back(std::move(s));
            }
            S->inputs.push_back({nm, Val(64, (u128)0)});
            out = RV(Val(64, (u128)0));
            return true;
        }
        if (n == "vf_assume") {
            Val c = A(0);
            if (!c.sym()) { if (!c.c) throw PathEnd(); return true; }
            if (S->model && S->model->evalBool(c)) { addPC(*S, c); return true; }
            ModelP m;
            Sat r = query(c, &m);
            if (r == Sat::No) throw PathEnd();
            if (r == Sat::Unknown) bothWays();
            addPC(*S, c);
            S->model = m;
            return true;
        }
        if (n == "vf_assert_") {
            std::string msg = readCStr(conc(1));
            R.asserts++;
            R.assertIds[msg]++;
            S->asserts++;
            require(A(0), "assert", msg);
            return true;
        }
        if (n == "vf_reach") { std::string t = readCStr(conc(0)); S->reached.push_back(t); return true; }
        if (n == "vf_observe") { S->obs.push_back(A(0)); return true; }
        if (n == "vf_split") { out = RV(Val(1, (u128)decide(A(0)))); return true; }
        if (n == "vf_concrete") { out = RV(Val(64, concretize(A(0)))); return true; }
        if (n == "vf_ite64") { out = RV(ite(A(0), A(1), A(2))); return true; }
        if (n == "vf_sumeq") {     // sum v[i] << s[i] == sum w[j] << t[j], over the integers
            const unsigned W = 512;
            auto keep = [](Z3_ast a) { Z3_inc_ref(Z, a); return a; };
            Z3_sort srt = Z3_mk_bv_sort(Z, W);
            Z3_inc_ref(Z, Z3_sort_to_ast(Z, srt));
            Z3_ast sum[2];
            for (int k = 0; k < 2; ++k) {
                uint64_t cnt = conc(3 * k + 2);
                if (cnt > 64) throw Unsupported("vf_sumeq of many terms");
                Z3_ast acc = keep(Z3_mk_unsigned_int64(Z, 0, srt));
                for (uint64_t i = 0; i < cnt; ++i) {
                    Val v = loadScalar(bin(Op::Add, A(3 * k), Val(64, (u128)(8 * i))), 64), t = loadScalar(bin(Op::Add, A(3 * k + 1), Val(64, (u128)(4 * i))), 32);
                    if (t.sym() || t.u64() > 440) throw Unsupported("vf_sumeq shift");
                    Z3_ast x = keep(Z3_mk_zero_ext(Z, W - 64, toAst(v)));
                    if (t.u64()) x = keep(Z3_mk_bvmul(Z, x, keep(Z3_simplify(Z, keep(Z3_mk_bvshl(Z, keep(Z3_mk_unsigned_int64(Z, 1, srt)), keep(Z3_mk_unsigned_int64(Z, t.u64(), srt))))))));
                    acc = keep(Z3_mk_bvadd(Z, acc, x));
                }
                sum[k] = acc;
            }
            out = RV(fromAst(1, Z3_mk_eq(Z, sum[0], sum[1])));
            return true;
        }
        if (n == "vf_symbolic") { out = RV(Val(1, (u128)1)); return true; }
        if (n == "vf_stop") throw PathEnd();
        throw Unsupported("harness function " + n);
    }
    // ---- memory
    if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t" || n == "_ZnwmSt11align_val_t") {
        uint64_t sz = conc(0);
        if (sz > (1ull << 24)) {
            if (n == "_Znwm" || n == "_Znam") { throwStd("_ZTISt9bad_alloc"); noAdvance = true; return true; }
            out = RV(Val(64, (u128)0));
            return true;
        }
        out = RV(Val(64, (u128)allocObj(*S, sz, "heap", true, false)));
        return true;
    }
    if (n == "calloc") {
        uint64_t sz = conc(0) * conc(1);
        uint64_t p = allocObj(*S, sz, "heap", true, false);
        for (auto& b : S->mem[p]->b) b.kind = B_CONC;
        out = RV(Val(64, (u128)p));
        return true;
    }
    if (n == "_ZdlPv" || n == "_ZdaPv" || n == "free" || n == "_ZdlPvm" || n == "_ZdaPvm" || n == "_ZdlPvRKSt9nothrow_t" || n == "_ZdlPvmSt11align_val_t") {
        uint64_t p = conc(0);
        if (!p) return true;
        auto it = S->mem.find(p);
        if (it == S->mem.end() || !it->second->heap) { require(Val(1, (u128)0), "memory", "invalid free"); return true; }
        S->mem.erase(it);
        return true;
    }
    if (n == "memcpy" || n == "memmove") { uint64_t k = conc(2); copyMem(A(0), A(1), k); out = a[0]; return true; }
    if (n == "memset") { uint64_t k = conc(2); setMem(A(0), trunc(A(1), 8), k); out = a[0]; return true; }
    if (n == "memcmp" || n == "bcmp") { uint64_t k = conc(2); out = RV(memCmp(A(0), A(1), k)); return true; }
    if (n == "strlen") {
        uint64_t p = conc(0), i = 0;
        for (;; ++i) { Val b = loadScalar(Val(64, (u128)(p + i)), 8); if (!b.sym() ? b.c == 0 : decide(cmp(Cmp::EQ, b, Val(8, (u128)0)))) break; }
        out = RV(Val(64, (u128)i));
        return true;
    }
    // ---- exceptions
    if (n == "__cxa_allocate_exception") {
        uint64_t p = allocObj(*S, std::max<uint64_t>(conc(0), 8), "exc", true, false);
        for (auto& b : S->mem[p]->b) b.kind = B_CONC;
        out = RV(Val(64, (u128)p));
        return true;
    }
    if (n == "__cxa_free_exception") return true;
    if (n == "__cxa_throw") { S->excObj = conc(0); S->excType = conc(1); unwind(); noAdvance = true; return true; }
    if (n == "__cxa_rethrow") {
        if (S->caught.empty()) throw Unsupported("rethrow without exception");
        S->excObj = S->caught.back().first; S->excType = S->caught.back().second;
        unwind(); noAdvance = true; return true;
    }
    if (n == "__cxa_begin_catch") { S->caught.push_back({S->excObj, S->excType}); out = a[0]; return true; }
    if (n == "__cxa_get_exception_ptr") { out = a[0]; return true; }
    if (n == "__cxa_end_catch") { if (!S->caught.empty()) S->caught.pop_back(); return true; }
    if (n == "_ZSt9terminatev" || n == "abort" || n == "__clang_call_terminate") {
        ensureModel();
        violation("abort", "call to " + n, S->model);
        throw PathEnd();
    }
    if (n == "__assert_fail") {
        ensureModel();
        violation("abort", "assert failed: " + readCStr(conc(0)), S->model);
        throw PathEnd();
    }
    if (n == "__cxa_pure_virtual") { ensureModel(); violation("abort", "pure virtual call", S->model); throw PathEnd(); }
    if (n == "__cxa_atexit" || n == "__cxa_guard_release" || n == "__cxa_guard_abort") { if (!cb->getType()->isVoidTy()) out = RV(Val(bitsOf(cb->getType()), (u128)0)); 
        if (n == "__cxa_guard_release") storeScalar(A(0), Val(8, (u128)1));
        return true; }
    if (n == "__cxa_guard_acquire") {
        Val b = loadScalar(A(0), 8);
        out = RV(ite(cmp(Cmp::EQ, b, Val(8, (u128)0)), Val(32, (u128)1), Val(32, (u128)0)));
        return true;
    }
    // exception object constructors / destructors: what() text is outside the encoding
    static const std::set<std::string> excCtors = {
        "_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC2EPKc", "_ZNSt16invalid_argumentC1EPKc", "_ZNSt16invalid_argumentC2EPKc",
        "_ZNSt11logic_errorC1EPKc", "_ZNSt12out_of_rangeC1EPKc", "_ZNSt12length_errorC1EPKc", "_ZNSt12domain_errorC1EPKc", "_ZNSt14overflow_errorC1EPKc",
        "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
        "_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
        "_ZNSt14overflow_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt12domain_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
        "_ZNSt13runtime_errorD1Ev", "_ZNSt16invalid_argumentD1Ev", "_ZNSt11logic_errorD1Ev", "_ZNSt12out_of_rangeD1Ev", "_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev",
        "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev"};
    if (excCtors.count(n)) return true;
    if (n.compare(0, 7, "_ZSt20_") == 0 || n.compare(0, 7, "_ZSt19_") == 0 || n.compare(0, 7, "_ZSt17_") == 0 || n.compare(0, 7, "_ZSt24_") == 0 || n.compare(0, 7, "_ZSt16_") == 0 || n.compare(0, 7, "_ZSt28_") == 0) {
        const char* t = nullptr;
        if (n.find("__throw_length_error") != std::string::npos) t = "_ZTISt12length_error";
        else if (n.find("__throw_out_of_range") != std::string::npos) t = "_ZTISt12out_of_range";
        else if (n.find("__throw_logic_error") != std::string::npos) t = "_ZTISt11logic_error";
        else if (n.find("__throw_bad_alloc") != std::string::npos) t = "_ZTISt9bad_alloc";
        else if (n.find("__throw_bad_array_new_length") != std::string::npos) t = "_ZTISt20bad_array_new_length";
        else if (n.find("__throw_invalid_argument") != std::string::npos) t = "_ZTISt16invalid_argument";
        if (t) { throwStd(t); noAdvance = true; return true; }
    }
    if (n == "__dynamic_cast") {
        uint64_t p = conc(0);
        if (!p) { out = a[0]; return true; }
        uint64_t vt = (uint64_t)concretize(loadScalar(Val(64, (u128)p), 64));
        uint64_t ti = (uint64_t)concretize(loadScalar(Val(64, (u128)(vt - 8)), 64));
        std::string tn = nameOfTypeinfo(ti), want = nameOfTypeinfo(conc(2));
        out = RV(Val(64, (u128)(derivesFrom(tn, want) ? p : 0)));
        return true;
    }
    if (n == "_ZNKSt9type_infoeqERKS_" || n == "_ZNKSt9type_info7__equalERKS_") { out = RV(Val(1, (u128)(conc(0) == conc(1)))); return true; }
    // ---- libm
    static const std::set<std::string> m1 = {"sin", "cos", "tan", "asin", "acos", "atan", "exp", "log"};
    if (m1.count(n)) { out = RV(libm1(n, A(0))); return true; }
    if (n == "sincos") { Val s = libm1("sin", A(0)), c = libm1("cos", A(0)); storeScalar(A(1), s); storeScalar(A(2), c); return true; }
    static const std::set<std::string> m2 = {"atan2", "fmod", "pow", "hypot", "remainder", "fmin", "fmax"};
    if (m2.count(n)) { out = RV(libm2(n, A(0), A(1))); return true; }
    if (n == "sqrt" || n == "sqrtf") { out = RV(fpSqrt(A(0))); return true; }
    if (n == "fabs" || n == "fabsf") { out = RV(fpAbs(A(0))); return true; }
    if (n == "fma") { out = RV(fpFma(A(0), A(1), A(2))); return true; }
    if (n == "floor") { out = RV(fpRound(A(0), 0)); return true; }
    if (n == "ceil") { out = RV(fpRound(A(0), 1)); return true; }
    if (n == "trunc") { out = RV(fpRound(A(0), 2)); return true; }
    if (n == "rint" || n == "nearbyint") { out = RV(fpRound(A(0), 3)); return true; }
    if (n == "round") { out = RV(fpRound(A(0), 4)); return true; }
    if (n == "ldexp" || n == "scalbn") {
        if (A(0).sym() || A(1).sym()) throw Unsupported("symbolic ldexp");
        out = RV(ofDouble(std::ldexp(asDouble(A(0)), (int)A(1).s64()))); return true;
    }
    if (n == "frexp") {
        Val x = A(0);
        if (!x.sym()) {
            int e = 0;
            double m = std::frexp(asDouble(x), &e);
            storeScalar(A(1), Val(32, (u128)(uint32_t)e));
            out = RV(ofDouble(m));
            return true;
        }
        // normal numbers; zeros, infinities and NaNs are returned as they are; subnormals are normalized first
        Val ex = extract(x, 62, 52), fr = extract(x, 51, 0), sg = extract(x, 63, 63);
        Val special = orB(cmp(Cmp::EQ, ex, Val(11, (u128)2047)), andB(cmp(Cmp::EQ, ex, Val(11, (u128)0)), cmp(Cmp::EQ, fr, Val(52, (u128)0))));
        Val sub = andB(cmp(Cmp::EQ, ex, Val(11, (u128)0)), notB(special));
        Val lz = ctlz52(fr);
        Val nfr = bin(Op::Shl, bin(Op::Shl, fr, lz), Val(52, (u128)1));
        Val e = bin(Op::Sub, zext(ex, 32), Val(32, (u128)1022));
        Val es = bin(Op::Sub, Val(32, (u128)(uint32_t)-1022), trunc(lz, 32));
        storeScalar(A(1), ite(special, Val(32, (u128)0), ite(sub, es, e)));
        out = RV(ite(special, x, concat(concat(sg, Val(11, (u128)1022)), ite(sub, nfr, fr))));
        return true;
    }
    if (n == "isnan" || n == "__isnan") { out = RV(zext(fpIsNan(A(0)), 32)); return true; }
    return false;
}

static Val smax(Val const& x, Val const& y, Cmp p) { return ite(cmp(p, x, y), x, y); }
static Val ctpop(Val const& x) {
    Val r(x.w, (u128)0);
    for (unsigned i = 0; i < x.w; ++i) r = bin(Op::Add, r, zext(extract(x, i, i), x.w));
    return r;
}
static Val ctlz(Val const& x) {
    Val r(x.w, (u128)x.w);
    for (unsigned i = 0; i < x.w; ++i) r = ite(extract(x, i, i), Val(x.w, (u128)(x.w - 1 - i)), r);
    return r;
}
static Val cttz(Val const& x) {
    Val r(x.w, (u128)x.w);
    for (unsigned i = x.w; i-- > 0;) r = ite(extract(x, i, i), Val(x.w, (u128)i), r);
    return r;
}
static Val ovf(Op op, bool sgn, Val const& x, Val const& y) {  // overflow predicate
    uint32_t w = x.w, ww = op == Op::Mul ? 2 * w : w + 1;
    if (!x.sym() && !y.sym() && w <= 64) {
        if (sgn) {
            i128 p = sext128(x.c, w), q = sext128(y.c, w);
            i128 r = op == Op::Add ? p + q : op == Op::Sub ? p - q : p * q;
            return Val(1, (u128)(sext128((u128)r & maskOf(w), w) != r));
        }
        u128 p = x.c, q = y.c;
        if (op == Op::Sub) return Val(1, (u128)(p < q));
        u128 r = op == Op::Add ? p + q : p * q;
        return Val(1, (u128)((r & maskOf(w)) != r));
    }
    if (op == Op::Mul && w > 32) {
        Z3_ast p = toAst(x), q = toAst(y);
        if (sgn) return notB(andB(fromAst(1, Z3_mk_bvmul_no_overflow(Z, p, q, true)), fromAst(1, Z3_mk_bvmul_no_underflow(Z, p, q))));
        return notB(fromAst(1, Z3_mk_bvmul_no_overflow(Z, p, q, false)));
    }
    if (sgn) {
        Val r = bin(op, sext(x, ww), sext(y, ww));
        return cmp(Cmp::NE, r, sext(trunc(r, w), ww));
    }
    if (op == Op::Sub) return cmp(Cmp::ULT, x, y);
    Val r = bin(op, zext(x, ww), zext(y, ww));
    return cmp(Cmp::NE, r, zext(trunc(r, w), ww));
}
static bool intrinsic(IntrinsicInst* ii, std::vector<RV>& a, RV& out) {
    auto A = [&](unsigned i) -> Val { return a[i].s(); };
    auto map1 = [&](auto f) { for (auto& x : a[0].v) out.v.push_back(f(x)); };
    auto map2 = [&](auto f) { for (size_t i = 0; i < a[0].v.size(); ++i) out.v.push_back(f(a[0].v[i], a[1].v[i])); };
    switch (ii->getIntrinsicID()) {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: case Intrinsic::prefetch:
        case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::sideeffect:
            if (ii->getIntrinsicID() == Intrinsic::invariant_start) out = RV(Val(64, (u128)0));
            return true;
        case Intrinsic::stacksave: out = RV(Val(64, (u128)0)); return true;
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(A(0), A(1), (uint64_t)concretize(A(2))); return true;
        case Intrinsic::memset: setMem(A(0), A(1), (uint64_t)concretize(A(2))); return true;
        case Intrinsic::expect: case Intrinsic::ssa_copy: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: out = a[0]; return true;
        case Intrinsic::is_constant: out = RV(Val(1, (u128)0)); return true;
        case Intrinsic::objectsize: out = RV(Val(ii->getType()->getIntegerBitWidth(), ~(u128)0)); return true;
        case Intrinsic::eh_typeid_for: {
            auto* g = cast<GlobalValue>(ii->getArgOperand(0)->stripPointerCasts());
            out = RV(Val(32, (u128)typeId(g->getName().str())));
            return true;
        }
        case Intrinsic::trap: { ensureModel(); violation("abort", "llvm.trap", S->model); throw PathEnd(); }
        case Intrinsic::ctlz: map1(ctlz); return true;
        case Intrinsic::cttz: map1(cttz); return true;
        case Intrinsic::ctpop: map1(ctpop); return true;
        case Intrinsic::bswap: map1([](Val const& x) { Val r; for (unsigned i = 0; i < x.w / 8; ++i) { Val b = extract(x, i * 8 + 7, i * 8); r = i ? concat(r, b) : b; } return r; }); return true;
        case Intrinsic::abs: map1([](Val const& x) { return ite(cmp(Cmp::SLT, x, Val(x.w, (u128)0)), bin(Op::Sub, Val(x.w, (u128)0), x), x); }); return true;
        case Intrinsic::smax: map2([](Val const& x, Val const& y) { return smax(x, y, Cmp::SGE); }); return true;
        case Intrinsic::smin: map2([](Val const& x, Val const& y) { return smax(x, y, Cmp::SLE); }); return true;
        case Intrinsic::umax: map2([](Val const& x, Val const& y) { return smax(x, y, Cmp::UGE); }); return true;
        case Intrinsic::umin: map2([](Val const& x, Val const& y) { return smax(x, y, Cmp::ULE); }); return true;
        case Intrinsic::fabs: map1(fpAbs); return true;
        case Intrinsic::sqrt: map1(fpSqrt); return true;
        case Intrinsic::floor: map1([](Val const& x) { return fpRound(x, 0); }); return true;
        case Intrinsic::ceil: map1([](Val const& x) { return fpRound(x, 1); }); return true;
        case Intrinsic::trunc: map1([](Val const& x) { return fpRound(x, 2); }); return true;
        case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: map1([](Val const& x) { return fpRound(x, 3); }); return true;
        case Intrinsic::round: map1([](Val const& x) { return fpRound(x, 4); }); return true;
        case Intrinsic::fma: out = RV(fpFma(A(0), A(1), A(2))); return true;
        case Intrinsic::fmuladd: out = RV(fpBin(FOp::Add, fpBin(FOp::Mul, A(0), A(1)), A(2))); return true;
        case Intrinsic::sin: out = RV(libm1("sin", A(0))); return true;
        case Intrinsic::cos: out = RV(libm1("cos", A(0))); return true;
        case Intrinsic::pow: out = RV(libm2("pow", A(0), A(1))); return true;
        case Intrinsic::copysign: {
            Val s = Val(A(0).w, (u128)1 << (A(0).w - 1));
            out = RV(bin(Op::Or, fpAbs(A(0)), bin(Op::And, A(1), s)));
            return true;
        }
        case Intrinsic::maxnum: out = RV(libm2("fmax", A(0), A(1))); return true;
        case Intrinsic::minnum: out = RV(libm2("fmin", A(0), A(1))); return true;
        case Intrinsic::is_fpclass: {
            uint64_t mask = A(1).u64();
            if (mask == 3) { out = RV(fpIsNan(A(0))); return true; }
            Val x = A(0), ab = fpAbs(x);
            Val inf = cmp(Cmp::EQ, ab, Val(x.w, x.w == 64 ? (u128)0x7ff0000000000000ull : (u128)0x7f800000u));
            if (mask == 0x204) { out = RV(inf); return true; }
            if (mask == 0x1f8) { out = RV(notB(orB(inf, fpIsNan(x)))); return true; }
            throw Unsupported("is_fpclass mask");
        }
        case Intrinsic::uadd_with_overflow: out.v.push_back(bin(Op::Add, A(0), A(1))); out.v.push_back(ovf(Op::Add, false, A(0), A(1))); return true;
        case Intrinsic::usub_with_overflow: out.v.push_back(bin(Op::Sub, A(0), A(1))); out.v.push_back(ovf(Op::Sub, false, A(0), A(1))); return true;
        case Intrinsic::umul_with_overflow: out.v.push_back(bin(Op::Mul, A(0), A(1))); out.v.push_back(ovf(Op::Mul, false, A(0), A(1))); return true;
        case Intrinsic::sadd_with_overflow: out.v.push_back(bin(Op::Add, A(0), A(1))); out.v.push_back(ovf(Op::Add, true, A(0), A(1))); return true;
        case Intrinsic::ssub_with_overflow: out.v.push_back(bin(Op::Sub, A(0), A(1))); out.v.push_back(ovf(Op::Sub, true, A(0), A(1))); return true;
        case Intrinsic::smul_with_overflow: out.v.push_back(bin(Op::Mul, A(0), A(1))); out.v.push_back(ovf(Op::Mul, true, A(0), A(1))); return true;
        case Intrinsic::usub_sat: out = RV(ite(cmp(Cmp::ULT, A(0), A(1)), Val(A(0).w, (u128)0), bin(Op::Sub, A(0), A(1)))); return true;
        case Intrinsic::uadd_sat: out = RV(ite(ovf(Op::Add, false, A(0), A(1)), Val(A(0).w, ~(u128)0), bin(Op::Add, A(0), A(1)))); return true;
        case Intrinsic::fshl: case Intrinsic::fshr: {
            if (A(2).sym()) throw Unsupported("symbolic fshl");
            uint32_t w = A(0).w; unsigned k = (unsigned)(A(2).u64() % w);
            Val full = concat(A(0), A(1));
            bool l = ii->getIntrinsicID() == Intrinsic::fshl;
            if (k == 0) { out = l ? a[0] : a[1]; return true; }
            unsigned lo = l ? w - k : k;
            out = RV(extract(full, lo + w - 1, lo));
            return true;
        }
        case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: {
            Val r = a[0].v[0];
            Op op = ii->getIntrinsicID() == Intrinsic::vector_reduce_or ? Op::Or : ii->getIntrinsicID() == Intrinsic::vector_reduce_and ? Op::And : Op::Add;
            for (size_t i = 1; i < a[0].v.size(); ++i) r = bin(op, r, a[0].v[i]);
            out = RV(r);
            return true;
        }
        // ---- SSE2
        case Intrinsic::x86_sse2_movmsk_pd:
            out = RV(bin(Op::Or, zext(extract(a[0].v[0], 63, 63), 32), bin(Op::Shl, zext(extract(a[0].v[1], 63, 63), 32), Val(32, (u128)1))));
            return true;
        case Intrinsic::x86_sse2_cvttpd2dq: {
            for (int i = 0; i < 2; ++i) out.v.push_back(fpToInt(a[0].v[i], 32, true));
            out.v.push_back(Val(32, (u128)0)); out.v.push_back(Val(32, (u128)0));
            return true;
        }
        case Intrinsic::x86_sse2_cvtpd2dq: {
            for (int i = 0; i < 2; ++i) out.v.push_back(fpToInt(fpRound(a[0].v[i], 3), 32, true));
            out.v.push_back(Val(32, (u128)0)); out.v.push_back(Val(32, (u128)0));
            return true;
        }
        case Intrinsic::x86_sse2_max_pd: map2([](Val const& x, Val const& y) { return ite(fpCmp(2, x, y), x, y); }); return true;
        case Intrinsic::x86_sse2_min_pd: map2([](Val const& x, Val const& y) { return ite(fpCmp(4, x, y), x, y); }); return true;
        case Intrinsic::x86_sse2_ucomieq_sd: out = RV(zext(fpCmp(1, a[0].v[0], a[1].v[0]), 32)); return true;
        case Intrinsic::x86_sse2_comieq_sd: out = RV(zext(fpCmp(1, a[0].v[0], a[1].v[0]), 32)); return true;
        case Intrinsic::x86_sse2_ucomilt_sd: case Intrinsic::x86_sse2_comilt_sd: out = RV(zext(fpCmp(4, a[0].v[0], a[1].v[0]), 32)); return true;
        case Intrinsic::x86_sse2_ucomigt_sd: case Intrinsic::x86_sse2_comigt_sd: out = RV(zext(fpCmp(2, a[0].v[0], a[1].v[0]), 32)); return true;
        case Intrinsic::x86_sse2_cmp_sd: case Intrinsic::x86_sse2_cmp_pd: {
            static const unsigned pred[8] = {1, 4, 5, 8, 14, 11, 10, 7};  // EQ LT LE UNORD NEQ NLT NLE ORD
            unsigned p = pred[A(2).u64() & 7];
            bool sd = ii->getIntrinsicID() == Intrinsic::x86_sse2_cmp_sd;
            for (int i = 0; i < 2; ++i)
                out.v.push_back(i == 1 && sd ? a[0].v[1] : ite(fpCmp(p, a[0].v[i], a[1].v[i]), Val(64, ~(u128)0), Val(64, (u128)0)));
            return true;
        }
        case Intrinsic::x86_sse2_pslli_q: for (auto& x : a[0].v) out.v.push_back(bin(Op::Shl, x, Val(64, A(1).c))); return true;
        case Intrinsic::x86_sse2_psrli_q: for (auto& x : a[0].v) out.v.push_back(bin(Op::LShr, x, Val(64, A(1).c))); return true;
        case Intrinsic::x86_sse2_pslli_d: for (auto& x : a[0].v) out.v.push_back(bin(Op::Shl, x, Val(32, A(1).c))); return true;
        case Intrinsic::x86_sse2_psrli_d: for (auto& x : a[0].v) out.v.push_back(bin(Op::LShr, x, Val(32, A(1).c))); return true;
        case Intrinsic::x86_sse2_mfence: case Intrinsic::x86_sse2_lfence: return true;
        default: throw Unsupported("intrinsic " + ii->getCalledFunction()->getName().str());
    }
}
static bool repoFn(Function* f) { return f->getName().contains("4lsst") || f->getName().contains("harness"); }

static void doCall(CallBase* cb) {
    Frame& fr = S->st.back();
    std::vector<RV> args;
    for (auto& u : cb->args()) {
        if (u->getType()->isMetadataTy()) { args.emplace_back(); continue; }
        args.push_back(opv(u));
    }
    auto advance = [&](RV const& out) {
        Frame& f = S->st.back();
        if (!cb->getType()->isVoidTy()) {
            if (out.v.empty()) throw Unsupported("no result for call");
            setReg(f, cb, out);
        }
        if (auto* iv = dyn_cast<InvokeInst>(cb)) gotoBB(f, iv->getNormalDest());
        else ++f.ip;
    };
    if (auto* ii = dyn_cast<IntrinsicInst>(cb)) {
        RV out;
        intrinsic(ii, args, out);
        advance(out);
        return;
    }
    Function* f = nullptr;
    Value* cv = cb->getCalledOperand()->stripPointerCasts();
    if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
    f = dyn_cast<Function>(cv);
    if (!f) {
        if (cb->isInlineAsm()) throw Unsupported("inline asm");
        uint64_t p = (uint64_t)concretize(sv(cv));
        auto it = gFnByAddr.find(p);
        if (it == gFnByAddr.end()) { require(Val(1, (u128)0), "memory", "call through invalid function pointer"); return; }
        f = it->second;
    }
    std::string n = f->getName().str();
    RV out;
    bool noAdv = false;
    if (f->isDeclaration() || n.compare(0, 3, "vf_") == 0 || n == "__clang_call_terminate") {
        if (!builtin(n, cb, args, out, noAdv)) throw Unsupported("external function " + demangle(n) + " [" + n + "]");
        if (!noAdv) advance(out);
        return;
    }
    (void)fr;
    pushFrame(f, std::move(args), cb);
}
static void doRet(RV v, bool isVoid) {
    CallBase* cb = S->st.back().call;
    popFrame();
    if (S->st.empty()) throw PathEnd();
    Frame& f = S->st.back();
    if (!cb) return;
    if (!isVoid) setReg(f, cb, v);
    if (auto* iv = dyn_cast<InvokeInst>(cb)) gotoBB(f, iv->getNormalDest());
    else ++f.ip;
}
static Val castOp(unsigned opc, Val const& x, Type* to, Instruction* i) {
    uint32_t w = bitsOf(to);
    switch (opc) {
        case Instruction::Trunc: return trunc(x, w);
        case Instruction::ZExt: return zext(x, w);
        case Instruction::SExt: return sext(x, w);
        case Instruction::PtrToInt: case Instruction::IntToPtr: return w <= x.w ? trunc(x, w) : zext(x, w);
        case Instruction::FPTrunc: case Instruction::FPExt: return fpConv(x, w);
        case Instruction::SIToFP: return intToFp(x, w, true);
        case Instruction::UIToFP: return intToFp(x, w, false);
        case Instruction::FPToSI: case Instruction::FPToUI: {
            bool sg = opc == Instruction::FPToSI;
            if (oOverflow && repoFn(i->getFunction())) require(fpToIntOk(x, w, sg), "ub", "float to integer conversion out of range");
            return fpToInt(x, w, sg);
        }
        default: throw Unsupported("cast");
    }
}
static void step() {
    Frame& f = S->st.back();
    Instruction* I = &*f.ip;
    switch (I->getOpcode()) {
        case Instruction::Alloca: {
            auto* ai = cast<AllocaInst>(I);
            uint64_t n = (uint64_t)concretize(sv(ai->getArraySize()));
            uint64_t sz = DL->getTypeAllocSize(ai->getAllocatedType()) * n;
            uint64_t p = allocObj(*S, sz, ai->getName().str(), false, true);
            f.allocas.push_back(p);
            setReg(f, I, RV(Val(64, (u128)p)));
            break;
        }
        case Instruction::Load: {
            auto* li = cast<LoadInst>(I);
            Val p = sv(li->getPointerOperand());
            RV r = loadTy(p, li->getType());
            setReg(S->st.back(), I, r);
            break;
        }
        case Instruction::Store: {
            auto* si = cast<StoreInst>(I);
            storeTy(sv(si->getPointerOperand()), si->getValueOperand()->getType(), opv(si->getValueOperand()));
            break;
        }
        case Instruction::GetElementPtr: {
            auto* g = cast<GetElementPtrInst>(I);
            Val p = sv(g->getPointerOperand());
            for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                Value* idx = it.getOperand();
                if (StructType* st = it.getStructTypeOrNull()) {
                    uint64_t off = DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                    p = bin(Op::Add, p, Val(64, (u128)off));
                } else {
                    uint64_t sz = DL->getTypeAllocSize(it.getIndexedType());
                    Val iv = sext(sv(idx), 64);
                    p = bin(Op::Add, p, bin(Op::Mul, iv, Val(64, (u128)sz)));
                }
            }
            setReg(f, I, RV(p));
            break;
        }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
        case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        case Instruction::And: case Instruction::Or: case Instruction::Xor: {
            Op op;
            switch (I->getOpcode()) {
                case Instruction::Add: op = Op::Add; break; case Instruction::Sub: op = Op::Sub; break;
                case Instruction::Mul: op = Op::Mul; break; case Instruction::UDiv: op = Op::UDiv; break;
                case Instruction::SDiv: op = Op::SDiv; break; case Instruction::URem: op = Op::URem; break;
                case Instruction::SRem: op = Op::SRem; break; case Instruction::Shl: op = Op::Shl; break;
                case Instruction::LShr: op = Op::LShr; break; case Instruction::AShr: op = Op::AShr; break;
                case Instruction::And: op = Op::And; break; case Instruction::Or: op = Op::Or; break;
                default: op = Op::Xor;
            }
            RV x = opv(I->getOperand(0)), y = opv(I->getOperand(1)), r;
            bool user = oOverflow && repoFn(I->getFunction());
            for (size_t i = 0; i < x.v.size(); ++i) {
                Val const &p = x.v[i], &q = y.v[i];
                if (op == Op::UDiv || op == Op::SDiv || op == Op::URem || op == Op::SRem)
                    require(cmp(Cmp::NE, q, Val(q.w, (u128)0)), "ub", "division by zero");
                if (user && (op == Op::SDiv || op == Op::SRem))
                    require(notB(andB(cmp(Cmp::EQ, q, Val(q.w, ~(u128)0)), cmp(Cmp::EQ, p, Val(p.w, (u128)1 << (p.w - 1))))), "ub", "signed division overflow");
                if (user && (op == Op::Shl || op == Op::LShr || op == Op::AShr))
                    require(cmp(Cmp::ULT, q, Val(q.w, (u128)q.w)), "ub", "shift amount out of range");
                if (user && (op == Op::Add || op == Op::Sub || op == Op::Mul) && cast<OverflowingBinaryOperator>(I)->hasNoSignedWrap())
                    require(notB(ovf(op, true, p, q)), "ub", "signed integer overflow");
                r.v.push_back(bin(op, p, q));
            }
            setReg(S->st.back(), I, r);
            break;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
            FOp op = I->getOpcode() == Instruction::FAdd ? FOp::Add : I->getOpcode() == Instruction::FSub ? FOp::Sub : I->getOpcode() == Instruction::FMul ? FOp::Mul : FOp::Div;
            RV x = opv(I->getOperand(0)), y = opv(I->getOperand(1)), r;
            for (size_t i = 0; i < x.v.size(); ++i) r.v.push_back(fpBin(op, x.v[i], y.v[i]));
            setReg(f, I, r);
            break;
        }
        case Instruction::FNeg: {
            RV x = opv(I->getOperand(0)), r;
            for (auto& e : x.v) r.v.push_back(fpNeg(e));
            setReg(f, I, r);
            break;
        }
        case Instruction::FRem: setReg(f, I, RV(libm2("fmod", sv(I->getOperand(0)), sv(I->getOperand(1))))); break;
        case Instruction::ICmp: {
            auto* c = cast<ICmpInst>(I);
            Cmp p;
            switch (c->getPredicate()) {
                case CmpInst::ICMP_EQ: p = Cmp::EQ; break; case CmpInst::ICMP_NE: p = Cmp::NE; break;
                case CmpInst::ICMP_UGT: p = Cmp::UGT; break; case CmpInst::ICMP_UGE: p = Cmp::UGE; break;
                case CmpInst::ICMP_ULT: p = Cmp::ULT; break; case CmpInst::ICMP_ULE: p = Cmp::ULE; break;
                case CmpInst::ICMP_SGT: p = Cmp::SGT; break; case CmpInst::ICMP_SGE: p = Cmp::SGE; break;
                case CmpInst::ICMP_SLT: p = Cmp::SLT; break; default: p = Cmp::SLE;
            }
            RV x = opv(I->getOperand(0)), y = opv(I->getOperand(1)), r;
            for (size_t i = 0; i < x.v.size(); ++i) r.v.push_back(cmp(p, x.v[i], y.v[i]));
            setReg(f, I, r);
            break;
        }
        case Instruction::FCmp: {
            RV x = opv(I->getOperand(0)), y = opv(I->getOperand(1)), r;
            // LLVM FCmp predicate numbering: OEQ=1 OGT=2 OGE=3 OLT=4 OLE=5 ONE=6 ORD=7 UNO=8 ...
            for (size_t i = 0; i < x.v.size(); ++i) r.v.push_back(fpCmp(cast<FCmpInst>(I)->getPredicate(), x.v[i], y.v[i]));
            setReg(f, I, r);
            break;
        }
        case Instruction::Select: {
            RV c = opv(I->getOperand(0)), x = opv(I->getOperand(1)), y = opv(I->getOperand(2)), r;
            for (size_t i = 0; i < x.v.size(); ++i) r.v.push_back(ite(c.v.size() == 1 ? c.v[0] : c.v[i], x.v[i], y.v[i]));
            setReg(f, I, r);
            break;
        }
        case Instruction::Br: {
            auto* b = cast<BranchInst>(I);
            if (b->isUnconditional()) { gotoBB(f, b->getSuccessor(0)); return; }
            bool t = decide(sv(b->getCondition()));
            gotoBB(S->st.back(), b->getSuccessor(t ? 0 : 1));
            return;
        }
        case Instruction::Switch: {
            auto* sw = cast<SwitchInst>(I);
            Val c = sv(sw->getCondition());
            if (c.sym()) {
                // decide case by case
                for (auto& cs : sw->cases()) {
                    Val v = evalConst(cs.getCaseValue()).s();
                    Val e = cmp(Cmp::EQ, c, v);
                    if (decide(e)) { gotoBB(S->st.back(), cs.getCaseSuccessor()); return; }
                }
                gotoBB(S->st.back(), sw->getDefaultDest());
                return;
            }
            BasicBlock* to = sw->getDefaultDest();
            for (auto& cs : sw->cases()) if (evalConst(cs.getCaseValue()).s().c == c.c) to = cs.getCaseSuccessor();
            gotoBB(f, to);
            return;
        }
        case Instruction::Ret: {
            auto* r = cast<ReturnInst>(I);
            if (r->getReturnValue()) doRet(opv(r->getReturnValue()), false); else doRet(RV(), true);
            return;
        }
        case Instruction::Call: case Instruction::Invoke: doCall(cast<CallBase>(I)); return;
        case Instruction::Unreachable: { ensureModel(); violation("abort", "unreachable executed", S->model); throw PathEnd(); }
        case Instruction::Resume: {
            // continue unwinding from the caller of this frame
            if (S->st.size() == 1) { ensureModel(); violation("exception", "uncaught exception " + nameOfTypeinfo(S->excType), S->model); throw PathEnd(); }
            RV v = opv(I->getOperand(0));
            S->excObj = v.v[0].u64();
            popFrame();
            unwind();
            return;
        }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
        case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: {
            RV x = opv(I->getOperand(0)), r;
            for (auto& e : x.v) r.v.push_back(castOp(I->getOpcode(), e, I->getType()->getScalarType(), I));
            setReg(S->st.back(), I, r);
            break;
        }
        case Instruction::BitCast: {
            RV x = opv(I->getOperand(0)), r;
            Type *from = I->getOperand(0)->getType(), *to = I->getType();
            SmallVector<Type*, 8> fl;
            flat(to, fl);
            if (fl.size() == x.v.size()) { r = x; (void)from; }
            else {
                uint32_t tw = bitsOf(fl[0]), sw = x.v[0].w;
                if (tw > sw) {
                    unsigned k = tw / sw;
                    for (size_t i = 0; i < x.v.size(); i += k) { Val v = x.v[i]; for (unsigned j = 1; j < k; ++j) v = concat(x.v[i + j], v); r.v.push_back(v); }
                } else {
                    unsigned k = sw / tw;
                    for (auto& e : x.v) for (unsigned j = 0; j < k; ++j) r.v.push_back(extract(e, (j + 1) * tw - 1, j * tw));
                }
            }
            setReg(f, I, r);
            break;
        }
        case Instruction::ExtractValue: case Instruction::InsertValue: {
            ArrayRef<unsigned> ix = I->getOpcode() == Instruction::ExtractValue ? cast<ExtractValueInst>(I)->getIndices() : cast<InsertValueInst>(I)->getIndices();
            Type* t = I->getOperand(0)->getType();
            unsigned off = 0;
            for (unsigned k : ix) {
                if (auto* s = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < k; ++j) off += flatCount(s->getElementType(j)); t = s->getElementType(k); }
                else { auto* at = cast<ArrayType>(t); off += k * flatCount(at->getElementType()); t = at->getElementType(); }
            }
            unsigned n = flatCount(t);
            RV x = opv(I->getOperand(0)), r;
            if (I->getOpcode() == Instruction::ExtractValue) { for (unsigned j = 0; j < n; ++j) r.v.push_back(x.v[off + j]); }
            else { RV y = opv(I->getOperand(1)); r = x; for (unsigned j = 0; j < n; ++j) r.v[off + j] = y.v[j]; }
            setReg(f, I, r);
            break;
        }
        case Instruction::ExtractElement: {
            RV x = opv(I->getOperand(0));
            Val ix = sv(I->getOperand(1));
            uint64_t k = (uint64_t)concretize(ix);
            setReg(S->st.back(), I, RV(x.v[k]));
            break;
        }
        case Instruction::InsertElement: {
            RV x = opv(I->getOperand(0));
            uint64_t k = (uint64_t)concretize(sv(I->getOperand(2)));
            x.v[k] = sv(I->getOperand(1));
            setReg(S->st.back(), I, x);
            break;
        }
        case Instruction::ShuffleVector: {
            auto* sh = cast<ShuffleVectorInst>(I);
            RV x = opv(I->getOperand(0)), y = opv(I->getOperand(1)), r;
            for (int m : sh->getShuffleMask()) {
                if (m < 0) r.v.push_back(Val(x.v[0].w, (u128)0));
                else r.v.push_back((unsigned)m < x.v.size() ? x.v[m] : y.v[m - x.v.size()]);
            }
            setReg(f, I, r);
            break;
        }
        case Instruction::Freeze: setReg(f, I, opv(I->getOperand(0))); break;
        case Instruction::Fence: break;
        case Instruction::LandingPad: throw Unsupported("fallthrough to landingpad");
        default: throw Unsupported(std::string("instruction ") + I->getOpcodeName());
    }
    ++S->st.back().ip;
}
// Move the model's inputs to less regular values where the path condition allows it.
static ModelP diversify(ModelP m0) {
    if (Z3_model_get_num_funcs(Z, m0->m)) return m0;
    unsigned n = Z3_model_get_num_consts(Z, m0->m);
    std::map<Z3_func_decl, Z3_ast> cur;
    for (unsigned i = 0; i < n; ++i) {
        Z3_func_decl d = Z3_model_get_const_decl(Z, m0->m, i);
        Z3_ast v = Z3_model_get_const_interp(Z, m0->m, d);
        if (v) { Z3_inc_ref(Z, v); cur[d] = v; }
    }
    ModelP best = m0;
    unsigned budget = 60;
    for (auto& in : S->inputs) {
        if (!in.v.sym() || Z3_get_sort_kind(Z, Z3_get_sort(Z, in.v.a)) != Z3_BV_SORT || in.v.w > 64) continue;
        if (Z3_get_app_num_args(Z, Z3_to_app(Z, in.v.a)) != 0) continue;
        for (int t = 0; t < 3 && budget; ++t, --budget) {
            uint64_t r = ((uint64_t)rng() << 32) ^ rng();
            if (t == 1) r >>= rng() % 60;
            if (t == 2) r = best->eval(in.v).u64() + rng() % 1000;
            Z3_model bm = Z3_mk_model(Z);
            ModelP mp = std::make_shared<Model>(bm);
            Z3_func_decl me = Z3_get_app_decl(Z, Z3_to_app(Z, in.v.a));
            Z3_ast nv = toAst(Val(in.v.w, (u128)r));
            for (auto& c : cur) if (c.first != me) Z3_add_const_interp(Z, bm, c.first, c.second);
            Z3_add_const_interp(Z, bm, me, nv);
            bool ok = true;
            for (auto a : S->pc) if (!mp->evalBool(Val(1, a))) { ok = false; break; }
            if (ok) { best = mp; cur[me] = nv; break; }
        }
    }
    return best;
}
static void finishPath(bool completed) {
    R.paths++;
    R.steps += S->steps;
    for (auto& t : S->reached) R.reached.insert(t);
    if (!completed) return;
    // sample some completed paths for native validation
    static uint64_t seen = 0;
    ++seen;
    bool take = R.samples.size() < oSamples;
    size_t slot = R.samples.size();
    if (!take && oSamples) { uint64_t k = rng() % seen; if (k < oSamples) { take = true; slot = k; } }
    if (take) {
        try { ensureModel(); } catch (PathEnd&) { return; }
        if (!S->model) return;
        S->model = diversify(S->model);
        std::string j = "{\"inputs\":[";
        bool first = true;
        for (auto& p : inputsUnder(S->model)) { j += (first ? "" : ",") + std::string("[") + jstr(p.first) + "," + jstr(p.second) + "]"; first = false; }
        j += "],\"obs\":[";
        first = true;
        for (auto& o : S->obs) { Val v = S->model->eval(o); j += (first ? "" : ",") + jstr(hex(v.c)); first = false; }
        j += "],\"asserts\":" + std::to_string(S->asserts) + ",\"reached\":[";
        first = true;
        for (auto& t : S->reached) { j += (first ? "" : ",") + jstr(t); first = false; }
        j += "]}";
        if (slot < R.samples.size()) R.samples[slot] = j; else R.samples.push_back(j);
    }
}
static uint64_t rssMB() {
    std::ifstream f("/proc/self/statm");
    uint64_t a = 0, b = 0;
    f >> a >> b;
    return b * 4096 / 1048576;
}
static bool stopAll() {
    if (now() - tStart > oTime) { R.timeout = true; return true; }
    if (gShared ? gShared[1].load() >= oMaxViol : R.viol.size() >= oMaxViol) return true;
    static unsigned k = 0;
    if (++k % 256 == 0 && rssMB() > oMemMB) { R.timeout = true; return true; }
    return false;
}
static void runState(StateP sp) {
    S = sp.get();
    bool completed = false;
    try {
        uint64_t lastCheck = 0;
        for (;;) {
            if (S->st.empty()) { completed = true; break; }
            step();
            if (++S->steps > oMaxSteps) {
                R.stepLimit++;
                ensureModel();
                if (S->model) violation("nontermination", "path exceeds the step bound", S->model);
                break;
            }
            if (S->steps - lastCheck > 2000) { lastCheck = S->steps; if (stopAll()) { R.killed++; break; } }
        }
    } catch (PathEnd&) {
        completed = S->st.empty();
    } catch (Unsupported& u) {
        std::string w = std::string(u.what()) + " at " + whereAmI();
        bool dup = false;
        for (auto& x : R.unsupported) if (x == w) dup = true;
        if (!dup && R.unsupported.size() < 20) R.unsupported.push_back(w);
        R.killed++;
    }
    finishPath(completed);
    S = nullptr;
}
static void writeResults(std::string const& fn) {
    std::ofstream o(fn);
    auto list = [&](auto const& c) { o << "["; bool f = true; for (auto& x : c) { o << (f ? "" : ",") << jstr(x); f = false; } o << "]"; };
    o << "{\"paths\":" << R.paths << ",\"steps\":" << R.steps << ",\"forks\":" << R.forks << ",\"asserts\":" << R.asserts << ",\"checks\":" << R.checks
      << ",\"assertQueries\":" << R.assertQueries << ",\"undecided\":" << R.undecided << ",\"bothWays\":" << R.bothWays << ",\"stepLimit\":" << R.stepLimit << ",\"killed\":" << R.killed
      << ",\"timeout\":" << (R.timeout ? "true" : "false") << ",\"pending\":" << work.size()
      << ",\"queries\":" << gStats.queries << ",\"sat\":" << gStats.sat << ",\"unsat\":" << gStats.unsat << ",\"unknown\":" << gStats.unknown
      << ",\"oneshot\":" << gStats.oneshot << ",\"external\":" << gStats.external << ",\"lia\":" << gStats.lia << ",\"liaMiss\":" << gStats.liaMiss << ",\"fpRefine\":" << gStats.fpRefine << ",\"modelHits\":" << gStats.modelHits
      << ",\"solverSecs\":" << gStats.secs << ",\"maxQuerySecs\":" << gStats.maxSecs << ",\"wall\":" << (now() - tStart) << ",\"rssMB\":" << rssMB();
    o << ",\"reached\":"; list(R.reached);
    o << ",\"functions\":"; list(R.functions);
    o << ",\"stubs\":"; list(R.stubs);
    o << ",\"unsupported\":"; list(R.unsupported);
    o << ",\"undecidedWhere\":"; list(R.undecidedWhere);
    o << ",\"assertIds\":{";
    bool f = true;
    for (auto& p : R.assertIds) { o << (f ? "" : ",") << jstr(p.first) << ":" << p.second; f = false; }
    o << "},\"samples\":[";
    f = true;
    for (auto& s : R.samples) { o << (f ? "" : ",") << s; f = false; }
    o << "],\"violations\":[";
    f = true;
    for (auto& v : R.viol) {
        o << (f ? "" : ",") << "{\"kind\":" << jstr(v.kind) << ",\"msg\":" << jstr(v.msg) << ",\"where\":" << jstr(v.where) << ",\"inputs\":[";
        bool g = true;
        for (auto& p : v.inputs) { o << (g ? "" : ",") << "[" << jstr(p.first) << "," << jstr(p.second) << "]"; g = false; }
        o << "]}";
        f = false;
    }
    o << "]}\n";
}
static StateP initialState(Function* entry) {
    StateP s = std::make_unique<State>();
    S = s.get();
    // constructors first (in reverse push order so that they run in sequence)
    std::vector<Function*> ctors;
    if (auto* g = M->getNamedGlobal("llvm.global_ctors"))
        if (auto* a = dyn_cast<ConstantArray>(g->getInitializer())) {
            std::vector<std::pair<uint64_t, Function*>> v;
            for (auto& e : a->operands()) {
                auto* cs = cast<ConstantStruct>(e);
                v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cast<Function>(cs->getOperand(1)->stripPointerCasts())});
            }
            std::stable_sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.first < y.first; });
            for (auto& p : v) ctors.push_back(p.second);
        }
    pushFrame(entry, {}, nullptr);
    for (size_t i = ctors.size(); i-- > 0;) pushFrame(ctors[i], {}, nullptr);
    S = nullptr;
    return s;
}
// Frames pushed by initialState have no call instruction: returning resumes the frame below at its ip.

int main(int argc, char** argv) {
    std::string in;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&](const char* p) { return a.substr(strlen(p)); };
        if (a.rfind("--entry=", 0) == 0) oEntry = val("--entry=");
        else if (a.rfind("--out=", 0) == 0) oOut = val("--out=");
        else if (a.rfind("--jobs=", 0) == 0) oJobs = std::stoi(val("--jobs="));
        else if (a.rfind("--time=", 0) == 0) oTime = std::stod(val("--time="));
        else if (a.rfind("--branch-ms=", 0) == 0) gSolverOpts.branchMs = std::stoi(val("--branch-ms="));
        else if (a.rfind("--max-steps=", 0) == 0) oMaxSteps = std::stoull(val("--max-steps="));
        else if (a.rfind("--max-viol=", 0) == 0) oMaxViol = std::stoull(val("--max-viol="));
        else if (a.rfind("--samples=", 0) == 0) oSamples = std::stoull(val("--samples="));
        else if (a.rfind("--seed=", 0) == 0) oSeed = std::stoul(val("--seed="));
        else if (a.rfind("--mem=", 0) == 0) oMemMB = std::stoull(val("--mem="));
        else if (a == "--no-overflow") oOverflow = false;
        else if (a == "--fp=uf") gFpUF = true;
        else if (a == "--fp=exact") gFpUF = false;
        else if (a == "--oneshot") gSolverOpts.oneshotFirst = true;
        else if (a == "--lia") gSolverOpts.lia = true;
        else if (a == "--no-lia") gSolverOpts.lia = false;
        else if (a == "--no-inc") gSolverOpts.noInc = true;
        else if (a.rfind("--tactic=", 0) == 0) gSolverOpts.tactic = val("--tactic=");
        else if (a.rfind("--logic=", 0) == 0) gSolverOpts.logic = val("--logic=");
        else if (a.rfind("--dump-ms=", 0) == 0) gSolverOpts.dumpMs = std::stoul(val("--dump-ms="));
        else if (a.rfind("--lia-ms=", 0) == 0) gSolverOpts.liaMs = std::stoul(val("--lia-ms="));
        else if (a.rfind("--inc-ms=", 0) == 0) gSolverOpts.incMs = std::stoul(val("--inc-ms="));
        else if (a.rfind("--one-ms=", 0) == 0) gSolverOpts.oneMs = std::stoul(val("--one-ms="));
        else if (a.rfind("--ext-ms=", 0) == 0) gSolverOpts.extMs = std::stoul(val("--ext-ms="));
        else if (a.rfind("--ext=", 0) == 0) gSolverOpts.ext = val("--ext=");
        else if (a.rfind("--dump=", 0) == 0) gSolverOpts.dump = val("--dump=");
        else if (a == "--trace") oTrace = true;
        else if (a[0] == '-') { std::cerr << "unknown option " << a << "\n"; return 2; }
        else in = a;
    }
    tStart = now();
    gSolverOpts.deadline = tStart + oTime;
    rng.seed(oSeed);
    exprInit(); gKnown = knownLit;
    LLVMContext ctx;
    SMDiagnostic err;
    M = parseIRFile(in, err, ctx);
    if (!M) { err.print("symex", errs()); return 2; }
    DL = &M->getDataLayout();
    Function* entry = M->getFunction(oEntry);
    if (!entry || entry->isDeclaration()) { std::cerr << "no entry " << oEntry << "\n"; return 2; }
    // give every address-taken function an address up front (vtables)
    for (auto& f : *M) addrOfGlobal(&f);
    for (auto& g : M->globals()) if (!g.getName().starts_with("llvm.")) addrOfGlobal(&g);
    try {
        work.push_back(initialState(entry));
        if (oJobs > 1) {
            // breadth first until there is enough work to share
            size_t want = (size_t)oJobs * 8;
            while (!work.empty() && work.size() < want && !stopAll() && now() - tStart < 30) {
                StateP s = std::move(work.front());
                work.pop_front();
                // run until first fork grows the queue: runState runs to completion of this path
                runState(std::move(s));
            }
            if (work.size() > 1 && !stopAll()) {
                gShared = (std::atomic<uint64_t>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
                new (gShared) std::atomic<uint64_t>[3]{};
                gShared[1] = R.viol.size();
                std::deque<StateP> initial = std::move(work);
                work.clear();
                std::vector<pid_t> kids;
                for (int j = 0; j < oJobs; ++j) {
                    pid_t p = fork();
                    if (p == 0) {
                        R = Results();
                        gStats = SolverStats();
                        rng.seed(oSeed * 1000 + j);
                        int rc = 0;
                        try {
                            for (;;) {
                                uint64_t k = gShared[0]++;
                                if (k >= initial.size() || stopAll()) break;
                                work.push_back(std::move(initial[k]));
                                while (!work.empty() && !stopAll()) {
                                    StateP s = std::move(work.back());
                                    work.pop_back();
                                    runState(std::move(s));
                                }
                                if (!work.empty()) break;
                            }
                        } catch (std::exception& e) { R.unsupported.push_back(std::string("engine: ") + e.what()); rc = 0; }
                        writeResults(oOut + "." + std::to_string(j));
                        _exit(rc);
                    }
                    kids.push_back(p);
                }
                bool bad = false;
                for (auto p : kids) { int st = 0; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true; }
                if (bad) R.unsupported.push_back("engine: worker process died");
                writeResults(oOut);
                fflush(nullptr);
                _exit(0);
            }
        }
        while (!work.empty() && !stopAll()) {
            StateP s = std::move(work.back());
            work.pop_back();
            runState(std::move(s));
        }
    } catch (std::exception& e) {
        R.unsupported.push_back(std::string("engine: ") + e.what());
    }
    writeResults(oOut);
    fflush(nullptr);
    _exit(0);
}
