// Path-condition solving: incremental Z3 aligned with the DFS path, one-shot fallbacks.
#pragma once
#include "expr.h"
#include <memory>
#include <vector>

struct Model {  // refcounted z3 model
    Z3_model m = nullptr;
    explicit Model(Z3_model x) : m(x) { if (m) Z3_model_inc_ref(Z, m); }
    ~Model() { if (m) Z3_model_dec_ref(Z, m); }
    Model(Model const&) = delete;
    // value of a term under the model (model completion)
    Val eval(Val const& v) const;
    bool evalBool(Val const& v) const { Val r = eval(v); return !r.sym() && r.c; }
};
using ModelP = std::shared_ptr<Model>;
enum class Sat { Yes, No, Unknown };

struct SolverStats {
    uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, oneshot = 0, external = 0, modelHits = 0, lia = 0, liaMiss = 0, fpRefine = 0;
    double secs = 0, maxSecs = 0;
};
extern SolverStats gStats;
struct SolverOpts {
    unsigned liaMs = 500, dumpMs = 2000, incMs = 1500, oneMs = 60000, extMs = 60000, fpRounds = 60, branchMs = 2500;
    double deadline = 1e300;      // absolute; queries return Unknown soon after it
    bool oneshotFirst = false, noInc = false, lia = true;
    std::string logic = "";       // logic of the incremental solver ("" = Z3's general core)
    std::string tactic = "";      // custom tactic for one-shot queries
    std::string ext = "cvc5";     // external solver, "" = none
    std::string dump = "";        // directory to dump slow queries into
};
extern SolverOpts gSolverOpts;

Sat solve(std::vector<Z3_ast> const& pc, Val const& extra, ModelP* out, bool assertQuery = false, bool full = true);
