// Native side of the harness API: replays recorded inputs against the real code.
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unistd.h>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>

static std::vector<std::pair<std::string, uint64_t>> in;
static size_t pos = 0;
static uint64_t nasserts = 0;
static FILE* out = nullptr;
static uint64_t next(const char* name) {
    if (pos >= in.size()) { fprintf(out, "EXHAUSTED %s\n", name); fflush(out); _exit(78); }
    if (in[pos].first != name) { fprintf(out, "MISMATCH %s %s\n", name, in[pos].first.c_str()); fflush(out); _exit(78); }
    return in[pos++].second;
}
extern "C" {
uint64_t vf_nondet(const char* name, unsigned bits) { uint64_t v = next(name); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
uint64_t vf_choose(const char* name, uint64_t) { return next(name); }
void vf_assume(bool c) { if (!c) { fprintf(out, "ASSUME-FALSE\n"); fflush(out); _exit(77); } }
void vf_assert_(bool c, const char* msg) { ++nasserts; if (!c) { fprintf(out, "ASSERT-FAIL %s\n", msg); fflush(out); if (!getenv("VF_CONTINUE")) _exit(42); } }
void vf_reach(const char* tag) { fprintf(out, "REACH %s\n", tag); }
void vf_observe(uint64_t v) { fprintf(out, "OBS 0x%llx\n", (unsigned long long)v); }
bool vf_split(bool c) { return c; }
uint64_t vf_concrete(uint64_t v) { return v; }
bool vf_sumeq(const uint64_t* v, const uint32_t* s, unsigned n, const uint64_t* w, const uint32_t* t, unsigned m) {
    uint32_t x[2][18] = {};
    for (int k = 0; k < 2; ++k)
        for (unsigned i = 0; i < (k ? m : n); ++i) {
            unsigned sh = k ? t[i] : s[i];
            unsigned __int128 a = (unsigned __int128)(k ? w[i] : v[i]) << (sh & 31);
            for (unsigned j = sh >> 5; j < 18 && a; ++j) { a += x[k][j]; x[k][j] = (uint32_t)a; a >>= 32; }
        }
    return !memcmp(x[0], x[1], sizeof x[0]);
}
uint64_t vf_ite64(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
bool vf_symbolic() { return false; }
void vf_stop() { fprintf(out, "STOP\n"); fflush(out); _exit(0); }
void vf_unsupported() { vf_stop(); _exit(0); }
void VF_ENTRY();
}
static void onTerminate() {
    const std::type_info* t = abi::__cxa_current_exception_type();
    fprintf(out, "EXCEPTION %s\n", t ? t->name() : "none");
    fflush(out);
    _exit(43);
}
int main(int argc, char** argv) {
    out = stdout;
    if (argc < 2) return 2;
    FILE* f = fopen(argv[1], "r");
    if (!f) return 2;
    char name[256]; char val[128];
    while (fscanf(f, "%255s %127s", name, val) == 2) in.push_back({name, strtoull(val, nullptr, 0)});
    fclose(f);
    std::set_terminate(onTerminate);
    alarm(20);
    VF_ENTRY();
    fprintf(out, "DONE asserts=%llu\n", (unsigned long long)nasserts);
    fflush(out);
    return 0;
}
