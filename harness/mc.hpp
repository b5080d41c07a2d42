// A small explicit-state / stateless explorer for sequential C++ code.
//
// A harness registers *spaces*.  A space is a finite set of cases 0..n-1; the case index is decoded
// (mixed radix, see Dec) into one complete behaviour: an input configuration or an operation sequence,
// which is executed on the real Geometrix code and compared, step by step, with a reference model.
// Every index of every space is executed (no sampling).  Cases are distributed over forked workers; an
// assertion (SIGTRAP), a crash, an escaped exception and a hang are attributed to the case that caused
// them.  Each failing case is replayed twice in a fresh process before it is reported.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <algorithm>
#include <initializer_list>

namespace mc {

using u64 = std::uint64_t;
using i64 = std::int64_t;

// Mixed radix decoder of a case index: least significant digit first.
struct Dec {
    u64 v;
    explicit Dec(u64 i) : v(i) {}
    int operator()(u64 radix) { int d = int(v % radix); v /= radix; return d; }
};

struct FailStop {};

class Ctx {
public:
    bool verbose = false;   // replay: collect the textual description of the case
    std::string text;       // description of the case (inputs), used as the identity of a finding
    std::string log;        // step log, replay only
    bool failed = false;
    std::string message;
    u64 transitions = 0, states = 0, skipped = 0;
    bool case_skipped = false;

    // describe the input; cheap when not verbose
    void in(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    // a comparison of the implementation with the model (one transition)
    bool check(bool ok, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    // count a transition that was compared
    void step(u64 n = 1) { transitions += n; }
    // a model state, identified by a hash: counted once over the whole run
    void state(u64 h);
    // the case is outside the precondition of the property
    void skip() { case_skipped = true; }
    // label of what was observed (non-vacuity)
    void outcome(const char* label);
    void outcome(int small);   // 0..31
    void reset() { text.clear(); log.clear(); failed = false; message.clear(); case_skipped = false; }
};

using CaseFn = std::function<void(u64, Ctx&)>;

struct Space {
    std::string name;
    std::string bounds;     // text for the evidence
    u64 n_quick, n_thorough;
    CaseFn fn;
    bool thorough_only;
};

std::vector<Space>& spaces();

struct Reg {
    // n cases in both tiers
    Reg(const char* name, const char* bounds, u64 n, CaseFn fn) { spaces().push_back({name, bounds, n, n, fn, false}); }
    // the quick tier covers the prefix 0..nq-1
    Reg(const char* name, const char* bounds, u64 nq, u64 nt, CaseFn fn) { spaces().push_back({name, bounds, nq, nt, fn, nq == 0}); }
};

// a family of `per` cases for each of nq (thorough: nt) sizes, the size being the leading digit, and the same for the four
// sizes big_n(40..43) of 33, 66, 131 and 259
struct RegSizes {
    RegSizes(const char* name, const char* bounds, u64 per, u64 nq, u64 nt, CaseFn fn) {
        spaces().push_back({name, bounds, per * nq, per * nt, fn, nq == 0});
        spaces().push_back({std::string(name) + "-huge", std::string("the same with 33, 66, 131 and 259 vertices (combs, stairs, ribbons, zigzags, spirals, saws): ") + bounds, per * 4, per * 4, [fn, per](u64 i, Ctx& x) { fn(i + per * 40, x); }, false});
    }
};

bool thorough();   // current tier

inline u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
inline u64 hash_bytes(const void* p, std::size_t n, u64 h = 1469598103934665603ull) {
    auto c = static_cast<const unsigned char*>(p);
    for (std::size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
template <typename... T> inline u64 H(T... t) { u64 h = 0x1234567; int d[] = {0, (h = mix(h, u64(i64(t))), 0)...}; (void)d; return h; }

inline bool close(double a, double b, double tol = 1e-9) {
    double m = std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
    return std::fabs(a - b) <= tol * m;
}

int main_(int argc, char** argv);

} // namespace mc

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SIZES(...) static ::mc::RegSizes MC_CAT(mc_reg_, __COUNTER__)(__VA_ARGS__)
#define MC_SPACE(...) static ::mc::Reg MC_CAT(mc_reg_, __COUNTER__)(__VA_ARGS__)
