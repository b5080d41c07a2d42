// H05: sets of collinear intervals under union and difference; all operation sequences up to a depth.
#include "geo.hpp"
#include <geometrix/utility/utilities.hpp>
#include <set>
using namespace gx;
typedef std::set<S2, segment_interval_compare<AbsCmp>> Set;
static const I2 DIR[] = {{1, 0}, {0, 1}, {1, 1}, {2, -1}, {-1, 0}, {-3, -2}};

static void seq(u64 i, Ctx& x, int N, int depth) {
    Dec d(i); int di = d(6); const Frame& f = FR[di == 3 ? 5 : di == 4 ? 3 : 0];
    AbsCmp cmp(1e-10);
    Set s{segment_interval_compare<AbsCmp>(cmp)};
    unsigned m = 0;     // unit cells covered
    std::string ops;
    struct Op { int u, a, b; } op[8];
    for (int k = 0; k < depth; ++k) { op[k].u = d(2); op[k].a = d(N); op[k].b = d(N - 1); if (op[k].b >= op[k].a) ++op[k].b; }
    if (x.verbose) { char b[64]; for (int k = 0; k < depth; ++k) { snprintf(b, sizeof b, " %c(%d,%d)", op[k].u ? '+' : '-', op[k].a, op[k].b); ops += b; } }
    x.in("direction (%lld,%lld):%s", (long long)DIR[di].x, (long long)DIR[di].y, ops.c_str());
    for (int k = 0; k < depth; ++k) {
        S2 g(f(op[k].a * DIR[di]), f(op[k].b * DIR[di]));
        int lo = std::min(op[k].a, op[k].b), hi = std::max(op[k].a, op[k].b);
        unsigned c = ((1u << (hi - lo)) - 1) << lo;
        if (op[k].u) { collinear_segment_union(s, g, cmp); m |= c; } else { collinear_segment_difference(s, g, cmp); m &= ~c; }
        // read the set back as cells; each maximal run must be exactly one element
        std::vector<std::pair<int, int>> runs, got;
        for (int j = 0; j < N; ++j) if (m >> j & 1) { int e = j; while (m >> e & 1) ++e; runs.push_back({j, e}); j = e; }
        bool grid = true;
        auto at = [&](const P2& p) { for (int j = 0; j < N; ++j) if (same(p, f(j * DIR[di]))) return j; grid = false; return -1; };
        for (auto& e : s) { int p = at(get_start(e)), q = at(get_end(e)); got.push_back({std::min(p, q), std::max(p, q)}); }
        bool fwd = true; { auto g2 = got; if (got.size() > 1 && got[0].first > got[1].first) std::reverse(g2.begin(), g2.end()), fwd = false; got = g2; }
        x.check(grid, "operation %d made an end point that none of the operations mention", k);
        std::string t; if (x.verbose) for (auto& e : got) { char b[32]; snprintf(b, sizeof b, "[%d,%d]", e.first, e.second); t += b; }
        x.check(got == runs, "after operation %d the set is %s, covered cells are %x", k, t.c_str(), m);
        if (x.failed) return;
        x.state(mc::H(di, m, s.size()));
    }
}
static u64 cnt(int N, int depth) { u64 r = 6; while (depth--) r *= 2 * N * (N - 1); return r; }
MC_SPACE("sequences6d3", "all sequences of 3 unions/differences of directed intervals between 6 points, 6 line directions", cnt(6, 3), [](u64 i, Ctx& x) { seq(i, x, 6, 3); });
MC_SPACE("sequences5d4", "all sequences of 4 operations, 5 points, 6 line directions", 0, cnt(5, 4), [](u64 i, Ctx& x) { seq(i, x, 5, 4); });
MC_SPACE("sequences8d3", "all sequences of 3 operations, 8 points, 6 line directions", 0, cnt(8, 3), [](u64 i, Ctx& x) { seq(i, x, 8, 3); });
// every reachable set of cells as a state (its elements directed forwards, backwards or in turns), every operation as a transition
static void trans(u64 i, Ctx& x, int N) {
    Dec d(i); int di = d(6), how = d(3), u = d(2), a = d(N), b = d(N - 1); if (b >= a) ++b; unsigned m = d.v; const Frame& f = FR[di == 3 ? 5 : di == 4 ? 3 : 0]; AbsCmp cmp(1e-10);
    Set s{segment_interval_compare<AbsCmp>(cmp)}; int e = 0;
    for (int j = 0; j < N; ++j) if (m >> j & 1) { int k = j; while (m >> k & 1) ++k; bool back = how == 1 || (how == 2 && e & 1); ++e; s.insert(S2(f((back ? k : j) * DIR[di]), f((back ? j : k) * DIR[di]))); j = k; }
    x.in("direction (%lld,%lld), %d intervals %x: %c(%d,%d)", (long long)DIR[di].x, (long long)DIR[di].y, e, m, u ? '+' : '-', a, b); if (!x.check(int(s.size()) == e, "%zu elements", s.size())) return;
    S2 g(f(a * DIR[di]), f(b * DIR[di])); int lo = std::min(a, b), hi = std::max(a, b); unsigned c = ((1u << (hi - lo)) - 1) << lo;
    if (u) { collinear_segment_union(s, g, cmp); m |= c; } else { collinear_segment_difference(s, g, cmp); m &= ~c; }
    std::vector<std::pair<int, int>> runs, got; for (int j = 0; j < N; ++j) if (m >> j & 1) { int k = j; while (m >> k & 1) ++k; runs.push_back({j, k}); j = k; }
    auto at = [&](const P2& p) { for (int j = 0; j < N; ++j) if (same(p, f(j * DIR[di]))) return j; return -1; };
    for (auto& q : s) { int p = at(get_start(q)), r = at(get_end(q)); got.push_back({std::min(p, r), std::max(p, r)}); } if (got.size() > 1 && got[0].first > got[1].first) std::reverse(got.begin(), got.end());
    x.check(got == runs, "the set has %zu elements, %zu intervals are covered", got.size(), runs.size()); x.outcome((int)runs.size()); x.state(mc::H(di, m, u));
}
// many intervals: unions of every s-th one of n in some order, then differences or unions that split, join and swallow them
MC_SPACE("many", "sets of 33, 66, 131 and 259 intervals, united in steps of 1..6, then every 3rd (of 4 phases) of them cut, joined or swallowed by intervals of 1..5 and of all lengths, 6 line directions", 6ull * 4 * 6 * 2 * 4 * 6, [](u64 i, Ctx& x) {
    Dec d(i); int di = d(6), n = std::array<int, 4>{33, 66, 131, 259}[d(4)], st = 1 + d(6), u = d(2), ph = d(4), len = d(6), N = 4 * n; if (n % st == 0 && st > 1) ++st; if (n % st == 0 && st > 1) ++st; if (len == 5) len = N / 2; else ++len; const Frame& f = FR[di == 3 ? 5 : 0]; AbsCmp cmp(1e-7);
    Set s{segment_interval_compare<AbsCmp>(cmp)}; std::vector<char> m(N + 1, 0); auto P = [&](int j) { return f(j * DIR[di]); };
    auto op = [&](int a, int b, bool un, bool back) { S2 g(P(back ? b : a), P(back ? a : b)); if (un) collinear_segment_union(s, g, cmp); else collinear_segment_difference(s, g, cmp); for (int j = a; j < b; ++j) m[j] = un; };
    auto ok = [&](const char* w) { std::vector<std::pair<int, int>> runs; for (int j = 0; j < N; ++j) if (m[j]) { int k = j; while (m[k]) ++k; runs.push_back({j, k}); j = k; } std::vector<std::pair<P2, P2>> got; for (auto& e : s) got.push_back({get_start(e), get_end(e)}); size_t k = 0; bool good = got.size() == runs.size(); if (good && got.size() > 1 && !same(got[0].first, P(runs[0].first)) && !same(got[0].second, P(runs[0].first))) std::reverse(got.begin(), got.end());
        for (; good && k < runs.size(); ++k) { P2 a = P(runs[k].first), b = P(runs[k].second); good = (same(got[k].first, a) && same(got[k].second, b)) || (same(got[k].first, b) && same(got[k].second, a)); } x.check(good, "%s: %zu elements, %zu intervals covered, first differing %zu", w, got.size(), runs.size(), k); };
    x.in("direction (%lld,%lld), %d intervals in steps of %d, then %s from phase %d of length %d", (long long)DIR[di].x, (long long)DIR[di].y, n, st, u ? "unions" : "differences", ph, len);
    for (int k = 0; k < n; ++k) { int j = int(i64(k) * st % n); op(4 * j, 4 * j + 3, true, k & 1); } ok("after the unions"); if (x.failed) return;
    for (int k = 0; k < n; k += 3) { int a = 4 * k + ph; if (a + len > N) break; op(a, a + len, u, k & 2); } ok("after the second pass"); x.state(mc::H(i)); });
MC_SPACE("transitions10", "every set of intervals between 10 points (its elements directed forwards, backwards, in turns) and every union and difference applied to it, 6 line directions", 36ull * 90 * 512, [](u64 i, Ctx& x) { trans(i, x, 10); });
MC_SPACE("transitions16", "every set of intervals between 16 points (its elements directed forwards, backwards, in turns) and every union and difference applied to it, 6 line directions", 0, 36ull * 240 * 32768, [](u64 i, Ctx& x) { trans(i, x, 16); });
