// H08: curvature of polylines, inflection points and splits.
#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/point_sequence/curvature.hpp>
using namespace gx;
typedef std::vector<I2> R; typedef long double ld;
static bool near(ld a, ld b) { return fabsl(a - b) <= 1e-8L * std::max<ld>(1, fabsl(b)); }
static std::string SL(const L2& l) { std::string s; char b[80]; for (auto& p : l) { snprintf(b, sizeof b, "(%.9g,%.9g)", X(p), Y(p)); s += b; } return s; }
// pieces cut at the given (inner) indices
static bool pieces(const std::vector<L2>& v, const R& r, const std::vector<int>& cut, const Frame& f) { size_t lo = 0, k = 0; for (size_t c = 0; c <= cut.size(); ++c) { size_t hi = c < cut.size() ? cut[c] : r.size() - 1; if (hi == lo) continue; if (k >= v.size() || v[k].size() != hi - lo + 1) return false; for (size_t i = lo; i <= hi; ++i) if (!same(v[k][i - lo], f(r[i]))) return false; lo = hi; ++k; } return k == v.size(); }
static void curv(Ctx& x, const R& r, const Frame& f) {
    int k = r.size(); for (int j = 1; j < k; ++j) if (r[j] == r[j - 1] || (j > 1 && r[j] == r[j - 2])) return x.skip();
    x.in("polyline %s, %s", str(r).c_str(), f.name); L2 l = mk<L2>(r, f); std::vector<ld> K(k, 0), T(k, 0); std::vector<int> S(k, 0); ld tot = 0, abst = 0;
    for (int j = 1; j + 1 < k; ++j) { I2 a = r[j - 1], b = r[j], c = r[j + 1]; ld A = sqrtl(dot(b - a, b - a)), B = sqrtl(dot(c - b, c - b)), C = sqrtl(dot(c - a, c - a)); i64 o = orient(a, b, c) * f.orient; S[j] = o < 0; K[j] = 2.L * o / (A * B * C) / f.scale; T[j] = .5L * (A + B) * 2.L * o / (A * B * C); tot += T[j]; abst += fabsl(T[j]); }
    for (int j = 0; j < k; ++j) { double c = polyline_signed_curvature_at_index(l, j), t = polyline_total_curvature_over_index(l, j); x.check(near(c, K[j]), "curvature at %d: %.12g, true %.12Lg", j, c, K[j]); x.check(near(t, fabsl(T[j])), "total curvature at %d: %.12g, true %.12Lg", j, t, fabsl(T[j])); }
    x.check(near(polyline_total_curvature(l), tot), "total curvature %.12g, true %.12Lg", polyline_total_curvature(l), tot); x.check(near(polyline_total_absolute_curvature(l), abst), "total absolute curvature %.12g, true %.12Lg", polyline_total_absolute_curvature(l), abst);
    if (f.exact) { std::vector<int> in; for (int j = 1; j < k; ++j) if (S[j] != S[j - 1]) in.push_back(j); auto g = inflection_points(l); bool ok = g.size() == in.size(); for (size_t j = 0; ok && j < in.size(); ++j) ok = (int)g[j] == in[j]; x.check(ok, "%zu inflection points, true %zu", g.size(), in.size());
        auto v = split_polyline_by_inflection_points(l); std::string s; for (auto& q : v) s += SL(q) + " "; x.check(pieces(v, r, in, f), "split at the inflection points: %s", s.c_str()); x.outcome(in.size() > 2 ? "several turns" : in.size() ? "one turn" : "straight"); }
    for (double lim : {.3, .71, 1.9, 2.77, 4.1}) { std::vector<int> cut; ld s = 0; bool tie = false; for (int j = 1; j < k; ++j) { s += fabsl(T[j]); tie = tie || fabsl(s - lim) < 1e-9; if (s > lim) { cut.push_back(j); s = 0; } } if (tie) continue; auto v = split_by_total_curvature(l, lim); std::string t; for (auto& q : v) t += SL(q) + " "; x.check(pieces(v, r, cut, f), "split by curvature %g: %s", lim, t.c_str()); }
}
static void cs(u64 i, Ctx& x, int k, int W, int nf) {
    Dec d(i); const Frame& f = FR[nf == 8 ? d(8) : d(nf) * 5]; R r; for (int j = 0; j < k; ++j) r.push_back(gp(d(W * W), W)); curv(x, r, f); x.state(mc::H(i, k, W)); }
MC_SPACE("short", "all polylines of 2 and 3 points of a 4x4 grid without repeated points and reversals, 8 frames", 8ull * (256 + 4096), [](u64 i, Ctx& x) { if (i < 2048) cs(i, x, 2, 4, 8); else cs(i - 2048, x, 3, 4, 8); });
MC_SPACE("four", "all 4-point polylines of a 3x3 grid, 8 frames", 8ull * 6561, [](u64 i, Ctx& x) { cs(i, x, 4, 3, 8); });
MC_SPACE("five", "all 5-point polylines of a 3x3 grid, 2 frames", 2ull * 59049, [](u64 i, Ctx& x) { cs(i, x, 5, 3, 2); });
MC_SPACE("six", "all 6-point polylines of a 3x3 grid, 2 frames", 2ull * 531441, [](u64 i, Ctx& x) { cs(i, x, 6, 3, 2); });
MC_SIZES("sizes", BIG ", as polylines, 8 frames", 8 * BIGQ / 20, 20, 40, [](u64 i, Ctx& x) { Dec d(i); const Frame& f = FR[d(8)]; auto r = big_any(d); if (r.empty()) return x.skip(); curv(x, r, f); x.state(mc::H(i)); });
MC_SPACE("giant", "a comb, stairs and a zigzag of 66001 points, both directions, 2 frames", 2ull * 2 * 3, [](u64 i, Ctx& x) { Dec d(i); const Frame& f = FR[d(2) * 4]; bool rev = d(2); int k = d(3); curv(x, turned(k < 2 ? big_ring(3 * k, GIANT) : big_chain(0, GIANT), 0, rev), f); x.state(mc::H(i)); });
MC_SPACE("seven", "all 7-point polylines of a 3x3 grid, 2 frames", 0, 2ull * 4782969, [](u64 i, Ctx& x) { cs(i, x, 7, 3, 2); });
