// H03: offset of a polyline.
#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/point_sequence/polyline_offset.hpp>
using namespace gx;
typedef std::vector<I2> R; typedef long double ld;
static std::string SL(const L2& l) { std::string s; char b[80]; for (auto& p : l) { snprintf(b, sizeof b, "(%.9g,%.9g)", X(p), Y(p)); s += b; } return s; }
static void off(Ctx& x, const R& r, const Frame& f, int side, int q) { // offset q/4
    size_t k = r.size(); for (size_t j = 1; j < k; ++j) if (r[j] == r[j - 1]) return x.skip(); for (size_t j = 2; j < k; ++j) if (!orient(r[j - 2], r[j - 1], r[j]) && dot(r[j - 1] - r[j - 2], r[j] - r[j - 1]) < 0) return x.skip();
    x.in("polyline %s, %s by %d/4, %s", str(r).c_str(), side > 0 ? "left" : "right", q, f.name); ld D = q / 4.L * side * f.orient; std::vector<std::pair<ld, ld>> w;
    auto nrm = [&](size_t s) { I2 d = r[s + 1] - r[s]; ld l = sqrtl(dot(d, d)); return std::pair<ld, ld>(-d.y / l, d.x / l); };
    for (size_t j = 0; j < k; ++j) { auto a = nrm(j ? j - 1 : 0), b = nrm(j + 1 < k ? j : k - 2); ld c = 1 + a.first * b.first + a.second * b.second; w.push_back({r[j].x + D * (a.first + b.first) / c, r[j].y + D * (a.second + b.second) / c}); }
    L2 l = mk<L2>(r, f); AbsCmp cmp(1e-9); L2 g = polyline_offset(l, side > 0 ? oriented_left : oriented_right, q / 4. * f.scale, cmp); bool ok = g.size() == k; for (size_t j = 0; ok && j < k; ++j) ok = same(g[j], f((double)w[j].first, (double)w[j].second), 1e-8); x.check(ok, "offset %s", SL(g).c_str()); x.state(mc::H(q, side)); x.outcome(k == 2 ? "segment" : "polyline"); }
static void cs(u64 i, Ctx& x, int k, int W, int nf) { Dec d(i); const Frame& f = FR[nf == 8 ? d(8) : d(nf) * 5]; static const int Q[] = {1, 3, 4, 11}; int s = d(2) * 2 - 1, q = Q[d(4)]; R r; for (int j = 0; j < k; ++j) r.push_back(gp(d(W * W), W)); off(x, r, f, s, q); }
MC_SPACE("two", "all segments of a 4x4 grid, both sides, 4 offsets, 8 frames", 64ull * 256, [](u64 i, Ctx& x) { cs(i, x, 2, 4, 8); });
MC_SPACE("three", "all 3-point polylines of a 4x4 grid without reversals, both sides, 4 offsets, 8 frames", 64ull * 4096, [](u64 i, Ctx& x) { cs(i, x, 3, 4, 8); });
MC_SPACE("four", "all 4-point polylines of a 3x3 grid, both sides, 4 offsets, 8 frames", 64ull * 6561, [](u64 i, Ctx& x) { cs(i, x, 4, 3, 8); });
MC_SPACE("five", "all 5-point polylines of a 3x3 grid, both sides, 4 offsets, 2 frames", 16ull * 59049, [](u64 i, Ctx& x) { cs(i, x, 5, 3, 2); });
MC_SIZES("sizes", BIG ", as polylines, both sides, 2 offsets, 4 frames", 16 * BIGQ / 20, 20, 40, [](u64 i, Ctx& x) { Dec d(i); const Frame& f = FR[d(4) * 2 + 1]; int s = d(2) * 2 - 1, q = d(2) * 2 + 1; auto r = big_any(d); if (r.empty()) return x.skip(); off(x, r, f, s, q); });
MC_SPACE("giant", "a comb, stairs, a zigzag and a saw of 66001 points, both sides, both directions, 2 frames", 2ull * 2 * 2 * 4, [](u64 i, Ctx& x) { Dec d(i); const Frame& f = FR[d(2) * 4]; int s = d(2) * 2 - 1; bool rev = d(2); int k = d(4); off(x, turned(k < 2 ? big_ring(3 * k, GIANT) : big_chain(5 * (k - 2), GIANT), 0, rev), f, s, 3); });
MC_SPACE("four4", "all 4-point polylines of a 4x4 grid, both sides, 4 offsets, 2 frames", 0, 16ull * 65536, [](u64 i, Ctx& x) { cs(i, x, 4, 4, 2); });
