// H07: side of a polyline a point lies on.
#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/point_sequence/point_polyline_orientation.hpp>
using namespace gx;
typedef std::vector<I2> R;
// r scaled by 2, p in half steps. 1 left, -1 right, 0 on the line; the sides seen from the closest features
static void side(Ctx& x, const R& r, I2 p, const Frame& f, bool simple = false) {
    size_t n = r.size(); for (size_t i = 1; i < n; ++i) if (r[i] == r[i - 1]) return x.skip();
    for (size_t i = 0; !simple && i + 1 < n; ++i) for (size_t j = i + 1; j + 1 < n; ++j) { if (j == i + 1) { if (orient(r[i], r[j], r[j + 1]) == 0 && dot(r[j] - r[i], r[j + 1] - r[j]) < 0) return x.skip(); } else if (segs_meet(r[i], r[i + 1], r[j], r[j + 1])) return x.skip(); }
    x.in("polyline %s, point " PF ", %s", str(r).c_str(), PA(p), f.name); Q m; for (size_t i = 0; i + 1 < n; ++i) { Q d = seg_dist2(r[i], r[i + 1], p); m = i ? qmin(m, d) : d; }
    bool ok[3] = {false, false, false}; const char* why = "segment";
    if (m.sg() == 0) { ok[1] = true; why = "on the polyline"; }
    else for (size_t i = 0; i + 1 < n; ++i) { if (seg_dist2(r[i], r[i + 1], p) != m) continue; I2 d = r[i + 1] - r[i]; i64 t = dot(p - r[i], d), l = dot(d, d); int o = sgn(orient(r[i], r[i + 1], p));
        if (t > 0 && t < l) { ok[o + 1] = true; continue; } size_t v = t <= 0 ? i : i + 1; if (v == 0 || v == n - 1) { ok[o + 1] = true; why = "end"; continue; }
        int turn = sgn(orient(r[v - 1], r[v], r[v + 1])); why = "corner"; ok[(turn ? -turn : o) + 1] = true; }
    auto got = point_polyline_orientation(f(p), mk<L2>(r, f), AbsCmp(1e-9 * f.scale * f.scale)); int g = (got == oriented_left ? 1 : got == oriented_right ? -1 : 0) * f.orient;
    x.check(ok[g + 1], "side %d", g); x.outcome(why); x.state(mc::H(i64(0), p.x, p.y, r.size())); }
static void cs(u64 i, Ctx& x, int k, int W, int nf) { Dec d(i); const Frame& f = FR[nf == 8 ? d(8) : d(nf) * 5]; if (NM && !f.exact) return x.skip(); R r; for (int j = 0; j < k; ++j) r.push_back(2 * gp(d(W * W), W)); int s = 2 * W + 3; I2 p; if (NM) { auto c = half_coords(W); if (int(c.size()) > s) c.resize(s); int a = d(s), b = d(s); if (a >= int(c.size()) || b >= int(c.size())) return x.skip(); p = {c[a], c[b]}; } else p = gp(d(s * s), s) - I2{2, 2}; side(x, r, p, f); }
MC_SPACE("two", "all segments of a 4x4 grid, all points at half steps in and around it, 8 frames", 8ull * 256 * 121, [](u64 i, Ctx& x) { cs(i, x, 2, 4, 8); });
MC_SPACE("three", "all simple 3-point polylines of a 3x3 grid, 8 frames", 8ull * 729 * 81, [](u64 i, Ctx& x) { cs(i, x, 3, 3, 8); });
MC_SPACE("three-thin", "all simple 3-point polylines of a 3x3 grid stretched 150 times, points at half steps, 8 frames", 8ull * 729 * 81, [](u64 i, Ctx& x) { Stretch s(150); cs(i, x, 3, 3, 8); });
MC_SPACE("four", "all simple 4-point polylines of a 3x3 grid, 2 frames", 2ull * 6561 * 81, [](u64 i, Ctx& x) { cs(i, x, 4, 3, 2); });
MC_SPACE("five", "all simple 5-point polylines of a 3x3 grid, 2 frames", 2ull * 59049 * 81, [](u64 i, Ctx& x) { cs(i, x, 5, 3, 2); });
MC_SIZES("sizes", BIG ", as polylines, points next to every vertex and edge, 4 frames", 4 * BIGQ / 20, 20, 40, [](u64 i, Ctx& x) { Dec d(i); const Frame& f = FR[d(4) * 2]; auto r = big_any(d); if (r.empty()) return x.skip(); for (auto& p : r) p = 2 * p; for (auto p : around(r, false)) { side(x, r, p, f); if (x.failed) return; } x.state(mc::H(i)); });
MC_SPACE("giant", "a comb, stairs and a zigzag of 66001 points, both directions, 2 frames, points next to the vertices where 8, 16 bits and the sequence end", 4ull * 2 * 2 * 3, [](u64 i, Ctx& x) { Dec d(i); int part = d(4); const Frame& f = FR[d(2) * 4]; bool rev = d(2); int k = d(3); auto r = turned(k < 2 ? big_ring(3 * k, GIANT) : big_chain(0, GIANT), 0, rev); for (auto& p : r) p = 2 * p; auto q = far_around(r); for (size_t j = part; j < q.size(); j += 4) { side(x, r, q[j], f, true); if (x.failed) return; } x.state(mc::H(i)); });
MC_SPACE("three4", "all simple 3-point polylines of a 4x4 grid, 8 frames", 0, 8ull * 4096 * 121, [](u64 i, Ctx& x) { cs(i, x, 3, 4, 8); });
MC_SPACE("four4", "all simple 4-point polylines of a 4x4 grid, 2 frames", 0, 2ull * 65536 * 121, [](u64 i, Ctx& x) { cs(i, x, 4, 4, 2); });
MC_SPACE("three-near", "all simple 3-point polylines of a 4x4 grid of near coincidences (columns and rows 0, 1, 256, 257), points on and half a step around its lines, exact frames", 8ull * 4096 * 121, [](u64 i, Ctx& x) { Near m(256); cs(i, x, 3, 4, 8); });
