// H06: congruence of polylines and polygons; border segments and border subsequences of polygons.
#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/point_sequence/is_congruent.hpp>
#include <geometrix/algorithm/point_sequence/find_subsequence.hpp>
using namespace gx;
typedef std::vector<I2> R;
// a rigid motion (orientation kept) takes a to b: all pairs of differences from the first points have equal dot and cross products
static bool congruent(const R& a, const R& b) { if (a.size() != b.size()) return false; for (size_t i = 1; i < a.size(); ++i) for (size_t j = i; j < a.size(); ++j) { I2 u = a[i] - a[0], v = a[j] - a[0], s = b[i] - b[0], t = b[j] - b[0]; if (dot(u, v) != dot(s, t) || cross(u, v) != cross(s, t)) return false; } return true; }
static bool repeats(const R& r, bool closed) { for (size_t i = 1; i < r.size(); ++i) if (r[i] == r[i - 1]) return true; return closed && r.front() == r.back(); }
static void pair(u64 i, Ctx& x, int ka, int kb, int W) {
    static const int G[4][2] = {{0, 5}, {1, 1}, {5, 0}, {6, 6}}; Dec d(i); auto* fr = G[d(4)]; const Frame &f = FR[fr[0]], &g = FR[fr[1]]; R a, b; for (int j = 0; j < ka; ++j) a.push_back(gp(d(W * W), W)); for (int j = 0; j < kb; ++j) b.push_back(gp(d(W * W), W)); bool ra = repeats(a, 0) || repeats(b, 0), rc = repeats(a, 1) || repeats(b, 1); if (ra) return x.skip();
    x.in("%s and %s, %s %s", str(a).c_str(), str(b).c_str(), f.name, g.name); AbsCmp cmp(1e-6 * f.scale * f.scale); bool c = congruent(a, b); L2 la = mk<L2>(a, f), lb = mk<L2>(b, g);
    x.check(are_polylines_congruent(la, lb, cmp) == c, "polylines congruent: %d", (int)!c); if (!rc && ka > 2 && kb > 2) { G2 ga = mk<G2>(a, f), gb = mk<G2>(b, g); x.check(are_polygons_congruent(ga, gb, cmp) == c, "polygons congruent: %d", (int)!c); } x.outcome(c ? "congruent" : "not congruent"); x.state(mc::H(i, ka, kb, W)); }
MC_SPACE("polylines", "all pairs of 2- and 3-point sequences of a 3x3 grid in 4 pairs of frames", 4ull * (6561 + 59049 + 531441), [](u64 i, Ctx& x) { if (i < 4 * 6561) pair(i, x, 2, 2, 3); else if ((i -= 4 * 6561) < 4 * 59049) pair(i, x, 2, 3, 3); else pair(i - 4 * 59049, x, 3, 3, 3); });
MC_SPACE("fours", "all pairs of 4-point sequences of a 2x2 grid, 4-point against 3-point sequences", 4ull * (65536 + 16384), [](u64 i, Ctx& x) { if (i < 4 * 65536) pair(i, x, 4, 4, 2); else pair(i - 4 * 65536, x, 4, 3, 2); });
// pairs: a 4-point sequence of a 3x3 grid against its images under the motions of the grid and under one moved point
static void moved(u64 i, Ctx& x, int k, int W) {
    Dec d(i); R a; for (int j = 0; j < k; ++j) a.push_back(gp(d(W * W), W)); if (repeats(a, 1)) return x.skip(); int m = d(8), who = d(k + 1), to = d(W * W); R b = a; if (who < k) b[who] = gp(to, W); else if (to) return x.skip(); if (repeats(b, 1)) return x.skip();
    for (auto& p : b) { if (m & 4) p = {p.x, -p.y}; for (int t = 0; t < (m & 3); ++t) p = {-p.y, p.x}; p = p + I2{3, -2}; } x.in("%s and %s", str(a).c_str(), str(b).c_str()); AbsCmp cmp(1e-6); bool c = congruent(a, b); const Frame &f = FR[0], &g = FR[5];
    x.check(are_polylines_congruent(mk<L2>(a, f), mk<L2>(b, g), cmp) == c, "polylines congruent: %d", (int)!c); x.check(are_polygons_congruent(mk<G2>(a, f), mk<G2>(b, g), cmp) == c, "polygons congruent: %d", (int)!c); x.outcome(c ? "congruent" : "not congruent"); x.state(mc::H(i, k)); }
MC_SPACE("moved4", "all 4-point sequences of a 3x3 grid against their images under rotations and mirrors with at most one point changed", 6561ull * 8 * 5 * 9, [](u64 i, Ctx& x) { moved(i, x, 4, 3); });
MC_SPACE("moved5", "the same with 5 points", 0, 59049ull * 8 * 6 * 9, [](u64 i, Ctx& x) { moved(i, x, 5, 3); });
MC_SIZES("sizes", BIG " against their images under rotations and mirrors, as they are or with one point (each of them) moved by one step", 8 * 2 * 46 * BIGQ / 20, 20, 40, [](u64 i, Ctx& x) {
    Dec d(i); int m = d(8), how = d(2), who = d(46); auto a = big_any(d); if (a.empty() || who > (int)a.size() || (!who && how)) return x.skip(); R b = a; if (who) b[who - 1] = b[who - 1] + (how ? I2{1, 0} : I2{0, -1}); if (repeats(a, 1) || repeats(b, 1)) return x.skip();
    for (auto& p : b) { if (m & 4) p = {p.x, -p.y}; for (int t = 0; t < (m & 3); ++t) p = {-p.y, p.x}; p = p + I2{3, -2}; } x.in("%s and %s", x.verbose ? str(a).c_str() : "", x.verbose ? str(b).c_str() : ""); AbsCmp cmp(1e-6); bool c = congruent(a, b); const Frame &f = FR[0], &g = FR[5];
    x.check(are_polylines_congruent(mk<L2>(a, f), mk<L2>(b, g), cmp) == c, "polylines congruent: %d", (int)!c); x.check(are_polygons_congruent(mk<G2>(a, f), mk<G2>(b, g), cmp) == c, "polygons congruent: %d", (int)!c); x.outcome(c ? "congruent" : "not congruent"); x.state(mc::H(i)); });
// border segments
static void border(Ctx& x, const R& r0, int rot, I2 p2, const Frame& f) { // ring scaled by 2, p in half steps
    R r; for (size_t j = 0; j < r0.size(); ++j) r.push_back(2 * r0[(j + rot) % r0.size()]); size_t n = r.size(); x.in("polygon %s, point " PF ", %s", str(r).c_str(), PA(p2), f.name); G2 g = mk<G2>(r, f); P2 p = f(p2); AbsCmp cmp(1e-8);
    std::vector<Q> dd; Q m; for (size_t i = 0; i < n; ++i) { dd.push_back(seg_dist2(r[i], r[(i + 1) % n], p2)); m = i ? qmin(m, dd[i]) : dd[0]; }
    bool on = m.sg() == 0; auto c = find_containing_polygon_border_segment(g, p, cmp); x.check(bool(c) == on && (!c || (*c < n && dd[*c].sg() == 0)), "containing segment %d", c ? (int)*c : -1);
    auto k = find_closest_polygon_border_segment(g, p); x.check(k < n && dd[k] == m, "closest segment %zu", k); auto e = find_containing_or_closest_polygon_border_segment(g, p, cmp); x.check(e < n && dd[e] == m, "containing or closest segment %zu", e);
    x.outcome(on ? "on the border" : "off the border"); if (!on) return;
    // walk both ways
    for (int q : {1, 2, 3, 5, 7, 9, 11}) { double ext = q * .731; double per = 0; std::vector<double> len; for (size_t i = 0; i < n; ++i) { len.push_back(std::sqrt((double)dot(r[(i + 1) % n] - r[i], r[(i + 1) % n] - r[i]))); per += len[i]; } if (ext >= 2 * per) continue; // at most two rounds each way
        size_t s = 0; while (dd[s].sg()) ++s; std::vector<std::pair<double, double>> w; typedef std::pair<double, double> D;
        auto walk = [&](bool fwd) { std::vector<D> o; D at(p2.x, p2.y); double left = ext; size_t i = s; for (;;) { I2 t = fwd ? r[(i + 1) % n] : r[i]; double l = std::hypot(t.x - at.first, t.y - at.second); if (l <= left) { left -= l; at = D(t.x, t.y); if (l > 1e-12) o.push_back(at); } else { if (left > 1e-12) o.push_back(D(at.first + (t.x - at.first) * left / l, at.second + (t.y - at.second) * left / l)); break; } i = fwd ? (i + 1) % n : (i + n - 1) % n; } return o; };
        auto b = walk(false), a = walk(true); for (size_t j = b.size(); j--;) w.push_back(b[j]); if (std::find(r.begin(), r.end(), p2) != r.end()) w.push_back(D(p2.x, p2.y)); w.insert(w.end(), a.begin(), a.end());
        polyline<P2> sub = polygon_subsequence(g, p, ext * f.scale, cmp); std::vector<P2> u; for (auto& v : sub) if (u.empty() || dist(u.back(), v) > 1e-9) u.push_back(v); bool ok = u.size() == w.size(); for (size_t j = 0; ok && j < u.size(); ++j) ok = same(u[j], f(w[j].first, w[j].second), 1e-8);
        std::string got; for (auto& v : u) { char bf[80]; snprintf(bf, sizeof bf, "(%.9g,%.9g)", X(v), Y(v)); got += bf; } x.check(ok, "subsequence of extent %g: %s", ext, got.c_str()); }
}
static const std::vector<R>& rg(int k, int W) { static std::map<int, std::vector<R>> m; auto& v = m[k * 10 + W]; if (v.empty()) v = simple_rings(k, W, W, true); return v; }
static void bcase(u64 i, Ctx& x, int k, int W) { Dec d(i); const Frame& f = FR[d(3) * 3 % 7]; int rot = d(k), s = 2 * W + 1; I2 p = gp(d(s * s), s) - I2{1, 1}; border(x, rg(k, W)[d(rg(k, W).size())], rot, p, f); x.state(mc::H(i, k, 9)); }
MC_SPACE("border3", "all triangles of a 3x3 grid, all starting points, all points at half steps in and around it", 3ull * 3 * 49 * rg(3, 3).size(), [](u64 i, Ctx& x) { bcase(i, x, 3, 3); });
MC_SPACE("border4", "all quadrilaterals of a 3x3 grid", 3ull * 4 * 49 * rg(4, 3).size(), [](u64 i, Ctx& x) { bcase(i, x, 4, 3); });
MC_SPACE("border5", "all pentagons of a 3x3 grid", 3ull * 5 * 49 * rg(5, 3).size(), [](u64 i, Ctx& x) { bcase(i, x, 5, 3); });
MC_SIZES("bordersizes", BIG " (rings only), points next to vertices and edges, 2 frames", 2 * 7 * BIGQ / 20, 20, 40, [](u64 i, Ctx& x) {
    Dec d(i); const Frame& f = FR[d(2) * 3]; int part = d(7); bool ch; auto r = big_any(d, &ch); if (r.empty() || ch) return x.skip(); R z = r; for (auto& p : z) p = 2 * p; auto q = around(z, true); for (size_t k = part; k < q.size(); k += 7) { border(x, r, 0, q[k], f); if (x.failed) return; } x.state(mc::H(i)); });
MC_SPACE("giant", "a comb and stairs of 66001 corners, both directions, points next to the corners where 8, 16 bits and the sequence end, 2 frames; congruence with themselves turned, mirrored and with one of those corners moved", 2ull * 2 * 2 * 8, [](u64 i, Ctx& x) {
    Dec d(i); const Frame& f = FR[d(2) * 3]; bool rev = d(2); int kind = d(2), part = d(8); auto r = turned(big_ring(3 * kind, GIANT), 21999, rev); R z = r; for (auto& p : z) p = 2 * p; auto q = far_around(z); for (size_t k = part; k < q.size(); k += 8) { border(x, r, 0, q[k], f); if (x.failed) return; }
    auto w = far_places(GIANT); for (size_t k = part; k <= w.size(); k += 8) { R b = r; if (k < w.size()) b[w[k]] = b[w[k]] + I2{0, -1}; for (auto& p : b) { p = {-p.y, p.x}; if (k % 3 == 2) p.x = -p.x; } x.in("%s of %d corners and its image, corner %d moved", kind ? "stairs" : "comb", GIANT, k < w.size() ? w[k] : -1); bool c = congruent(r, b); AbsCmp cmp(1e-6);
        x.check(are_polylines_congruent(mk<L2>(r, f), mk<L2>(b, f), cmp) == c, "polylines congruent: %d", (int)!c); x.check(are_polygons_congruent(mk<G2>(r, f), mk<G2>(b, f), cmp) == c, "polygons congruent: %d", (int)!c); } x.state(mc::H(i)); });
MC_SPACE("border34", "all triangles and quadrilaterals of a 4x4 grid", 0, 3ull * 81 * (3 * rg(3, 4).size() + 4 * rg(4, 4).size()), [](u64 i, Ctx& x) { u64 a = 3ull * 81 * 3 * rg(3, 4).size(); if (i < a) bcase(i, x, 3, 4); else bcase(i - a, x, 4, 4); });
