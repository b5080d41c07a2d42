// F03: node storing BSP trees: location of points, back to front traversal.
#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/node_bsp_tree_2d.hpp>
using namespace gx;
using Tree = node_bsp_tree_2d<S2>;
using R = std::vector<I2>;
// 1 on the side left of the edges, 0 on a border, -1 on the side right of them
static int cls(const std::vector<R>& rs, const std::vector<int>& w, Q2 p) { bool in = false; int base = w[0] > 0 ? -1 : 1; for (auto& r : rs) { int s = ring_side(r, p); if (s == 0) return 0; if (s > 0) in = !in; } return in ? -base : base; }
struct Fr { double x0, y0, x1, y1; };
static void run(Ctx& x, const std::vector<R>& rs, const Frame& f, int rot, int sel, int W, int inserted, const std::vector<I2>* qs = nullptr) {
    std::vector<S2> segs, second; std::vector<std::pair<I2, I2>> es; std::vector<int> w; std::string name;
    for (auto& r : rs) { w.push_back(area2(r) > 0 ? 1 : -1); name += " " + str(r); for (size_t k = 0; k < r.size(); ++k) { I2 a = r[k], b = r[(k + 1) % r.size()]; es.push_back({a, b}); } }
    if (!inserted) { std::rotate(es.begin(), es.begin() + (rot & 63) % es.size(), es.end()); if (rot & 64) std::reverse(es.begin(), es.end()); }
    for (size_t k = 0; k < es.size(); ++k) (inserted && k >= rs[0].size() ? second : segs).push_back(S2(f(es[k].first), f(es[k].second)));
    x.in("rings%s%s, edges from %d, %s selector, %s", name.c_str(), inserted ? ", second ring inserted" : "", rot, sel ? "scored" : "first", f.name);
    int ori = f.orient; AbsCmp cmp(NM ? 1e-13 : 1e-10);
    partition_policies::first_segment_selector_policy<S2> s0; partition_policies::scored_segment_selector_policy<S2, AbsCmp> s1(cmp);
    std::unique_ptr<Tree> t(sel ? new Tree(segs, s1, cmp) : new Tree(segs, s0, cmp));
    if (inserted) { if (sel) t->insert(second, s1, cmp); else t->insert(second, s0, cmp); }
    bool bord_ok = f.exact && f.scale <= 1;
    std::vector<I2> grid; if (!qs) { for (int a : half_coords(W, -1, -1)) for (int b : half_coords(W, -1, -1)) grid.push_back({a, b}); qs = &grid; }
    for (I2 p : *qs) { int a = p.x, b = p.y; int c = cls(rs, w, Q2(p)) * ori; auto g = t->locate_point(f(p), cmp);
        auto e = c > 0 ? e_inside : c < 0 ? e_outside : e_boundary;
        if (!x.check(g == e || (c == 0 && !bord_ok), "point (%d,%d) located %d, exact %d", a, b, int(g), int(e))) return;
        x.outcome(c > 0 ? "inside" : c < 0 ? "outside" : "border");
        if (&f != &FR[0]) continue;
        std::vector<Fr> fr; auto vis = [&](const S2& s) { fr.push_back({X(get_start(s)), Y(get_start(s)), X(get_end(s)), Y(get_end(s))}); };
        t->painters_traversal(f(p), vis, cmp);
        std::vector<double> len(es.size(), 0.);
        for (auto& s : fr) { int own = -1; for (size_t k = 0; k < es.size(); ++k) { I2 u = es[k].first, v = es[k].second; double L = std::hypot(v.x - u.x, v.y - u.y); auto in = [&](double X0, double Y0) { double cr = ((v.x - u.x) * (Y0 - u.y) - (v.y - u.y) * (X0 - u.x)) / L, t0 = ((v.x - u.x) * (X0 - u.x) + (v.y - u.y) * (Y0 - u.y)) / L; return std::fabs(cr) < 1e-8 && t0 > -1e-8 && t0 < L + 1e-8; }; if (in(s.x0, s.y0) && in(s.x1, s.y1) && (v.x - u.x) * (s.x1 - s.x0) + (v.y - u.y) * (s.y1 - s.y0) > 0) { own = k; break; } }
            if (!x.check(own >= 0, "viewpoint (%d,%d): visited (%g,%g)-(%g,%g) is no part of an edge", a, b, s.x0, s.y0, s.x1, s.y1)) return; len[own] += std::hypot(s.x1 - s.x0, s.y1 - s.y0); }
        for (size_t k = 0; k < es.size(); ++k) { I2 u = es[k].first, v = es[k].second; double L = std::hypot(v.x - u.x, v.y - u.y); bool line = orient(u, v, p) == 0; if (!x.check(line ? len[k] < L + 1e-8 : std::fabs(len[k] - L) < 1e-8, "viewpoint (%d,%d): visited %.9g of the %.9g of edge %zu", a, b, len[k], L, k)) return; }
        // a fragment nearer to the viewpoint along some ray comes later
        auto cr = [&](double ax, double ay, double bx, double by) { return ax * by - ay * bx; };
        for (size_t i = 0; i < fr.size(); ++i) for (size_t j = i + 1; j < fr.size(); ++j) {
            double q[4][2] = {{fr[i].x0 - a, fr[i].y0 - b}, {fr[i].x1 - a, fr[i].y1 - b}, {fr[j].x0 - a, fr[j].y0 - b}, {fr[j].x1 - a, fr[j].y1 - b}};
            if (std::fabs(cr(q[0][0], q[0][1], q[1][0], q[1][1])) < 1e-9 || std::fabs(cr(q[2][0], q[2][1], q[3][0], q[3][1])) < 1e-9) continue;
            if (cr(q[0][0], q[0][1], q[1][0], q[1][1]) < 0) std::swap(q[0], q[1]); if (cr(q[2][0], q[2][1], q[3][0], q[3][1]) < 0) std::swap(q[2], q[3]);
            auto inside = [&](double* lo, double* hi, double vx, double vy) { return cr(lo[0], lo[1], vx, vy) > -1e-9 && cr(vx, vy, hi[0], hi[1]) > -1e-9; };
            double best[2][2]; int nb = 0; // extreme directions of the common angle
            for (int m = 0; m < 4; ++m) { double h = std::hypot(q[m][0], q[m][1]); bool ok = m < 2 ? inside(q[2], q[3], q[m][0] / h, q[m][1] / h) : inside(q[0], q[1], q[m][0] / h, q[m][1] / h); if (!ok) continue; double ux = q[m][0] / h, uy = q[m][1] / h; bool dup = false; for (int z = 0; z < nb; ++z) dup |= std::hypot(best[z][0] - ux, best[z][1] - uy) < 1e-7; if (!dup && nb < 2) { best[nb][0] = ux; best[nb][1] = uy; ++nb; } }
            if (nb < 2) continue;
            double dx = best[0][0] + best[1][0], dy = best[0][1] + best[1][1];
            auto at = [&](double* s, double* e) { return cr(s[0], s[1], e[0] - s[0], e[1] - s[1]) / cr(dx, dy, e[0] - s[0], e[1] - s[1]); };
            double ti = at(q[0], q[1]), tj = at(q[2], q[3]);
            if (!x.check(ti > tj - 1e-9, "viewpoint (%d,%d): (%g,%g)-(%g,%g) hides (%g,%g)-(%g,%g), visited after it", a, b, fr[i].x0, fr[i].y0, fr[i].x1, fr[i].y1, fr[j].x0, fr[j].y0, fr[j].x1, fr[j].y1)) return;
            if (ti > tj + 1e-9) x.outcome("hidden");
        }
    }
}
static R dbl(R r) { for (auto& p : r) p = 2 * p; return r; }
static const std::vector<R>& rings(int k, int W) { static std::map<int, std::vector<R>> m; auto& v = m[k * 10 + W + (NM ? 1000 : 0)]; if (v.empty()) { v = simple_rings(k, W, W, true); for (auto& r : v) r = dbl(r); } return v; }
static void one(u64 i, Ctx& x, int k, int W, const Frame* only) { Dec d(i); const Frame& f = only ? *only : FR[d(NAF)]; int rot = d(k), rev = d(2), sel = d(2); auto& v = rings(k, W); R r = v[d(v.size())]; if (rev) std::reverse(r.begin(), r.end()); run(x, {r}, f, rot, sel, W, 0); x.state(mc::H(i)); }
MC_SPACE("triangles", "all triangles of a 4x4 grid, both windings, 2 selectors, 3 edge orders, all points and viewpoints at half steps, 10 frames", 10ull * 3 * 4 * rings(3, 4).size(), [](u64 i, Ctx& x) { one(i, x, 3, 4, nullptr); });
MC_SPACE("quads", "all simple quadrilaterals of a 4x4 grid, both windings, 2 selectors, 4 edge orders, points and viewpoints", 4ull * 4 * rings(4, 4).size(), [](u64 i, Ctx& x) { one(i, x, 4, 4, &FR[0]); });
MC_SPACE("pentagons", "all simple pentagons of a 3x3 grid, both windings, 2 selectors, 5 edge orders, 10 frames", 10ull * 20 * rings(5, 3).size(), [](u64 i, Ctx& x) { one(i, x, 5, 3, nullptr); });
MC_SPACE("hexagons", "all simple hexagons of a 3x3 grid, both windings, 2 selectors, 6 edge orders", 24ull * rings(6, 3).size(), [](u64 i, Ctx& x) { one(i, x, 6, 3, &FR[0]); });
MC_SPACE("heptagons", "all simple heptagons of a 3x3 grid, both windings, 2 selectors, 7 edge orders", 28ull * rings(7, 3).size(), [](u64 i, Ctx& x) { one(i, x, 7, 3, &FR[0]); });
static const std::vector<R>& holes() { static std::vector<R> v; if (v.empty()) for (int k = 3; k <= 4; ++k) for (auto r : simple_rings(k, 3, 3, true)) { for (auto& p : r) p = 2 * (p + I2{1, 1}); if (area2(r) > 0) v.push_back(r); } return v; }
MC_SPACE("holes", "a 4x4 square with every triangle and simple quadrilateral of the inner 3x3 grid as a hole, both windings, 2 selectors, built at once in all rotations and reversals of the edge order, or by inserting the hole", 2ull * 2 * 17 * holes().size(), [](u64 i, Ctx& x) {
    Dec d(i); int sel = d(2), rev = d(2), rot = d(17); R in = holes()[d(holes().size())], out{{0, 0}, {8, 0}, {8, 8}, {0, 8}}; std::reverse(in.begin(), in.end()); if (rev) { std::reverse(in.begin(), in.end()); std::reverse(out.begin(), out.end()); }
    if ((rot & 7) >= int(in.size()) + 4 && rot < 16) { x.skip(); return; } std::vector<R> rs{out, in};
    run(x, rs, FR[0], rot & 7 | (rot & 8 ? 64 : 0), sel, 5, rot == 16); x.state(mc::H(i)); });
static const std::vector<std::pair<R, R>>& pairs() { static std::vector<std::pair<R, R>> v; if (v.empty()) { std::vector<R> t; for (auto r : simple_rings(3, 4, 3, true)) if (area2(r) > 0) t.push_back(r); for (auto& a : t) for (auto& b : t) { bool meet = false; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) meet |= segs_meet(a[i], a[(i + 1) % 3], b[j], b[(j + 1) % 3]); if (meet || ring_side(a, b[0]) >= 0 || ring_side(b, a[0]) >= 0) continue; v.push_back({dbl(a), dbl(b)}); } } return v; }
MC_SPACE("apart", "all ordered pairs of disjoint triangles of a 4x3 grid, the second inserted, or built at once with all rotations of the edge order, 2 selectors", 14ull * pairs().size(), [](u64 i, Ctx& x) { Dec d(i); int sel = d(2), rot = d(7); auto& p = pairs()[d(pairs().size())]; run(x, {p.first, p.second}, FR[0], rot, sel, 4, rot == 6); x.state(mc::H(i)); });
MC_SPACE("pentagons4", "all simple pentagons of a 4x4 grid, both windings, 2 selectors, 5 edge orders", 0, 20ull * rings(5, 4).size(), [](u64 i, Ctx& x) { one(i, x, 5, 4, &FR[0]); });
MC_SPACE("octagons", "all simple octagons of a 3x3 grid, both windings, 2 selectors, 8 edge orders", 0, 32ull * rings(8, 3).size(), [](u64 i, Ctx& x) { one(i, x, 8, 3, &FR[0]); });
MC_SIZES("sizes", "combs, convex rings, stars, stairs, ribbons, parabolas of 6..25 (thorough: 45) vertices, both windings, 3 edge orders, 2 selectors, a third of the points next to and between all vertices, with traversals", 6ull * 6 * 2, 20, 40, [](u64 i, Ctx& x) {
    Dec d(i); int sel = d(2), rev = d(2), st = d(3), kind = d(6), n = big_n(d.v); if (!big_ok(kind, n)) return x.skip(); R r = dbl(big_ring(kind, n)); if (rev) std::reverse(r.begin(), r.end()); auto q = around(r, true), h = q; h.clear();
    for (size_t k = 0; k < q.size(); ++k) if (k % 3 == size_t(st)) h.push_back(q[k]);
    run(x, {r}, FR[0], st * n / 3, sel, 0, 0, &h); x.state(mc::H(i)); });
MC_SPACE("near3", "all triangles of a 4x4 grid of near coincidences (columns and rows 0, 1, 256, 257), both windings, 2 selectors, points and viewpoints on and half a step around its lines, 2 exact frames", 2ull * 3 * 4 * [] { Near m(256); return rings(3, 4).size(); }(), [](u64 i, Ctx& x) { Near m(256); one(i / 2, x, 3, 4, &FR[i & 1]); });
MC_SPACE("near4", "all simple quadrilaterals of a 3x3 grid of near coincidences, 2 exact frames", 2ull * 4 * 4 * [] { Near m(256); return rings(4, 3).size(); }(), [](u64 i, Ctx& x) { Near m(256); one(i / 2, x, 4, 3, &FR[i & 1]); });
