// F02: solid leaf BSP trees: solid classification of points, first hit of rays, distance to the nearest edge.
#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/solid_leaf_bsp_tree.hpp>
#include <geometrix/algorithm/hyperplane_partition_policies.hpp>
using namespace gx;
using Tree = solid_leaf_bsp_tree<S2>;
using R = std::vector<I2>;
// 1 in solid, 0 on a border, -1 in empty space; rings: counter-clockwise (area > 0) bounds empty space, clockwise bounds solid
static int cls(const std::vector<R>& rs, const std::vector<int>& w, Q2 p) { bool in = false; int base = w[0] > 0 ? 1 : -1; for (size_t k = 0; k < rs.size(); ++k) { int s = ring_side(rs[k], p); if (s == 0) return 0; if (s > 0) in = !in; } return in ? -base : base; }
static void run(Ctx& x, const std::vector<R>& rs, const Frame& f, int rot, int sel, int W, bool rays, int step, const std::vector<I2>* qs = nullptr) {
    std::vector<S2> segs; std::vector<std::pair<I2, I2>> es; std::vector<int> w; std::string name;
    for (auto& r : rs) { w.push_back(area2(r) > 0 ? 1 : -1); name += " " + str(r); for (size_t k = 0; k < r.size(); ++k) { I2 a = r[k], b = r[(k + 1) % r.size()]; es.push_back({a, b}); } }
    std::rotate(es.begin(), es.begin() + (rot & 63) % es.size(), es.end()); if (rot & 64) std::reverse(es.begin(), es.end());
    for (auto& e : es) segs.push_back(S2(f(e.first), f(e.second)));
    x.in("rings%s, edges from %d, %s selector, %s", name.c_str(), rot, sel ? "scored" : "first", f.name);
    int ori = f.orient; AbsCmp cmp(1e-10); identity_simplex_extractor ex;
    Tree t0 = sel ? Tree(segs, partition_policies::scored_selector_policy<identity_simplex_extractor, AbsCmp>(ex, cmp), cmp) : Tree(segs, partition_policies::autopartition_policy(), cmp);
    Tree t(std::move(t0)); Tree t2; t2 = std::move(t); // moves keep the tree
    static const I2 D[16] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}, {1, 1}, {-1, 1}, {-1, -1}, {1, -1}, {2, 1}, {-1, 2}, {-2, -1}, {1, -2}, {3, -1}, {1, 3}, {-3, 1}, {-1, -3}};
    std::vector<I2> grid; if (!qs) { if (NM) { for (int a : half_coords(W)) for (int b : half_coords(W)) grid.push_back({a, b}); } else for (int a = -1; a <= 2 * W - 1; a += step) for (int b = -1; b <= 2 * W - 1; b += step) grid.push_back({a, b}); qs = &grid; }
    for (I2 p : *qs) { int a = p.x, b = p.y; int c = cls(rs, w, Q2(p)) * ori; auto g = t2.point_in_solid_space(f(p), cmp);
        auto e = c > 0 ? point_in_solid_classification::in_solid : c < 0 ? point_in_solid_classification::in_empty_space : point_in_solid_classification::on_boundary;
        if (c && !ori) return;
        if (!x.check(g == e, "point (%d,%d) classified %d, exact %d", a, b, int(g), int(e))) return;
        Q best(1 << 30); for (auto& s : es) best = qmin(best, seg_dist2(Q2(s.first), Q2(s.second), Q2(p)));
        std::size_t idx = 12345; double sc = f.scale, d2 = t2.get_min_distance_sqrd_to_solid(f(p), idx, cmp), d = t2.get_min_distance_to_solid(f(p), idx, cmp);
        if (!x.check(idx < es.size() && std::fabs(d2 - best.dbl() * sc * sc) <= 1e-6 * sc * sc && std::fabs(d - std::sqrt(best.dbl()) * sc) <= 1e-4 * sc, "distance of (%d,%d) %.12g, squared %.12g, index %zu, exact squared %g (scale %g)", a, b, d, d2, idx, best.dbl(), sc)) return;
        x.check(std::fabs((seg_dist2(Q2(es[idx].first), Q2(es[idx].second), Q2(p)) - best).dbl()) < 1e-9, "nearest edge of (%d,%d) is not edge %zu", a, b, idx);
        if (!rays) continue;
        for (auto& v : D) {
            std::vector<std::pair<Q, int>> cut; // parameter, edge; corner contacts and parallel edges give both ends
            bool generic = true;
            for (size_t k = 0; k < es.size(); ++k) { I2 u = es[k].second - es[k].first, o = es[k].first - p; i64 den = cross(v, u); if (!den) { if (!cross(v, o)) { generic = false; for (I2 q : {es[k].first, es[k].second}) { Q t(dot(q - p, v), dot(v, v)); if (t >= Q(0)) cut.push_back({t, int(k)}); } } continue; }
                Q t(cross(o, u), den), s(cross(o, v), den); if (s < Q(0) || s > Q(1) || t < Q(0)) continue; if (s == Q(0) || s == Q(1)) generic = false; cut.push_back({t, int(k)}); }
            std::sort(cut.begin(), cut.end(), [](auto& l, auto& r) { return l.first < r.first; });
            auto at = [&](Q t) { return cls(rs, w, Q2(Q(p.x) + t * Q(v.x), Q(p.y) + t * Q(v.y))) * ori; };
            // first moment in closed solid, first moment of a stay in the interior of solid
            bool hasC = false, hasI = false; Q fc, fi, prev(0); size_t n = cut.size();
            for (size_t k = 0; k <= n && !hasI; ++k) { Q m = k == n ? prev + Q(1) : (prev + cut[k].first) * Q(1, 2); if (k == n || prev < cut[k].first) { int q = at(m); if (!hasC && q >= 0) { hasC = true; fc = prev; } if (q > 0) { hasI = true; fi = prev; } } if (k < n) { prev = cut[k].first; if (!hasC) { hasC = true; fc = prev; } } }
            if (c >= 0) { hasC = true; fc = Q(0); }
            auto r = t2.ray_intersection(f(p), f.vec(v), cmp); bool hit = r.is_intersecting(); double th = r.intersection_distance();
            if (!x.check(!(hasI && !hit) && !(hit && !hasC), "ray (%d,%d) + t(%d,%d): hit %d, enters solid %d, touches %d", a, b, PA(v), hit, hasI, hasC)) return;
            if (hit && !x.check(th >= fc.dbl() - 1e-6 && (!hasI || th <= fi.dbl() + 1e-6), "ray (%d,%d) + t(%d,%d): hit at %.12g, touches solid at %g, enters at %g", a, b, PA(v), th, fc.dbl(), hasI ? fi.dbl() : -1.)) return;
            if (hit && hasI && fc == fi && generic && c < 0) { bool ok = false; for (auto& k : cut) if (k.first == fi && k.second == int(r.get_data())) ok = true; x.check(ok, "ray (%d,%d) + t(%d,%d): edge %d reported", a, b, PA(v), int(r.get_data()));
                auto ob = t2.ray_intersection_only_border(f(p), f.vec(v), cmp); x.check(ob.is_intersecting() && std::fabs(ob.intersection_distance() - th) < 1e-9 && ob.get_data() == r.get_data(), "ray_intersection_only_border differs from ray_intersection of a ray from empty space"); x.outcome("ray hits"); }
            else x.outcome(hit ? "ray touches or starts in solid" : "ray misses");
        }
        x.outcome(c > 0 ? "solid" : c < 0 ? "empty" : "border");
    }
}
static R dbl(R r) { for (auto& p : r) p = 2 * p; return r; }
static const std::vector<R>& rings(int k, int W) { static std::map<int, std::vector<R>> m; auto& v = m[k * 10 + W + (NM ? 1000 : 0)]; if (v.empty()) { v = simple_rings(k, W, W, true); for (auto& r : v) r = dbl(r); } return v; }
static void one(u64 i, Ctx& x, int k, int W, bool rays, const Frame* only) {
    Dec d(i); const Frame& f = only ? *only : FR[d(NFR)]; int rot = d(k), rev = d(2), sel = d(2); auto& v = rings(k, W); R r = v[d(v.size())]; if (rev) std::reverse(r.begin(), r.end()); run(x, {r}, f, rot, sel, W, rays, 1); x.state(mc::H(i)); }
MC_SPACE("triangles", "all triangles of a 4x4 grid, both windings, 2 selectors, 3 edge orders, all points and origins at half steps, 16 ray directions, 8 frames", 8ull * 3 * 4 * rings(3, 4).size(), [](u64 i, Ctx& x) { one(i, x, 3, 4, true, nullptr); });
MC_SPACE("quads", "all simple quadrilaterals of a 3x3 grid, both windings, 2 selectors, 4 edge orders, points, origins, rays, 8 frames", 8ull * 4 * 4 * rings(4, 3).size(), [](u64 i, Ctx& x) { one(i, x, 4, 3, true, nullptr); });
MC_SPACE("pentagons", "all simple pentagons of a 3x3 grid, both windings, 2 selectors, 5 edge orders, points, origins, rays", 20ull * rings(5, 3).size(), [](u64 i, Ctx& x) { one(i, x, 5, 3, true, &FR[0]); });
MC_SPACE("quads4", "all simple quadrilaterals of a 4x4 grid, both windings, 2 selectors, 4 edge orders, points and distances", 16ull * rings(4, 4).size(), [](u64 i, Ctx& x) { one(i, x, 4, 4, false, &FR[0]); });
static const std::vector<R>& holes() { static std::vector<R> v; if (v.empty()) for (int k = 3; k <= 4; ++k) for (auto r : simple_rings(k, 3, 3, true)) { for (auto& p : r) p = 2 * (p + I2{1, 1}); if (area2(r) > 0) v.push_back(r); } return v; }
MC_SPACE("hexagons", "all simple hexagons of a 3x3 grid, both windings, 2 selectors, 6 edge orders, points, origins, rays", 24ull * 400, 24ull * rings(6, 3).size(), [](u64 i, Ctx& x) { u64 n = 24ull * rings(6, 3).size(); if (i >= n) { x.skip(); return; } one(i, x, 6, 3, true, &FR[0]); });
MC_SPACE("holes", "a 4x4 square with every triangle and simple quadrilateral of the inner 3x3 grid as a hole, empty or solid between them, 2 selectors, all rotations and reversals of the edge order, points, origins, rays", 2ull * 2 * 16 * holes().size(), [](u64 i, Ctx& x) {
    Dec d(i); int sel = d(2), rev = d(2), rot = d(8), back = d(2); R in = holes()[d(holes().size())], out{{0, 0}, {8, 0}, {8, 8}, {0, 8}}; std::reverse(in.begin(), in.end()); if (rev) { std::reverse(in.begin(), in.end()); std::reverse(out.begin(), out.end()); }
    if (rot >= int(in.size()) + 4) { x.skip(); return; } run(x, {out, in}, FR[0], rot + 64 * back, sel, 5, true, 1); x.state(mc::H(i)); });
MC_SPACE("heptagons", "all simple heptagons of a 3x3 grid, both windings, 2 selectors, 7 edge orders, points, origins, rays", 0, 28ull * rings(7, 3).size(), [](u64 i, Ctx& x) { one(i, x, 7, 3, true, &FR[0]); });
MC_SPACE("octagons", "all simple octagons of a 3x3 grid, both windings, 2 selectors, 8 edge orders, points, origins, rays", 0, 32ull * rings(8, 3).size(), [](u64 i, Ctx& x) { one(i, x, 8, 3, true, &FR[0]); });
MC_SIZES("sizes", "combs, convex rings, stars, stairs, ribbons, parabolas of 6..25 (thorough: 45) vertices, both windings, 3 edge orders, 2 selectors, points and distances next to and between all vertices, rays from a third of them", 6ull * 6 * 2, 20, 40, [](u64 i, Ctx& x) {
    Dec d(i); int sel = d(2), rev = d(2), st = d(3), kind = d(6), n = big_n(d.v); if (!big_ok(kind, n)) return x.skip(); R r = dbl(big_ring(kind, n)); if (rev) std::reverse(r.begin(), r.end()); auto q = around(r, true), h = q; h.clear();
    for (size_t k = 0; k < q.size(); ++k) if (k % 3 == size_t(st)) h.push_back(q[k]);
    run(x, {r}, FR[0], st * n / 3, sel, 0, false, 1, &q); if (!x.failed) run(x, {r}, FR[0], st * n / 3, sel, 0, true, 1, &h); x.state(mc::H(i)); });
MC_SPACE("near3", "all triangles of a 4x4 grid of near coincidences (columns and rows 0, 1, 256, 257), both windings, 2 selectors, points on and half a step around its lines, 2 exact frames", 2ull * 3 * 4 * [] { Near m(256); return rings(3, 4).size(); }(), [](u64 i, Ctx& x) { Near m(256); one(i / 2, x, 3, 4, false, &FR[i & 1]); });
MC_SPACE("near4", "all simple quadrilaterals of a 3x3 grid of near coincidences, 2 exact frames", 2ull * 4 * 4 * [] { Near m(256); return rings(4, 3).size(); }(), [](u64 i, Ctx& x) { Near m(256); one(i / 2, x, 4, 3, false, &FR[i & 1]); });
