// C01: location of a point with respect to simple, convex and quadrilateral polygons.
#include "geo.hpp"
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/utility/utilities.hpp>
using namespace gx;

static bool convex_ccw(const std::vector<I2>& r, bool strict) {
    int n = r.size();
    if (area2(r) <= 0 || !ring_simple(r)) return false;
    for (int i = 0; i < n; ++i) { i64 o = orient(r[i], r[(i + 1) % n], r[(i + 2) % n]); if (o < 0 || (strict && o == 0)) return false; }
    return true;
}
static std::vector<I2> ring(Dec& d, int k, int W, int H) { std::vector<I2> r; for (int i = 0; i < k; ++i) r.push_back(2 * gp(d(W * H), W)); return r; }
template <class Poly> static void at(const std::vector<I2>& r, const Frame& f, const std::vector<I2>& qs, Ctx& x) {
    AbsCmp cmp(1e-10);
    Poly g; for (auto p : r) g.push_back(f(p.x / 2., p.y / 2.));
    for (auto q : qs) {
        i64 qx = q.x, qy = q.y; P2 Q = f(qx / 2., qy / 2.);
        int s = ring_side(r, q);
        bool v = std::find(r.begin(), r.end(), q) != r.end();
        if (s) x.check(point_in_polygon(Q, g) == (s > 0), "point_in_polygon(%g,%g) should be %d", qx / 2., qy / 2., s > 0);
        auto c = point_polygon_containment_or_on_border(Q, g, cmp);
        auto w = v ? polygon_containment::vertex : s == 0 ? polygon_containment::border : s > 0 ? polygon_containment::interior : polygon_containment::exterior;
        x.check(c == w, "containment of (%g,%g) is %d, should be %d", qx / 2., qy / 2., int(c), int(w));
        x.outcome(int(w));
        if (x.failed) return;
    }
}
template <class Poly> static void all(const std::vector<I2>& r, const Frame& f, int W, int H, Ctx& x) {
    std::vector<I2> q; for (int qx : half_coords(W)) for (int qy : half_coords(H)) q.push_back({qx, qy});
    at<Poly>(r, f, q, x);
}
static void rings(u64 i, Ctx& x, int k, int W, int H) {
    Dec d(i);
    auto r = ring(d, k, W, H);
    if (!ring_simple(r)) return x.skip();
    u64 h = k; for (auto p : r) h = mc::H(h, p.x, p.y);
    for (int fi = 0; fi < NAF; ++fi) {
        if (NM && !FR[fi].exact) continue;
        x.in("doubled ring %s frame %s", str(r).c_str(), FR[fi].name);
        if (k & 1) all<G2>(r, FR[fi], W, H, x); else all<L2>(r, FR[fi], W, H, x);
        if (x.failed) return;
    }
    x.state(h);
}
MC_SPACE("triangles4x4", "all triangles of a 4x4 grid, both windings, 10 frames, 121 query points each", 4096, [](u64 i, Ctx& x) { rings(i, x, 3, 4, 4); });
MC_SPACE("quads4x4", "all simple quadrilaterals of a 4x4 grid, 10 frames, 121 query points each", 65536, [](u64 i, Ctx& x) { rings(i, x, 4, 4, 4); });
MC_SPACE("pentagons3x4", "all simple pentagons of a 3x4 grid, 10 frames, 99 query points each", 248832, [](u64 i, Ctx& x) { rings(i, x, 5, 3, 4); });
MC_SPACE("pentagons4x4", "all simple pentagons of a 4x4 grid, 10 frames, 121 query points each", 0, 1048576, [](u64 i, Ctx& x) { rings(i, x, 5, 4, 4); });
MC_SPACE("hexagons3x3", "all simple hexagons of a 3x3 grid, 10 frames, 81 query points each", 531441, [](u64 i, Ctx& x) { rings(i, x, 6, 3, 3); });
MC_SPACE("heptagons3x4", "all simple heptagons of a 3x4 grid that start at the first vertex, 10 frames", 0, 2985984, [](u64 i, Ctx& x) { rings(i * 12, x, 7, 3, 4); });
MC_SIZES("sizes", "combs, convex rings, stars, stairs, ribbons and parabolas of 6..45 vertices, 5 starting vertices, both windings, 4 frames, points next to every vertex and edge", 6ull * 5 * 2 * 4, 40, 40, [](u64 i, Ctx& x) {
    Dec d(i); const Frame& f = FR[d(4) * 2 + 1]; bool rev = d(2); int st = d(5), kind = d(6), n = big_n(d.v); if (!big_ok(kind, n)) return x.skip(); auto r = turned(big_ring(kind, n), st * n / 5, rev); for (auto& p : r) p = 2 * p;
    x.in("doubled ring %s frame %s", x.verbose ? str(r).c_str() : "", f.name); auto q = around(r, true); at<G2>(r, f, q, x); at<L2>(r, f, q, x);
    if (kind == 5 || (kind == 1 && n < 40)) { AbsCmp cmp(1e-10); std::vector<I2> c = r; if ((area2(c) > 0) != (f.orient > 0)) std::reverse(c.begin(), c.end()); G2 g; for (auto p : c) g.push_back(f(p.x / 2., p.y / 2.)); for (auto p : q) { int s = ring_side(r, p); if (!s && !f.exact) continue; bool in = s >= 0; x.check(point_in_convex_polygon(f(p.x / 2., p.y / 2.), g, cmp) == in, "point_in_convex_polygon(%g,%g) should be %d", p.x / 2., p.y / 2., in); } }
    x.state(mc::H(i / 4)); });
MC_SPACE("giant", "a comb and stairs of 66001 vertices, from 3 vertices, both windings, 2 frames, points next to the vertices where 8, 16 bits and the sequence end", 2ull * 2 * 3 * 2, [](u64 i, Ctx& x) {
    Dec d(i); const Frame& f = FR[d(2) * 3]; bool rev = d(2); int st = d(3), kind = d(2) * 3, n = GIANT; auto r = turned(big_ring(kind, n), st * 21999, rev); for (auto& p : r) p = 2 * p; x.in("%s of %d vertices from %d, %s, %s", kind ? "stairs" : "comb", n, st * 21999, rev ? "reversed" : "as is", f.name); at<G2>(r, f, far_around(r), x); x.state(mc::H(i / 2)); });
MC_SPACE("convex-giant", "the convex ring of 66001 vertices on a parabola, from 6 starting vertices, 2 frames, points next to the vertices where 8, 16 bits and the sequence end", 2ull * 6, [](u64 i, Ctx& x) {
    Dec d(i); const Frame& f = FR[d(2)]; int st = d(6), n = GIANT; auto r = turned(big_ring(5, n), st * 11000, false); for (auto& p : r) p = 2 * p; x.in("parabola of %d vertices from %d, %s", n, st * 11000, f.name);
    AbsCmp cmp(1e-10); G2 g; for (auto p : r) g.push_back(f(p.x / 2., p.y / 2.)); for (auto p : far_around(r)) { int s = ring_side(r, p); if (!s && !f.exact) continue; x.check(point_in_convex_polygon(f(p.x / 2., p.y / 2.), g, cmp) == (s >= 0), "point_in_convex_polygon(%g,%g) should be %d", p.x / 2., p.y / 2., s >= 0); x.outcome(s > 0 ? "inside" : s ? "outside" : "border"); } x.state(mc::H(i)); });

MC_SPACE("convex-large", "convex rings of 24, 40, 66, 131, 259 and 300 vertices on a parabola, from 9 starting vertices, points on, next to and between all vertices, 4 frames", 6ull * 9 * 4, [](u64 i, Ctx& x) {
    static const int N[] = {24, 40, 66, 131, 259, 300}; static const int FI[] = {0, 1, 2, 5}; Dec d(i); const Frame& f = FR[FI[d(4)]]; int st = d(9), n = N[d(6)]; std::vector<I2> r = turned(big_ring(5, n), st * n / 8, false); for (auto& p : r) p = 2 * p;
    std::vector<I2> q; for (int j = 0; j < n; ++j) { I2 a = r[j], b = r[(j + 1) % n], c = r[(j + n / 3) % n]; for (int k = 0; k < 9; ++k) q.push_back(a + I2{k % 3 - 1, k / 3 - 1}); q.push_back({(a.x + b.x) / 2, (a.y + b.y) / 2}); q.push_back({(a.x + c.x) / 2, (a.y + c.y) / 2}); q.push_back(2 * a - c); }
    x.in("doubled parabola of %d vertices from vertex %d frame %s", n, st * n / 8, f.name); AbsCmp cmp(1e-10); std::vector<I2> c = r; if ((area2(c) > 0) != (f.orient > 0)) std::reverse(c.begin(), c.end()); G2 g; for (auto p : c) g.push_back(f(p.x / 2., p.y / 2.));
    for (auto p : q) { int s = ring_side(r, p); if (!s && !f.exact) continue; bool in = s >= 0; x.check(point_in_convex_polygon(f(p.x / 2., p.y / 2.), g, cmp) == in, "point_in_convex_polygon(%g,%g) should be %d", p.x / 2., p.y / 2., in); if (s) x.check(point_in_polygon(f(p.x / 2., p.y / 2.), g) == in, "point_in_polygon(%g,%g) should be %d", p.x / 2., p.y / 2., in); }
    x.state(mc::H(i / 4)); });

static void convex(u64 i, Ctx& x, int k, int W, int H, bool strict) {
    Dec d(i);
    auto r = ring(d, k, W, H);
    if (!convex_ccw(r, strict)) return x.skip();
    AbsCmp cmp(1e-10);
    for (int fi = 0; fi < NAF; ++fi) {
        const Frame& f = FR[fi]; if (NM && !f.exact) continue;
        x.in("doubled convex ring %s frame %s", str(r).c_str(), f.name);
        std::vector<I2> rr = r; if (f.orient < 0) std::reverse(rr.begin(), rr.end());
        G2 g; for (auto p : rr) g.push_back(f(p.x / 2., p.y / 2.));
        for (int qx : half_coords(W)) for (int qy : half_coords(H)) {
            I2 q{qx, qy}; P2 Q = f(qx / 2., qy / 2.);
            bool in = ring_side(r, q) >= 0;
            x.check(point_in_convex_polygon(Q, g, cmp) == in, "point_in_convex_polygon(%g,%g) should be %d", qx / 2., qy / 2., in);
            if (k == 4) x.check(point_in_convex_quadrilateral(Q, g, cmp) == in, "point_in_convex_quadrilateral(%g,%g) should be %d", qx / 2., qy / 2., in);
            x.outcome(in);
            if (x.failed) return;
        }
    }
    u64 h = k; for (auto p : r) h = mc::H(h, p.x, p.y); x.state(h);
}
MC_SPACE("convex3", "all ccw triangles of a 4x4 grid, 10 frames", 4096, [](u64 i, Ctx& x) { convex(i, x, 3, 4, 4, true); });
MC_SPACE("convex4", "all strictly convex ccw quadrilaterals of a 4x4 grid, 10 frames", 65536, [](u64 i, Ctx& x) { convex(i, x, 4, 4, 4, true); });
MC_SPACE("convex5", "all strictly convex ccw pentagons of a 4x4 grid, 10 frames", 1048576, [](u64 i, Ctx& x) { convex(i, x, 5, 4, 4, true); });
MC_SPACE("convex6", "all strictly convex ccw hexagons of a 4x4 grid that start at one of the first 4 vertices, 10 frames", 0, 4194304, [](u64 i, Ctx& x) { convex(i / 4 * 16 + i % 4, x, 6, 4, 4, true); });
MC_SPACE("triangles-near", "all triangles of a 4x4 grid of near coincidences (columns and rows in pairs one step apart, 256 steps between pairs; exact frames), queries on and half a step around its lines", 4096, [](u64 i, Ctx& x) { Near m(256); rings(i, x, 3, 4, 4); });
MC_SPACE("quads-near", "all simple quadrilaterals of a 4x3 grid of near coincidences", 20736, [](u64 i, Ctx& x) { Near m(256); rings(i, x, 4, 4, 3); });
MC_SPACE("convex-near", "all strictly convex ccw quadrilaterals of a 4x4 grid of near coincidences", 65536, [](u64 i, Ctx& x) { Near m(256); convex(i, x, 4, 4, 4, true); });
