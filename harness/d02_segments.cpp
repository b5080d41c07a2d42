// D02: distance and closest points of segments to segments, polylines and polygons.
#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/distance/eberly_segment_segment_distance.hpp>
using namespace gx;
static double rt(Q q) { return std::sqrt(q.dbl()); }
static bool near(double a, double b, double scale) { return std::fabs(a - b) <= (SX > 1 || NM ? 2e-5 : 1e-6) * scale; }
static bool near2(double a, double b, double scale) { return std::fabs(a - b) <= 1e-8 * scale * scale; }

static void pairs(u64 i, Ctx& x, int W, int H) {
    Dec d(i); int fi = d(NFR); const Frame& f = FR[fi]; int n = W * H; double sc = f.scale;
    I2 a = gp(d(n), W), b = gp(d(n), W), c = gp(d(n), W), e = gp(d(n), W);
    AbsCmp cmp(1e-10); if (NM && !f.exact) return x.skip();
    x.in("segments " PF PF " " PF PF " frame %s", PA(a), PA(b), PA(c), PA(e), f.name);
    Q d2 = seg_seg_dist2(a, b, c, e); double E2 = d2.dbl() * sc * sc, E = rt(d2) * sc;
    P2 A = f(a), B = f(b), C = f(c), D = f(e);
    double s = -7, t = -7; P2 p, q;
    double r = segment_segment_closest_point(A, B, C, D, s, t, p, q, cmp);
    x.check(near2(r, E2, sc), "squared distance %.17g, exact %.17g", r, E2);
    x.check(s >= 0 && s <= 1 && t >= 0 && t <= 1, "parameters %g %g", s, t);
    x.check(same(p, P2(A + s * V2(B - A))) && same(q, P2(C + t * V2(D - C))), "the closest points are not those of the parameters");
    x.check(near(dist(p, q), E, sc), "the closest points are %.17g apart, exact %.17g", dist(p, q), E);
    x.check(near2(segment_segment_distance_sqrd(A, B, C, D, cmp), E2, sc) && near(segment_segment_distance(A, B, C, D, cmp), E, sc), "distance (points) %.17g, exact %.17g", segment_segment_distance(A, B, C, D, cmp), E);
    if (a != b && c != e) {
        S2 u(A, B), v(C, D);
        x.check(near2(segment_segment_distance_sqrd(u, v, cmp), E2, sc) && near(segment_segment_distance(u, v, cmp), E, sc), "distance %.17g, exact %.17g", segment_segment_distance(u, v, cmp), E);
        x.check(near2(eberly_segment_segment_distance_sqrd(u, v), E2, sc), "eberly squared distance %.17g, exact %.17g", eberly_segment_segment_distance_sqrd(u, v), E2);
        x.outcome(d2 == Q(0) ? "meet" : cross(b - a, e - c) == 0 ? "parallel" : "apart");
    } else x.outcome("degenerate");
    x.state(mc::H(a.x, a.y, b.x, b.y, c.x, c.y, e.x, e.y));
}
MC_SPACE("pairs4x4", "all pairs of segments (also degenerate) of a 4x4 grid, 8 frames", 8ull * 65536, [](u64 i, Ctx& x) { pairs(i, x, 4, 4); });
MC_SPACE("pairs-thin", "all pairs of segments (also degenerate) of a 4x4 grid stretched 150 times, 8 frames", 8ull * 65536, [](u64 i, Ctx& x) { Stretch s(150); pairs(i, x, 4, 4); });
MC_SPACE("pairs6x5", "all pairs of segments (also degenerate) of a 6x5 grid, 8 frames", 0, 8ull * 810000, [](u64 i, Ctx& x) { pairs(i, x, 6, 5); });

// closest point of a segment on a chain: the reported index, parameters, points and distance agree with each other and with the exact minimum
template <class C> static void result(Ctx& x, const char* what, const P2& A, const P2& B, const C& c, double r, std::size_t k, double s, double t, const P2& p, const P2& q, Q d2, double sc, double unit, const std::vector<I2>& ring, I2 a, I2 b, std::size_t lo, std::size_t hi, bool closed) {
    x.check(near2(r, d2.dbl() * unit * unit, sc), "%s: squared distance %.17g, exact %.17g", what, r, d2.dbl() * unit * unit);
    std::size_t n = ring.size();
    x.check(k < n && (closed || k + 1 < n) && k >= lo && k < hi, "%s: edge index %zu", what, k);
    if (x.failed) return;
    const P2 &U = c[k], &V = c[(k + 1) % n];
    x.check(seg_seg_dist2(a, b, ring[k], ring[(k + 1) % n]) == d2, "%s: edge %zu is not a closest edge", what, k);
    x.check(s >= 0 && s <= 1 && t >= 0 && t <= 1, "%s: parameters %g %g", what, s, t);
    x.check(same(p, P2(A + s * V2(B - A))) && same(q, P2(U + t * V2(V - U))), "%s: the closest points are not those of the parameters on edge %zu", what, k);
    x.check(near(dist(p, q), rt(d2) * unit, sc), "%s: the closest points are %.17g apart, exact %.17g", what, dist(p, q), rt(d2) * unit);
}
static void chainof(Ctx& x, I2 a, I2 b, const std::vector<I2>& r, const Frame& f, double tol, bool parts) {
    int k = r.size(); double sc = f.scale * tol, unit = f.scale;
    AbsCmp cmp(1e-10);
    x.in("segment " PF PF " chain %s frame %s", PA(a), PA(b), str(r).c_str(), f.name);
    P2 A = f(a), B = f(b); S2 sg(A, B); L2 l = mk<L2>(r, f); G2 g = mk<G2>(r, f);
    auto close = [&](int j) { return k < 1000 || std::abs(r[j].x - a.x) < 60 && std::abs(r[j].y - a.y) < 60 || std::abs(r[j].x - r[j + 1].x) + std::abs(r[j].y - r[j + 1].y) > 60; };
    Q dl(i64(1) << 60); for (int j = 0; j + 1 < k; ++j) if (close(j)) dl = qmin(dl, seg_seg_dist2(a, b, r[j], r[j + 1]));
    double el = rt(dl) * unit;
    x.check(near(segment_polyline_distance(sg, l, cmp), el, sc) && near(segment_polyline_distance(A, B, l, cmp), el, sc) && near2(segment_polyline_distance_sqrd(sg, l, cmp), el * el, sc) && near2(segment_polyline_distance_sqrd(A, B, l, cmp), el * el, sc), "polyline distance %.17g, exact %.17g", segment_polyline_distance(sg, l, cmp), el);
    std::size_t idx = 99; double s = -7, t = -7, rr; P2 p, q;
    rr = segment_polyline_closest_point(A, B, l, idx, s, t, p, q, cmp); result(x, "polyline", A, B, l, rr, idx, s, t, p, q, dl, sc, unit, r, a, b, 0, k - 1, false);
    idx = 99; s = t = -7; rr = segment_polyline_closest_point(sg, l, idx, s, t, p, q, cmp); result(x, "polyline (segment)", A, B, l, rr, idx, s, t, p, q, dl, sc, unit, r, a, b, 0, k - 1, false);
    // sub ranges of edges [u,v)
    for (int u = 0; u + 1 < k; u += parts ? 1 : 1 + k / 4) for (int v = u + 1; v < k; v += parts ? 1 : 1 + k / 5) {
        Q ds(i64(1) << 60); for (int j = u; j < v; ++j) if (close(j)) ds = qmin(ds, seg_seg_dist2(a, b, r[j], r[j + 1])); if (k > 1000 && Q(400) < ds) continue;
        auto sub = std::make_tuple(std::size_t(u), std::size_t(v));
        idx = 99; s = t = -7; rr = segment_polyline_closest_point(A, B, sub, l, idx, s, t, p, q, cmp); result(x, "polyline part", A, B, l, rr, idx, s, t, p, q, ds, sc, unit, r, a, b, u, v, false);
        idx = 99; s = t = -7; rr = segment_polygon_closest_point(A, B, sub, g, idx, s, t, p, q, cmp); result(x, "polygon part", A, B, g, rr, idx, s, t, p, q, ds, sc, unit, r, a, b, u, v, false);
        idx = 99; s = t = -7; rr = segment_polyline_closest_point(sg, sub, l, idx, s, t, p, q, cmp); result(x, "polyline part (segment)", A, B, l, rr, idx, s, t, p, q, ds, sc, unit, r, a, b, u, v, false);
        idx = 99; s = t = -7; rr = segment_polygon_closest_point(sg, sub, g, idx, s, t, p, q, cmp); result(x, "polygon part (segment)", A, B, g, rr, idx, s, t, p, q, ds, sc, unit, r, a, b, u, v, false);
        x.check(near2(segment_subpolyline_distance_sqrd(A, B, sub, l, cmp), ds.dbl() * unit * unit, sc) && near2(segment_subpolygon_distance_sqrd(A, B, sub, g, cmp), ds.dbl() * unit * unit, sc), "distance to a part %d..%d", u, v);
    }
    if (k > 2 && r[0] != r[k - 1]) {
        Q dp = qmin(dl, seg_seg_dist2(a, b, r[k - 1], r[0])); double ep = rt(dp) * unit;
        x.check(near(segment_polygon_distance(sg, g, cmp), ep, sc) && near(segment_polygon_distance(A, B, g, cmp), ep, sc) && near2(segment_polygon_distance_sqrd(sg, g, cmp), ep * ep, sc) && near2(segment_polygon_distance_sqrd(A, B, g, cmp), ep * ep, sc), "polygon distance %.17g, exact %.17g", segment_polygon_distance(sg, g, cmp), ep);
        idx = 99; s = t = -7; rr = segment_polygon_closest_point(A, B, g, idx, s, t, p, q, cmp); result(x, "polygon", A, B, g, rr, idx, s, t, p, q, dp, sc, unit, r, a, b, 0, k, true);
        idx = 99; s = t = -7; rr = segment_polygon_closest_point(sg, g, idx, s, t, p, q, cmp); result(x, "polygon (segment)", A, B, g, rr, idx, s, t, p, q, dp, sc, unit, r, a, b, 0, k, true);
        x.outcome(dp == dl ? "open edge" : "closing edge");
    }
}
static void chain(u64 i, Ctx& x, int k, int W, int H) {
    Dec d(i); int fi = d(4) * 2 + (i & 1); const Frame& f = FR[fi]; int n = W * H;
    I2 a = gp(d(n), W), b = gp(d(n), W);
    std::vector<I2> r; for (int j = 0; j < k; ++j) r.push_back(gp(d(n), W));
    if (a == b || (NM && !f.exact)) return x.skip();
    for (int j = 0; j + 1 < k; ++j) if (r[j] == r[j + 1]) return x.skip();
    chainof(x, a, b, r, f, 1, true);
    x.state(mc::H(i / 4, k));
}
MC_SIZES("sizes", "combs, convex rings, stars, stairs, ribbons, parabolas, zigzags, spirals, saws of 6..25 (thorough: 45) vertices, 3 starting vertices, both directions, 4 frames, segments next to every third vertex in 6 directions", 4ull * 2 * 3 * 12, 20, 40, [](u64 i, Ctx& x) {
    static const I2 V[] = {{1, 0}, {-1, 2}, {0, -4}, {-7, -3}, {25, 4}, {-3, 30}};
    Dec d(i); const Frame& f = FR[d(4) * 2 + 1]; bool rev = d(2); int st = d(3), kind = d(12), n = big_n(d.v); if (!big_ok(kind, n)) return x.skip(); auto r = kind < 6 ? turned(big_ring(kind, n), st * n / 3, rev) : turned(big_chain(kind - 6, n), 0, rev); if (kind >= 6 && st) return x.skip();
    for (int k = st; k < n; k += n > 45 ? 3 + n / 16 : 3) for (int j = 0; j < 6; ++j) { I2 a = r[k] + I2{(k + j) % 3 - 1, (k / 3) % 3 - 1}; chainof(x, a, a + V[j], r, f, 200, false); if (x.failed) return; }
    x.state(mc::H(i / 4)); });
MC_SPACE("giant", "a comb, stairs and a zigzag of 66001 vertices, both directions, 2 frames, segments next to the vertices where 8, 16 bits and the sequence end in 6 directions", 6ull * 2 * 2 * 3 * 4, [](u64 i, Ctx& x) { static const I2 V[] = {{1, 0}, {-1, 2}, {0, -4}, {-7, -3}, {5, 4}, {-3, 30}};
    Dec d(i); int j = d(6), part = d(4); const Frame& f = FR[d(2) * 4]; bool rev = d(2); int kind = d(3), at = 0; auto r = turned(kind < 2 ? big_ring(3 * kind, GIANT) : big_chain(0, GIANT), kind < 2 ? 21999 : 0, rev);
    for (int k : far_places(GIANT)) { if (at++ % 4 != part) continue; I2 a = r[k] + I2{(k + j) % 3 - 1, (k / 3) % 3 - 1}; chainof(x, a, a + V[j], r, f, 200, false); if (x.failed) return; } x.state(mc::H(i)); });
MC_SPACE("chain3", "all segments and 3-vertex chains of a 3x3 grid, 4 frames", 4ull * 59049, [](u64 i, Ctx& x) { chain(i, x, 3, 3, 3); });
MC_SPACE("chain-thin", "all segments and 3-vertex chains of a 3x3 grid stretched 150 times, 4 frames", 4ull * 59049, [](u64 i, Ctx& x) { Stretch s(150); chain(i, x, 3, 3, 3); });
MC_SPACE("chain4of2x4", "all segments and 4-vertex chains of a 2x4 grid, 4 frames", 4ull * 262144, [](u64 i, Ctx& x) { chain(i, x, 4, 2, 4); });
MC_SPACE("chain4", "all segments and 4-vertex chains of a 3x3 grid, 4 frames", 0, 4ull * 531441, [](u64 i, Ctx& x) { chain(i, x, 4, 3, 3); });
MC_SPACE("chain3of4x3", "all segments and 3-vertex chains of a 4x3 grid, 4 frames", 0, 4ull * 248832, [](u64 i, Ctx& x) { chain(i, x, 3, 4, 3); });
MC_SPACE("pairs-near", "all pairs of segments (also degenerate) of a 4x4 grid of near coincidences (columns and rows in pairs one step apart, 256 steps between pairs; exact frames)", 8ull * 65536, [](u64 i, Ctx& x) { Near m(256); pairs(i, x, 4, 4); });
MC_SPACE("chain-near", "all segments and 3-vertex chains of a 3x3 grid of near coincidences, exact frames", 4ull * 59049, [](u64 i, Ctx& x) { Near m(256); chain(i, x, 3, 3, 3); });
