// D01: distances and closest points from a point to points, segments, lines, polylines and polygons.
#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/line.hpp>
using namespace gx;

static double rt(Q q) { return std::sqrt(q.dbl()); }
static bool near(double a, double b, double scale) { return std::fabs(a - b) <= (SX > 1 || NM ? 2e-5 : 1e-6) * scale; }           // distances
static bool near2(double a, double b, double scale) { return std::fabs(a - b) <= 1e-8 * scale * scale; }   // squared

static void seg2(u64 i, Ctx& x, int W, int H) {
    Dec d(i); int fi = d(NFR); const Frame& f = FR[fi]; int n = W * H;
    I2 a = gp(d(n), W), b = gp(d(n), W), p = gp(d(n), W);
    if (NM && !f.exact) return x.skip(); x.in("segment " PF PF " point " PF " frame %s", PA(a), PA(b), PA(p), f.name);
    P2 A = f(a), B = f(b), P = f(p); double sc = f.scale;
    Q t; Q d2 = seg_dist2(a, b, p, &t); P2 c = f(Q2(a) + t * (Q2(b) - Q2(a)));
    x.check(near2(point_segment_distance_sqrd(P, A, B), d2.dbl() * sc * sc, sc), "point_segment_distance_sqrd(p,a,b) %.17g, exact %.17g", point_segment_distance_sqrd(P, A, B), d2.dbl() * sc * sc);
    P2 c2 = point_segment_closest_point(P, A, B);
    x.check(same(c2, c), "closest point (p,a,b) (%g,%g), exact (%g,%g)", X(c2), Y(c2), X(c), Y(c));
    double tt = -7; P2 c3 = point_segment_closest_point_and_param(P, A, B, tt);
    Q tl = a == b ? Q(0) : Q(dot(p - a, b - a), dot(b - a, b - a));
    x.check(same(c3, c), "closest point and param (%g,%g), exact (%g,%g)", X(c3), Y(c3), X(c), Y(c));
    x.check(mc::close(tt, tl.dbl(), 1e-9), "parameter %.17g, exact %.17g", tt, tl.dbl());
    Q pp(dot(p - a, p - a));
    x.check(near2(point_point_distance_sqrd(P, A), pp.dbl() * sc * sc, sc) && near(point_point_distance(P, A), rt(pp) * sc, sc), "point_point_distance %.17g, exact %.17g", point_point_distance(P, A), rt(pp) * sc);
    Q pb(dot(p - b, p - b));
    distance_compare<P2, AbsCmp> dc(P, AbsCmp(1e-6 * sc * sc));
    x.check(dc(A, B) == (pp < pb), "distance_compare %d, exact %d", dc(A, B), pp < pb);
    x.outcome(t == Q(0) ? "start" : t == Q(1) ? "end" : "inner");
    if (a != b) {
        S2 s(A, B);
        x.check(near2(point_segment_distance_sqrd(P, s), d2.dbl() * sc * sc, sc) && near(point_segment_distance(P, s), rt(d2) * sc, sc), "point_segment_distance(p,s) %.17g, exact %.17g", point_segment_distance(P, s), rt(d2) * sc);
        P2 c4 = point_segment_closest_point(P, s);
        x.check(same(c4, c), "closest point (p,s) (%g,%g), exact (%g,%g)", X(c4), Y(c4), X(c), Y(c));
        double sd = double(cross(b - a, p - a)) / std::sqrt(double(dot(b - a, b - a))) * sc * f.orient;
        line<P2> l1(A, B), l2(A, V2(B - A)), l3(s);
        for (auto* l : {&l1, &l2, &l3}) {
            x.check(near(signed_point_line_distance(P, *l), sd, sc), "signed distance to the line %.17g, exact %.17g", signed_point_line_distance(P, *l), sd);
            x.check(near(point_line_distance(P, *l), std::fabs(sd), sc), "distance to the line %.17g, exact %.17g", point_line_distance(P, *l), std::fabs(sd));
        }
    }
    x.state(mc::H(a.x, a.y, b.x, b.y, p.x, p.y));
}
MC_SPACE("segments5x5", "all segments (also degenerate) and points of a 5x5 grid, 8 frames", 8ull * 15625, [](u64 i, Ctx& x) { seg2(i, x, 5, 5); });
MC_SPACE("segments-thin", "all segments (also degenerate) and points of a 5x5 grid stretched 150 times, 8 frames", 8ull * 15625, [](u64 i, Ctx& x) { Stretch s(150); seg2(i, x, 5, 5); });
MC_SPACE("segments9x8", "all segments (also degenerate) and points of a 9x8 grid, 8 frames", 0, 8ull * 373248, [](u64 i, Ctx& x) { seg2(i, x, 9, 8); });

static void seg3(u64 i, Ctx& x, int W) {
    Dec d(i); int fi = d(NFR3); const Frame3& f = FR3[fi]; int n = W * W * W;
    I3 a = gp3(d(n), W), b = gp3(d(n), W), p = gp3(d(n), W);
    x.in("segment " PF3 PF3 " point " PF3 " frame %s", PA3(a), PA3(b), PA3(p), f.name);
    P3 A = f(a), B = f(b), P = f(p); double sc = f.scale;
    I3 v = b - a; i64 l = dot(v, v); double tl = l ? double(dot(p - a, v)) / l : 0, t = std::min(1., std::max(0., tl));
    double cx[3] = {a.x + t * v.x, a.y + t * v.y, a.z + t * v.z};
    Q d2(dot(p - a, p - a)); if (l && tl >= 1) d2 = Q(dot(p - b, p - b)); else if (l && tl > 0) { I3 k = cross(v, p - a); d2 = Q(dot(k, k), l); }
    P3 c = f(cx[0], cx[1], cx[2]);
    x.check(near2(point_segment_distance_sqrd(P, A, B), d2.dbl() * sc * sc, sc), "point_segment_distance_sqrd %.17g, exact %.17g", point_segment_distance_sqrd(P, A, B), d2.dbl() * sc * sc);
    P3 c2 = point_segment_closest_point(P, A, B);
    x.check(same(c2, c, 1e-9), "closest point (p,a,b)");
    double tt = -7; P3 c3 = point_segment_closest_point_and_param(P, A, B, tt);
    x.check(same(c3, c, 1e-9) && mc::close(tt, tl), "closest point and parameter %.17g, exact %.17g", tt, tl);
    Q pp(dot(p - a, p - a));
    x.check(near2(point_point_distance_sqrd(P, A), pp.dbl() * sc * sc, sc) && near(point_point_distance(P, A), rt(pp) * sc, sc), "point_point_distance");
    if (l) {
        S3 s(A, B);
        x.check(near2(point_segment_distance_sqrd(P, s), d2.dbl() * sc * sc, sc) && near(point_segment_distance(P, s), rt(d2) * sc, sc), "point_segment_distance %.17g, exact %.17g", point_segment_distance(P, s), rt(d2) * sc);
        x.check(same(P3(point_segment_closest_point(P, s)), c, 1e-9), "closest point (p,s)");
    }
    x.outcome(t == 0 ? "start" : t == 1 ? "end" : "inner");
    x.state(mc::H(a.x, a.y, a.z, b.x, b.y, b.z, p.x, p.y, p.z));
}
MC_SPACE("space3", "all segments and points of a 3x3x3 grid, 4 frames", 4ull * 19683, [](u64 i, Ctx& x) { seg3(i, x, 3); });
MC_SPACE("space5", "all segments and points of a 5x5x5 grid, 4 frames", 0, 4ull * 1953125, [](u64 i, Ctx& x) { seg3(i, x, 5); });

// vertices k polylines / polygons, all queries of a half-integer grid around them
static void seqat(Ctx& x, const std::vector<I2>& r, const Frame& f, const std::vector<I2>& queries, double sc) {
    int k = r.size(); double unit = f.scale;
    auto str = [&](const std::vector<I2>& v) { return v.size() > 1000 ? std::to_string(v.size()) + " points" : ::str(v); };
    L2 pl; G2 pg; for (auto p : r) { P2 q = f(p.x / 2., p.y / 2.); pl.push_back(q); pg.push_back(q); }
    for (auto q : queries) {
        int qx = q.x, qy = q.y; P2 P = f(qx / 2., qy / 2.);
        Q dl(1 << 30); for (int j = 0; j + 1 < k; ++j) if (k < 1000 || (std::abs(r[j].x - q.x) < 40 && std::abs(r[j].y - q.y) < 40)) dl = qmin(dl, seg_dist2(r[j], r[j + 1], q));
        Q dp = qmin(dl, seg_dist2(r[k - 1], r[0], q));
        double el = rt(dl) / 2 * unit, ep = rt(dp) / 2 * unit;
        x.check(near2(point_polyline_distance_sqrd(P, pl), el * el, sc) && near(point_polyline_distance(P, pl), el, sc), "distance of (%g,%g) to polyline %s %s: %.17g, exact %.17g", qx / 2., qy / 2., str(r).c_str(), f.name, point_polyline_distance(P, pl), el);
        P2 c = point_polyline_closest_point(P, pl);
        x.check(near(dist(c, P), el, sc) && near(point_polyline_distance(c, pl), 0, sc), "closest point (%g,%g) on polyline %s to (%g,%g) %s", X(c), Y(c), str(r).c_str(), qx / 2., qy / 2., f.name);
        if (r[0] == r[k - 1] || k < 3) continue;
        x.check(near2(point_polygon_distance_sqrd(P, pg), ep * ep, sc) && near(point_polygon_distance(P, pg), ep, sc), "distance of (%g,%g) to polygon %s %s: %.17g, exact %.17g", qx / 2., qy / 2., str(r).c_str(), f.name, point_polygon_distance(P, pg), ep);
        c = point_polygon_closest_point(P, pg);
        x.check(near(dist(c, P), ep, sc) && near(point_polygon_distance(c, pg), 0, sc), "closest point (%g,%g) on polygon %s to (%g,%g) %s", X(c), Y(c), str(r).c_str(), qx / 2., qy / 2., f.name);
        x.outcome(dl == dp ? "open edge" : "closing edge");
        if (x.failed) return;
    }
}
static void seq(u64 i, Ctx& x, int k, int W, int H) {
    Dec d(i); int fi = d(NFR); const Frame& f = FR[fi];
    std::vector<I2> r, q; for (int j = 0; j < k; ++j) r.push_back(2 * gp(d(W * H), W));
    for (int j = 0; j + 1 < k; ++j) if (r[j] == r[j + 1]) return x.skip();
    if (NM && !f.exact) return x.skip(); for (int qx : half_coords(W, -1, -1)) for (int qy : half_coords(H, -1, -1)) q.push_back({qx, qy});
    seqat(x, r, f, q, f.scale);
    x.state(mc::H(i / NFR, k));
}
MC_SIZES("sizes", "combs, convex rings, stars, stairs, ribbons, parabolas, zigzags, spirals, saws of 6..25 (thorough: 45) vertices, 3 starting vertices, both directions, 4 frames, queries next to every vertex and edge", 4ull * 2 * 3 * 12, 20, 40, [](u64 i, Ctx& x) {
    Dec d(i); const Frame& f = FR[d(4) * 2 + 1]; bool rev = d(2); int st = d(3), kind = d(12), n = big_n(d.v); if (!big_ok(kind, n)) return x.skip(); auto r = kind < 6 ? turned(big_ring(kind, n), st * n / 3, rev) : turned(big_chain(kind - 6, n), 0, rev); for (auto& p : r) p = 2 * p; if (kind >= 6 && st) return x.skip();
    seqat(x, r, f, around(r, true), f.scale * 200); x.state(mc::H(i / 4)); });
MC_SPACE("giant", "a comb, stairs and a zigzag of 66001 vertices, both directions, 2 frames, queries next to the vertices where 8, 16 bits and the sequence end", 8ull * 2 * 2 * 3, [](u64 i, Ctx& x) { Dec d(i); int part = d(8); const Frame& f = FR[d(2) * 4]; bool rev = d(2); int k = d(3); auto r = turned(k < 2 ? big_ring(3 * k, GIANT) : big_chain(0, GIANT), k < 2 ? 21999 : 0, rev); for (auto& p : r) p = 2 * p;
    auto q = far_around(r), qs = q; qs.clear(); for (size_t k = part; k < q.size(); k += 8) qs.push_back(q[k]); x.in("%s of %d vertices, %s, %s", std::array<const char*, 3>{"comb", "stairs", "zigzag"}[k], GIANT, rev ? "reversed" : "as is", f.name); seqat(x, r, f, qs, 100 * f.scale); x.state(mc::H(i / 16, part)); });
MC_SPACE("chains3", "all polylines and polygons with 3 vertices of a 3x4 grid, half grid queries, 8 frames", 8ull * 1728, [](u64 i, Ctx& x) { seq(i, x, 3, 3, 4); });
MC_SPACE("chains-thin", "all polylines and polygons with 3 vertices of a 3x4 grid stretched 150 times, half grid queries, 8 frames", 8ull * 1728, [](u64 i, Ctx& x) { Stretch s(150); seq(i, x, 3, 3, 4); });
MC_SPACE("chains2", "all polylines with 2 vertices of a 5x5 grid, half grid queries, 8 frames", 8ull * 625, [](u64 i, Ctx& x) { seq(i, x, 2, 5, 5); });
MC_SPACE("chains4", "all polylines and polygons with 4 vertices of a 3x3 grid, half grid queries, 8 frames", 8ull * 6561, [](u64 i, Ctx& x) { seq(i, x, 4, 3, 3); });
MC_SPACE("chains5", "all polylines and polygons with 5 vertices of a 3x3 grid, half grid queries, 8 frames", 0, 8ull * 59049, [](u64 i, Ctx& x) { seq(i, x, 5, 3, 3); });

// collections of up to 3 triangles placed on a coarse grid
static void coll(u64 i, Ctx& x) {
    static const auto T = simple_rings(3, 2, 3); static const I2 off[] = {{0, 0}, {4, 1}, {-3, 5}};
    Dec d(i); const Frame& f = FR[d(4) * 2]; double sc = f.scale; int n = T.size(), m = 1 + d(3);
    std::vector<std::vector<I2>> rs; std::vector<G2> gs;
    for (int j = 0; j < m; ++j) { auto r = T[d(n)]; for (auto& p : r) p = p + off[(j + 1) % 3]; rs.push_back(r); gs.push_back(mk<G2>(r, f)); }
    for (int j = m; j < 3; ++j) if (d(n)) return x.skip();
    for (int qx = -4; qx <= 6; qx += 2) for (int qy = -1; qy <= 8; qy += 3) {
        Q e(1 << 30); for (auto& r : rs) for (int j = 0; j < 3; ++j) e = qmin(e, seg_dist2(r[j], r[(j + 1) % 3], I2{qx, qy}));
        P2 P = f(qx, qy); P2 c = point_polygon_collection_closest_point(P, gs);
        bool on = false; for (auto& g : gs) on |= near(point_polygon_distance(c, g), 0, sc);
        x.check(on && near(dist(c, P), rt(e) * sc, sc), "closest point (%g,%g) to (%d,%d) over %d polygons", X(c), Y(c), qx, qy, m);
    }
}
MC_SPACE("collections", "1..3 triangles of a 2x3 grid at three places, 24 queries, 4 frames", 4ull * 3 * 36 * 36 * 36, [](u64 i, Ctx& x) { coll(i, x); });
MC_SPACE("segments-near", "all segments (also degenerate) and points of a 6x5 grid of near coincidences (columns and rows in pairs one step apart, 256 steps between pairs; exact frames)", 8ull * 27000, [](u64 i, Ctx& x) { Near m(256); seg2(i, x, 6, 5); });
MC_SPACE("chains-near", "all polylines and polygons with 3 vertices of a 3x4 grid of near coincidences, queries on and half a step around its lines", 8ull * 1728, [](u64 i, Ctx& x) { Near m(256); seq(i, x, 3, 3, 4); });
