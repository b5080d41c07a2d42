// B05: segments and polylines against polygons and polylines.
#include "geo.hpp"
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/segment_mid_point.hpp>
#include <geometrix/algorithm/intersection/segment_polygon_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/polyline_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_projects_outside_polygon.hpp>
#include <geometrix/algorithm/polygon_with_holes_as_segment_range.hpp>
#include <set>
using namespace gx;
typedef std::vector<std::vector<I2>> Rings;
static Rings cat(std::initializer_list<Rings> l) { Rings r; for (auto& a : l) r.insert(r.end(), a.begin(), a.end()); return r; }
static const Rings& small() { static Rings r = cat({simple_rings(3, 3, 4), simple_rings(4, 3, 4)}); return r; }
static const Rings& penta() { static Rings r = simple_rings(5, 3, 4); return r; }
static const Rings& hexa() { static Rings r = simple_rings(6, 3, 3); return r; }
static const Rings& quad4() { static Rings r = simple_rings(4, 4, 4); return r; }
static const Rings& penta4() { static Rings r = simple_rings(5, 4, 4); return r; }
static const int FI[] = {0, 5, 9, 1};

// pieces of pq inside the closed ring, parameters
static std::vector<std::pair<Q, Q>> pieces(const std::vector<I2>& r, I2 p, I2 q, bool& touch, bool& out) {
    std::vector<std::pair<Q, Q>> v; out = false;
    auto c = ring_cuts(r, p, q, &touch);
    for (std::size_t i = 0; i + 1 < c.size(); ++i) { Q m = (c[i] + c[i + 1]) * Q(1, 2); if (ring_side(r, Q2(p) + m * Q2(q - p)) >= 0) v.push_back({c[i], c[i + 1]}); else out = true; }
    return v;
}
// relation of two segments: 0 none, 1 crossing, 2 touch, 3 overlap
static int rel(I2 a, I2 b, I2 c, I2 d) {
    if (!segs_meet(a, b, c, d)) return 0;
    if (cross(b - a, d - c)) return orient(a, b, c) && orient(a, b, d) && orient(c, d, a) && orient(c, d, b) ? 1 : 2;
    I2 lo = std::max(std::min(a, b), std::min(c, d)), hi = std::min(std::max(a, b), std::max(c, d));
    return lo == hi ? 2 : 3;
}
static int lib_rel(int t) { return t == e_non_crossing ? 0 : t == e_crossing ? 1 : t == e_endpoint ? 2 : t == e_overlapping ? 3 : -1; }
struct Ev { int t; std::size_t i, j; bool operator==(const Ev& o) const { return t == o.t && i == o.i && j == o.j; } };

static void one(const std::vector<I2>& r, I2 p, I2 q, const Frame& f, Ctx& x) {
    AbsCmp cmp(NM ? 1e-13 : 1e-9);
    int n = r.size();
    G2 g = mk<G2>(r, f); L2 l = mk<L2>(r, f);
    P2 P = f(p), Qp = f(q);
    bool touch, out; auto want = pieces(r, p, q, touch, out);
    std::vector<S2> got;
    bool hit = segment_polygon_intersection(S2(P, Qp), g, [&](const S2& s) { got.push_back(s); }, cmp);
    x.check(hit == (touch || !want.empty()), "segment/polygon reported %d, exact %d", hit, touch || !want.empty());
    auto par = [&](const P2& a) { double l2 = (X(Qp) - X(P)) * (X(Qp) - X(P)) + (Y(Qp) - Y(P)) * (Y(Qp) - Y(P)); return ((X(a) - X(P)) * (X(Qp) - X(P)) + (Y(a) - Y(P)) * (Y(Qp) - Y(P))) / l2; };
    std::vector<std::pair<double, double>> gp;
    for (auto& s : got) {
        double u = par(get_start(s)), v = par(get_end(s));
        x.check(same(get_start(s), P2(X(P) + u * (X(Qp) - X(P)), Y(P) + u * (Y(Qp) - Y(P)))) && same(get_end(s), P2(X(P) + v * (X(Qp) - X(P)), Y(P) + v * (Y(Qp) - Y(P)))), "a piece is not on the segment");
        gp.push_back({std::min(u, v), std::max(u, v)});
    }
    std::sort(gp.begin(), gp.end());
    // merge touching pieces on both sides and compare
    std::vector<std::pair<double, double>> a, b;
    for (auto& s : gp) if (!a.empty() && std::fabs(a.back().second - s.first) < 1e-7) a.back().second = s.second; else a.push_back(s);
    for (auto& s : want) { double u = s.first.dbl(), v = s.second.dbl(); if (!b.empty() && std::fabs(b.back().second - u) < 1e-7) b.back().second = v; else b.push_back({u, v}); }
    bool eq = a.size() == b.size(); for (std::size_t k = 0; eq && k < a.size(); ++k) eq = std::fabs(a[k].first - b[k].first) < 1e-7 && std::fabs(a[k].second - b[k].second) < 1e-7;
    x.check(eq, "%zu pieces inside (first [%g,%g]), exact %zu", a.size(), a.empty() ? 0. : a[0].first, a.empty() ? 0. : a[0].second, b.size());
    if (touch) x.check(segment_projects_outside_polygon(S2(P, Qp), g, cmp) == out, "segment leaves the polygon: exact %d", out);

    for (int closed = 0; closed < 2; ++closed) {
        std::vector<Ev> w, ev, ev1;
        for (int i = 0; i + (closed ? 0 : 1) < n; ++i) { int t = rel(p, q, r[i], r[(i + 1) % n]); if (t) w.push_back({t, std::size_t(i), std::size_t((i + 1) % n)}); }
        bool pts = true;
        auto vis = [&](intersection_type t, std::size_t i, std::size_t j, const P2& x0, const P2& x1) {
            ev.push_back({lib_rel(t), i, j});
            auto on = [&](const P2& z, I2 c, I2 d) { P2 C = f(c), D = f(d); return std::fabs(dist(z, C) + dist(z, D) - dist(C, D)) < 1e-7 * f.scale * 10 + 1e-9; };
            pts &= on(x0, p, q) && on(x0, r[i % n], r[j % n]);
            if (t == e_overlapping) pts &= on(x1, p, q) && on(x1, r[i % n], r[j % n]) && dist(x0, x1) > 1e-6;
            return false;
        };
        auto stop = [&](intersection_type t, std::size_t i, std::size_t j, const P2&, const P2&) { ev1.push_back({lib_rel(t), i, j}); return true; };
        bool h, h1;
        if (closed) { h = segment_polygon_border_intersect(P, Qp, g, vis, cmp); h1 = segment_polygon_border_intersect(S2(P, Qp), g, stop, cmp); }
        else { h = segment_polyline_intersect(P, Qp, l, vis, cmp); h1 = segment_polyline_intersect(S2(P, Qp), l, stop, cmp); }
        x.check(h == !w.empty() && h1 == h, "%s intersection reported %d, exact %d", closed ? "border" : "polyline", h, !w.empty());
        x.check(ev == w, "%s events differ: %zu, exact %zu", closed ? "border" : "polyline", ev.size(), w.size());
        x.check(pts, "an event point is not on both segments");
        x.check(ev1.size() == (w.empty() ? 0 : 1) && (w.empty() || ev1[0] == w[0]), "visiting does not stop when told to");
    }
    x.outcome(want.empty() ? (touch ? "touches" : "apart") : out ? "partly inside" : "inside");
}
static void rs(u64 i, Ctx& x, const Rings& R, int W, int H, int nf) {
    Dec d(i); int fi = FI[d(nf)]; I2 p = gp(d(W * H), W), q = gp(d(W * H), W); auto& r = R[d(R.size())];
    if (p == q || (NM && !FR[fi].exact)) return x.skip();
    x.in("ring %s segment " PF PF " frame %s", str(r).c_str(), PA(p), PA(q), FR[fi].name);
    one(r, p, q, FR[fi], x);
    x.state(mc::H(u64(i / nf)));
}
MC_SPACE("small", "all simple triangles/quadrilaterals x all segments, 3x4 grid, 3 frames", 3ull * 144 * small().size(), [](u64 i, Ctx& x) { rs(i, x, small(), 3, 4, 3); });
MC_SPACE("penta", "all simple pentagons x all segments, 3x4 grid, 3 frames", 3ull * 144 * penta().size(), [](u64 i, Ctx& x) { rs(i, x, penta(), 3, 4, 3); });
MC_SPACE("hexa", "all simple hexagons x all segments, 3x3 grid, 4 frames", 4ull * 81 * hexa().size(), [](u64 i, Ctx& x) { rs(i, x, hexa(), 3, 3, 4); });
MC_SPACE("quad4x4", "all simple quadrilaterals x all segments, 4x4 grid, 4 frames", 0, 4ull * 256 * quad4().size(), [](u64 i, Ctx& x) { rs(i, x, quad4(), 4, 4, 4); });
MC_SPACE("penta4x4", "all simple pentagons x all segments, 4x4 grid", 0, 256ull * penta4().size(), [](u64 i, Ctx& x) { rs(i, x, penta4(), 4, 4, 1); });

// segments between vertices, edge middles and points beyond, of large rings
static std::vector<I2> marks(const std::vector<I2>& z, int st) { std::vector<I2> m; int n = z.size(); for (int k = 0; k < 4; ++k) { int j = (st + k * n / 4) % n; I2 e = z[j] + z[(j + 1) % n]; m.push_back(z[j]); m.push_back({e.x / 2, e.y / 2}); m.push_back(z[j] + I2{k % 2 ? 1 : -1, k / 2 ? 1 : -3}); } i64 a = z[0].x, b = a, c = z[0].y, d = c; for (auto& p : z) { a = std::min(a, p.x); b = std::max(b, p.x); c = std::min(c, p.y); d = std::max(d, p.y); } m.push_back({a - 3, (c + d) / 2}); m.push_back({b + 2, (c + d) / 2 + 1}); m.push_back({(a + b) / 2, c - 5}); m.push_back({(a + b) / 2 + 1, d + 4}); return m; }
MC_SIZES("sizes", BIG " (rings only), segments between 16 vertices, edge middles and other points, 3 exact frames", 3 * BIGQ / 20, 20, 40, [](u64 i, Ctx& x) {
    Dec d(i); const Frame& f = FR[d(3)]; bool ch; auto r = big_any(d, &ch); if (r.empty() || ch) return x.skip(); for (auto& p : r) p = 2 * p; auto m = marks(r, i % 5); x.state(mc::H(i));
    for (auto p : m) for (auto q : m) if (p != q) { x.in("ring %s segment " PF PF " frame %s", x.verbose ? str(r).c_str() : "", PA(p), PA(q), f.name); one(r, p, q, f, x); if (x.failed) return; } });

MC_SPACE("giant", "a comb and stairs of 66001 vertices, both directions, 3 starting vertices, 2 exact frames, segments in 3 directions next to the vertices where 8, 16 bits and the sequence end", 2ull * 2 * 2 * 3 * 3, [](u64 i, Ctx& x) { static const I2 V[] = {{5, 0}, {-3, 7}, {1, -40}};
    Dec d(i); const Frame& f = FR[d(2) * 2]; bool rev = d(2); int kind = d(2), j = d(3), st = d(3); auto r = turned(big_ring(3 * kind, GIANT), st * 21999, rev); for (auto& p : r) p = 2 * p;
    for (int k : far_places(GIANT)) { I2 a = r[k] + I2{(k + j) % 3 - 1, (k / 3) % 3 - 1}; x.in("%s of %d vertices, %s from %d, segment at %d " PF PF " frame %s", kind ? "stairs" : "comb", GIANT, rev ? "reversed" : "as is", st, k, PA(a), PA((a + V[j])), f.name); one(r, a, a + V[j], f, x); if (x.failed) return; } x.state(mc::H(i)); });
static void ppof(Ctx& x, const std::vector<I2>& a, const std::vector<I2>& b, const Frame& f) {
    int na = a.size(), nb = b.size();
    x.in("polylines %s and %s frame %s", x.verbose ? str(a).c_str() : "", x.verbose ? str(b).c_str() : "", f.name);
    AbsCmp cmp(NM ? 1e-13 : 1e-9);
    struct E4 { int t; std::size_t i, j, k, l; bool operator==(const E4& o) const { return t == o.t && i == o.i && j == o.j && k == o.k && l == o.l; } };
    std::vector<E4> w, g, s;
    for (int j = 0; j + 1 < na; ++j) for (int k = 0; k + 1 < nb; ++k) { int t = rel(a[j], a[j + 1], b[k], b[k + 1]); if (t) w.push_back({t, std::size_t(j), std::size_t(j + 1), std::size_t(k), std::size_t(k + 1)}); }
    L2 A = mk<L2>(a, f), B = mk<L2>(b, f);
    bool h = polyline_polyline_intersect(A, B, [&](intersection_type t, std::size_t i1, std::size_t j1, std::size_t i2, std::size_t j2, const P2&, const P2&) { g.push_back({lib_rel(t), i1, j1, i2, j2}); return false; }, cmp);
    bool h2 = polyline_polyline_intersect(A, B, [&](intersection_type t, std::size_t i1, std::size_t j1, std::size_t i2, std::size_t j2, const P2&, const P2&) { s.push_back({lib_rel(t), i1, j1, i2, j2}); return true; }, cmp);
    x.check(h == !w.empty() && h2 == h, "intersection reported %d/%d, exact %d", h, h2, !w.empty());
    x.check(g == w, "%zu events, exact %zu", g.size(), w.size());
    x.check(s.size() == (w.empty() ? 0 : 1) && (w.empty() || s[0] == w[0]), "visiting does not stop when told to");
    x.outcome(int(std::min<std::size_t>(w.size(), 9)));
}
static void pp(u64 i, Ctx& x, int na, int nb, int W, int H) {
    Dec d(i); const Frame& f = FR[FI[d(3)]]; std::vector<I2> a, b; for (int j = 0; j < na; ++j) a.push_back(gp(d(W * H), W)); for (int j = 0; j < nb; ++j) b.push_back(gp(d(W * H), W));
    if (NM && !f.exact) return x.skip();
    for (int j = 0; j + 1 < na; ++j) if (a[j] == a[j + 1]) return x.skip();
    for (int j = 0; j + 1 < nb; ++j) if (b[j] == b[j + 1]) return x.skip();
    ppof(x, a, b, f); x.state(mc::H(u64(i / 2)));
}
MC_SIZES("polylinesizes", "all pairs of a large chain or ring and another of half or twice the size, turned or moved in 12 ways, exact frames", 3 * 12 * 12 * 2 * BIGQ / 3 / 20, 20, 40, [](u64 i, Ctx& x) {
    Dec d(i); const Frame& f = FR[d(3)]; int kb = d(12), mv = d(12), half = d(2); bool rev = d(2); int kind = d(12), n = big_n(d.v); if (!big_ok(kind, n) || (n > 30 && !big_ok(kb, 2 * n)) || (n > 45 && mv % 5)) return x.skip(); auto a = kind < 6 ? big_ring(kind, n) : big_chain(kind - 6, n), b = kb < 6 ? big_ring(kb, half ? n / 2 + 3 : 2 * n) : big_chain(kb - 6, half ? n / 2 + 3 : 2 * n); if (rev) std::reverse(a.begin(), a.end());
    for (auto& p : a) p = 2 * p; static const I2 O[] = {{0, 0}, {1, 1}, {2, 0}, {-3, 5}, {8, -4}, {5, 6}}; for (auto& p : b) { if (mv & 1) p = {-p.y, p.x}; p = p + O[mv / 2]; } ppof(x, a, b, f); x.state(mc::H(i)); });
MC_SPACE("polylines33", "all pairs of 3-vertex polylines of a 3x3 grid, 3 frames", 3ull * 531441, [](u64 i, Ctx& x) { pp(i, x, 3, 3, 3, 3); });
MC_SPACE("polylines23", "all pairs of 2- and 3-vertex polylines of a 4x3 grid, 3 frames", 3ull * 248832, [](u64 i, Ctx& x) { pp(i, x, 2, 3, 4, 3); });
MC_SPACE("polylines34", "all pairs of 3- and 4-vertex polylines of a 3x3 grid, 3 frames", 0, 3ull * 4782969, [](u64 i, Ctx& x) { pp(i, x, 3, 4, 3, 3); });

// a polygon with holes as a list of border segments
MC_SPACE("holes", "outer ring of 3..6, 0..3 holes of 3..5 vertices", 4 * 85, [](u64 i, Ctx& x) {
    Dec d(i); int no = 3 + d(4); int code = d(85); std::vector<int> h; if (code >= 1 && code < 4) h = {code + 2}; else if (code >= 4 && code < 13) h = {(code - 4) % 3 + 3, (code - 4) / 3 + 3}; else if (code >= 13 && code < 40) { int c = code - 13; h = {c % 3 + 3, c / 3 % 3 + 3, c / 9 + 3}; } else if (code >= 40) return x.skip();
    x.in("outer %d, %zu holes", no, h.size());
    int c = 0; auto mkp = [&](int k) { G2 g; for (int j = 0; j < k; ++j, ++c) g.push_back(P2(c * 1.5, c * c * .25)); return g; };
    polygon_with_holes<P2> p(mkp(no)); std::vector<int> szs{no}; for (int k : h) { p.add_hole(mkp(k)); szs.push_back(k); }
    auto s = polygon_with_holes_as_segment_range<S2>(p);
    std::size_t at = 0; int base = 0;
    for (int k : szs) { for (int j = 0; j < k; ++j, ++at) { int u = base + j, v = base + (j + 1) % k; x.check(at < s.size() && dist(get_start(s[at]), P2(u * 1.5, u * u * .25)) == 0 && dist(get_end(s[at]), P2(v * 1.5, v * v * .25)) == 0, "segment %zu", at); } base += k; }
    x.check(at == s.size(), "%zu segments, want %zu", s.size(), at);
    x.state(mc::H(no, code));
});
static const Rings& nsmall() { static Rings r = [] { Near m(256); return cat({simple_rings(3, 3, 4), simple_rings(4, 3, 3)}); }(); return r; }
MC_SPACE("small-near", "all simple triangles of a 3x4 and quadrilaterals of a 3x3 grid of near coincidences (columns and rows in pairs one step apart, 256 steps between pairs; exact frames) x all segments", 4ull * 144 * nsmall().size(), [](u64 i, Ctx& x) { Near m(256); rs(i, x, nsmall(), 3, 4, 4); });
MC_SPACE("polylines-near", "all pairs of 2- and 3-vertex polylines of a 4x3 grid of near coincidences, exact frames", 3ull * 248832, [](u64 i, Ctx& x) { Near m(256); pp(i, x, 2, 3, 4, 3); });
