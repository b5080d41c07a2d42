// E05: planes in space and lines in the plane: construction, side of points and point sets, crossing by segments and moving spheres.
#include "geo.hpp"
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/plane.hpp>
#include <geometrix/primitive/hyperplane_traits.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/triangle.hpp>
#include <geometrix/algorithm/classify_simplex_to_plane.hpp>
#include <geometrix/algorithm/intersection/segment_plane_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_plane_intersection.hpp>
using namespace gx;
using PO = plane_orientation;
static PO po(int s) { return s > 0 ? PO::in_front_of_plane : s < 0 ? PO::in_back_of_plane : PO::coplanar_with_plane; }
static PO both(int lo, int hi) { return lo < 0 && hi > 0 ? PO::straddling_plane : hi > 0 ? PO::in_front_of_plane : lo < 0 ? PO::in_back_of_plane : PO::coplanar_with_plane; }
static I3 g3(int k, int w) { return {k % w, k / w % w, k / w / w}; }
static double len(I3 n) { return std::sqrt(double(dot(n, n))); }
static bool nr(double a, double b, double s) { return std::fabs(a - b) <= 1e-9 * std::max(1., s); }
static double n3(const V3& v, const V3& w) { double m = 0; m = std::max(m, std::fabs(get<0>(v) - get<0>(w))); m = std::max(m, std::fabs(get<1>(v) - get<1>(w))); return std::max(m, std::fabs(get<2>(v) - get<2>(w))); }
static V3 fn(const Frame3& f, I3 n) { V3 v = f.vec(n); double l = f.orient * std::sqrt(get<0>(v) * get<0>(v) + get<1>(v) * get<1>(v) + get<2>(v) * get<2>(v)); return V3(get<0>(v) / l, get<1>(v) / l, get<2>(v) / l); } // the cross product turns round in a mirror

// every way of making the plane through a, b, c
struct Pl { plane<P3> p; const char* how; };
static std::vector<Pl> planes(const Frame3& f, I3 a, I3 b, I3 c) { V3 u = f.vec(b - a), v = f.vec(c - a); P3 A = f(a), B = f(b), C = f(c); return {{plane<P3>(A, B, C), "points"}, {plane<P3>(A, u, v), "vectors"}, {make_plane(A, u, v), "make_plane"}, {construct<plane<P3>>(A, u, v), "construct"}}; }
static bool pick(Dec& d, int w, I3& a, I3& b, I3& c, I3& n) { int k = w * w * w; a = g3(d(k), w); b = g3(d(k), w); c = g3(d(k), w); n = cross(b - a, c - a); return dot(n, n) != 0; }
MC_SPACE("plane points", "all planes through three points of a 3x3x3 grid, 4 ways to make them: all points of a 5x5x5 grid, with thin and thick comparison, 4 frames", 4ull * 19683, [](u64 i, Ctx& x) {
    Dec d(i); const Frame3& f = FR3[d(NFR3)]; I3 a, b, c, n; if (!pick(d, 3, a, b, c, n)) return x.skip(); double s = f.scale, l = len(n); x.in("plane (%lld,%lld,%lld)(%lld,%lld,%lld)(%lld,%lld,%lld) frame %s", (long long)a.x, (long long)a.y, (long long)a.z, (long long)b.x, (long long)b.y, (long long)b.z, (long long)c.x, (long long)c.y, (long long)c.z, f.name);
    V3 nn = fn(f, n); P3 A = f(a);
    for (auto& p : planes(f, a, b, c)) {
        x.check(same(p.p.get_reference_point(), A) && n3(p.p.get_normal_vector(), nn) < 1e-9, "%s: reference point or normal (%g,%g,%g)", p.how, get<0>(p.p.get_normal_vector()), get<1>(p.p.get_normal_vector()), get<2>(p.p.get_normal_vector()));
        x.check(nr(p.p.get_distance_to_origin(), get<0>(nn) * X(A) + get<1>(nn) * Y(A) + get<2>(nn) * Z(A), 100), "%s: distance to the origin %g", p.how, p.p.get_distance_to_origin());
        V3 u = f.vec(b - a), v = f.vec(c - a); double lu = len(b - a) * s, lv = len(c - a) * s; x.check(n3(p.p.get_u(), V3(get<0>(u) / lu, get<1>(u) / lu, get<2>(u) / lu)) < 1e-9 && n3(p.p.get_parallel_vector(), V3(get<0>(v) / lv, get<1>(v) / lv, get<2>(v) / lv)) < 1e-9, "%s: vectors", p.how);
        x.check(same(plane_access_traits<plane<P3>>::get_reference_point(p.p), A) && n3(hyperplane_access_traits<plane<P3>>::get_normal_vector(p.p), nn) < 1e-9, "%s: access traits", p.how);
        for (int k = 0; k < 125; ++k) { I3 q = g3(k, 5) - I3{1, 1, 1}; i64 o = dot(n, q - a) * f.orient; PO g = classify_point_to_plane(f(q), p.p, AbsCmp(1e-9)); if (!x.check(g == po(sgn(o)), "%s: point (%lld,%lld,%lld) at %lld classified %d", p.how, (long long)q.x, (long long)q.y, (long long)q.z, (long long)o, (int)g)) return;
            for (double th : {.3, 1.05}) { double h = o / l; if (std::fabs(std::fabs(h) - th) < 1e-6) continue; PO e = std::fabs(h) < th ? po(0) : po(sgn(o)); g = classify_point_to_plane(f(q), p.p, AbsCmp(th * s)); if (!x.check(g == e, "%s: point (%lld,%lld,%lld) at distance %g of %g thick classified %d", p.how, (long long)q.x, (long long)q.y, (long long)q.z, h, th, (int)g)) return; } x.outcome((int)g); } }
    x.state(mc::H(i / 4)); });
static void sets(u64 i, Ctx& x, int w) {
    Dec d(i); const Frame3& f = FR3[d(NFR3)]; I3 a, b, c, n; if (!pick(d, 2, a, b, c, n)) return x.skip(); double s = f.scale; plane<P3> p(f(a), f(b), f(c)); AbsCmp cmp(1e-9); int N = w * w * w; x.state(mc::H(i / 4, w));
    auto at = [&](I3 q) { return sgn(dot(n, q - a)) * f.orient; };
    for (int k = 0; k < N; ++k) for (int m = 0; m < N; ++m) { if (k == m) continue; I3 q = g3(k, w) - I3{1, 1, 1}, r = g3(m, w) - I3{1, 1, 1}; int sq = at(q), sr = at(r); x.in("plane (%lld,%lld,%lld)(%lld,%lld,%lld)(%lld,%lld,%lld) segment (%lld,%lld,%lld)(%lld,%lld,%lld) frame %s", (long long)a.x, (long long)a.y, (long long)a.z, (long long)b.x, (long long)b.y, (long long)b.z, (long long)c.x, (long long)c.y, (long long)c.z, (long long)q.x, (long long)q.y, (long long)q.z, (long long)r.x, (long long)r.y, (long long)r.z, f.name);
        P3 A = f(q), B = f(r); PO g = classify_simplex_to_plane(S3(A, B), p, cmp), e = both(std::min(sq, sr), std::max(sq, sr)); if (!x.check(g == e, "segment classified %d, exact %d", (int)g, (int)e)) return; x.outcome((int)e);
        for (I3 t3 : {I3{0, 0, 2}, I3{1, 2, -1}, I3{-1, 0, 1}, I3{2, 1, 1}}) { int st = at(t3); e = both(std::min({sq, sr, st}), std::max({sq, sr, st})); L3 pl{A, B, f(t3)}; G3 pg{A, B, f(t3)}; PO g1 = classify_simplex_to_plane(pl, p, cmp), g2 = classify_simplex_to_plane(pg, p, cmp); if (!x.check(g1 == e && g2 == e, "with a third point (%lld,%lld,%lld) classified %d, %d, exact %d", (long long)t3.x, (long long)t3.y, (long long)t3.z, (int)g1, (int)g2, (int)e)) return; }
        i64 o1 = dot(n, q - a), o2 = dot(n, r - a); double t = -7; P3 z(-99, -99, -99); if (o1 == o2) { if (o1 && f.exact && !segment_plane_intersection(A, B, p, t, z)) continue; if (o1 && f.exact) x.check(false, "parallel segment met"); continue; }
        bool hit = sgn(o1) * sgn(o2) <= 0, edge = !o1 || !o2; bool got = segment_plane_intersection(A, B, p, t, z); if (!edge && !x.check(got == hit, "segment_plane_intersection %d, exact %d", got, hit)) return;
        double te = double(o1) / double(o1 - o2); if (!x.check(nr(t, te, 1), "parameter %.17g, exact %.17g", t, te)) return; if (got) x.check(dist(z, f(q.x + te * (r.x - q.x), q.y + te * (r.y - q.y), q.z + te * (r.z - q.z))) < 1e-8 * std::max(1., s), "point (%g,%g,%g)", X(z), Y(z), Z(z)); if (x.failed) return; }
}
MC_SPACE("plane segments", "all planes through three points of a 2x2x2 grid: all segments of a 3x3x3 grid around it and the chains and triangles of a segment and one of 4 points, 4 frames", 4ull * 512, [](u64 i, Ctx& x) { sets(i, x, 3); });
MC_SPACE("plane segments4", "all planes through three points of a 2x2x2 grid: all segments of a 4x4x4 grid around it", 4ull * 512, [](u64 i, Ctx& x) { sets(i, x, 4); });
MC_SPACE("plane spheres", "spheres of radius 1, 2, 5 around all points of a 4x4x4 grid with every velocity in -1..1 against 20 planes, 4 frames", 4ull * 3 * 64 * 26 * 20, [](u64 i, Ctx& x) {
    static const I3 N[] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 0, 0}, {0, 0, -1}, {3, 4, 0}, {0, -3, 4}, {2, 2, 1}, {1, -2, 2}, {-2, 1, -2}, {1, 1, 1}, {1, 1, 0}, {0, 1, -1}, {2, -1, 0}, {1, 2, 3}, {-1, 1, 2}, {4, 0, 3}, {2, 3, 6}, {6, -2, 3}, {-3, 6, 2}};
    Dec d(i); const Frame3& f = FR3[d(NFR3)]; i64 r = std::array<int, 3>{1, 2, 5}[d(3)]; I3 c = g3(d(64), 4), a{1, 2, 1}; int k = d(26); k += k >= 13; I3 v = g3(k, 3) - I3{1, 1, 1}, n = N[d(20)]; double s = f.scale;
    I3 w = n.x || n.y ? I3{-n.y, n.x, 0} : I3{1, 0, 0}, u = cross(w, n); if (dot(cross(u, w), n) < 0) std::swap(u, w);
    x.in("sphere (%lld,%lld,%lld) radius %lld velocity (%lld,%lld,%lld) plane with normal (%lld,%lld,%lld) frame %s", (long long)c.x, (long long)c.y, (long long)c.z, (long long)r, (long long)v.x, (long long)v.y, (long long)v.z, (long long)n.x, (long long)n.y, (long long)n.z, f.name);
    i64 o = dot(n, c - a), m = dot(n, v), l2 = dot(n, n); bool pen = o * o < r * r * l2, touch = o * o == r * r * l2, hit = pen || touch || (o > 0 ? m < 0 : o < 0 ? m > 0 : false), away = o * m >= 0;
    plane<P3> p(f(a), f.vec(u), f.vec(w)); AbsCmp cmp(1e-10 * std::max(1., s)); double t = -7; P3 q(-99, -99, -99); auto R = moving_sphere_plane_intersection(sphere<3, P3>(f(c), r * s), f.vec(v), p, t, q, cmp);
    x.check(R.is_intersecting() == hit && bool(R) == hit, "is_intersecting %d, exact %d", R.is_intersecting(), hit); if ((m == 0 || o != 0) && (f.exact || m)) x.check(R.is_moving_away() == away, "is_moving_away %d, exact %d", R.is_moving_away(), away);
    if (hit && R) { double L = std::sqrt(double(l2)), te = pen || touch ? 0 : (std::fabs(double(o)) - r * L) / std::fabs(double(m)), h = (o + te * m) / double(l2); x.check(std::fabs(t - te) < 1e-7, "time %.17g, exact %.17g", t, te); x.check(R.is_penetrating() == !touch && R.is_touching() == touch, "is_penetrating %d is_touching %d", R.is_penetrating(), R.is_touching());
        x.check(dist(q, f(c.x + te * v.x - h * n.x, c.y + te * v.y - h * n.y, c.z + te * v.z - h * n.z)) < 1e-6 * s, "contact (%g,%g,%g)", X(q), Y(q), Z(q)); }
    x.outcome(pen ? "overlaps" : touch ? "touches" : hit ? "hits" : "away"); x.state(mc::H(i / 4)); });
// lines as the hyperplanes of the plane
MC_SPACE("lines", "all lines through two points of a 4x4 grid, 5 ways to make them: all points, segments, and chains and triangles of a segment and one of 3 points of a 5x5 grid, 8 frames", 8ull * 256, [](u64 i, Ctx& x) {
    Dec d(i); const Frame& f = FR[d(8)]; I2 a = gp(d(16), 4), b = gp(d(16), 4); if (a == b) return x.skip(); double s = f.scale, l = std::sqrt(double(dot(b - a, b - a))); P2 A = f(a), B = f(b); V2 u = f.vec(b - a), nv(-get<1>(u) / (l * s), get<0>(u) / (l * s)); x.in("line " PF PF " frame %s", PA(a), PA(b), f.name); x.state(mc::H(i / 8));
    const line<P2> ls[] = {line<P2>(A, B), line<P2>(A, u), line<P2>(S2(A, B)), make_hyperplane(S2(A, B)), make_line(S2(A, B))}; AbsCmp cmp(1e-10 * std::max(1., s * 100));
    for (int h = 0; h < 5; ++h) { auto& L = ls[h]; typedef line_access_traits<line<P2>> T; typedef hyperplane_access_traits<line<P2>> HT;
        auto vs = [&](const V2& p, double qx, double qy) { return std::fabs(get<0>(p) - qx) < 1e-9 && std::fabs(get<1>(p) - qy) < 1e-9; };
        x.check(same(L.get_reference_point(), A) && vs(L.get_parallel_vector(), get<0>(u) / (l * s), get<1>(u) / (l * s)) && vs(L.get_normal_vector(), get<0>(nv), get<1>(nv)) && nr(L.get_distance_to_origin(), X(A) * get<0>(nv) + Y(A) * get<1>(nv), 1e6), "made %d: members", h);
        x.check(same(T::get_reference_point(L), A) && vs(T::get_parallel_vector(L), get<0>(u) / (l * s), get<1>(u) / (l * s)) && vs(T::get_normal_vector(L), get<0>(nv), get<1>(nv)) && vs(HT::get_normal_vector(L), get<0>(nv), get<1>(nv)) && HT::get_distance_to_origin(L) == L.get_distance_to_origin(), "made %d: access traits", h); if (x.failed) return;
        for (int k = 0; k < 25; ++k) { I2 q = gp(k, 5); int o = sgn(orient(a, b, q)) * f.orient; if (!x.check(classify_point_to_plane(f(q), L, cmp) == po(o), "made %d: point " PF, h, PA(q))) return; for (double th : {.3, 1.05}) { double g = std::fabs(orient(a, b, q) / l); if (std::fabs(g - th) < 1e-6) continue; if (!x.check(classify_point_to_plane(f(q), L, AbsCmp(th * s)) == po(g < th ? 0 : o), "made %d: point " PF " against a line %g thick", h, PA(q), th)) return; } }
        for (int k = 0; k < 625; ++k) { I2 q = gp(k % 25, 5), r = gp(k / 25, 5); if (q == r) continue; int sq = sgn(orient(a, b, q)) * f.orient, sr = sgn(orient(a, b, r)) * f.orient; PO e = both(std::min(sq, sr), std::max(sq, sr)); if (!x.check(classify_simplex_to_plane(S2(f(q), f(r)), L, cmp) == e, "made %d: segment " PF PF, h, PA(q), PA(r))) return;
            for (I2 c : {I2{0, 1}, I2{3, 2}, I2{4, 4}}) { int sc = sgn(orient(a, b, c)) * f.orient; e = both(std::min({sq, sr, sc}), std::max({sq, sr, sc})); if (!x.check(classify_simplex_to_plane(L2{f(q), f(r), f(c)}, L, cmp) == e && classify_simplex_to_plane(G2{f(q), f(r), f(c)}, L, cmp) == e, "made %d: chain " PF PF PF, h, PA(q), PA(r), PA(c))) return; } } } });
