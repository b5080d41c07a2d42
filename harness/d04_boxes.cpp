// D04: axis-aligned and oriented boxes: construction, containment, distances and closest points.
#include "geo.hpp"
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/distance/segment_obb_distance.hpp>
#include <geometrix/algorithm/bounding_box_intersection.hpp>
using namespace gx;
using B2 = axis_aligned_bounding_box<P2>;
using B3 = axis_aligned_bounding_box<P3>;
using OB = oriented_bounding_box<P2, V2>;
static bool near(double a, double b, double scale) { return std::fabs(a - b) <= 1e-6 * scale; }
static bool near2(double a, double b, double scale) { return std::fabs(a - b) <= 1e-8 * scale * scale; }

// axis preserving affine maps (coordinates 0..k -> doubles)
struct Ax { const char* name; double s, t; };
static const Ax AX[] = {{"id", 1, 0}, {"shift", 1, -2}, {"neg", .25, -10}, {"big", 512, 100000}, {"tenth", .1, -.05}, {"fine", 1. / 4096, -1. / 512}};
static double sq(double v) { return v * v; }
static i64 gap(i64 lo, i64 hi, i64 v) { return v < lo ? lo - v : v > hi ? v - hi : 0; }
static i64 gap(i64 lo, i64 hi, i64 l2, i64 h2) { return h2 < lo ? lo - h2 : l2 > hi ? l2 - hi : 0; }

static void aabb2(u64 i, Ctx& x, int N) {
    Dec d(i); const Ax& f = AX[d(6)]; i64 v[8]; for (auto& w : v) w = d(N);
    if (v[0] > v[2] || v[1] > v[3] || v[4] > v[6] || v[5] > v[7]) return x.skip();
    auto F = [&](double a, double b) { return P2(f.s * a + f.t, f.s * b + f.t); };
    x.in("boxes [%lld,%lld]x[%lld,%lld] [%lld,%lld]x[%lld,%lld] %s", (long long)v[0], (long long)v[2], (long long)v[1], (long long)v[3], (long long)v[4], (long long)v[6], (long long)v[5], (long long)v[7], f.name);
    B2 a(F(v[0], v[1]), F(v[2], v[3])), b(F(v[4], v[5]), F(v[6], v[7])); AbsCmp cmp(1e-10);
    i64 gx_ = gap(v[0], v[2], v[4], v[6]), gy_ = gap(v[1], v[3], v[5], v[7]);
    double e2 = double(gx_ * gx_ + gy_ * gy_) * f.s * f.s;
    x.check(near2(aabb_aabb_distance_sqrd(a, b), e2, f.s) && near(aabb_aabb_distance(a, b), std::sqrt(e2), f.s), "distance %.17g, exact %.17g", aabb_aabb_distance(a, b), std::sqrt(e2));
    bool meet = !gx_ && !gy_, in = v[0] <= v[4] && v[6] <= v[2] && v[1] <= v[5] && v[7] <= v[3];
    x.check(a.intersects(b) == meet && a.intersects(b, cmp) == meet, "intersects, exact %d", meet);
    x.check(a.contains(b) == in && a.contains(b, cmp) == in, "contains, exact %d", in);
    // diagonals in any direction
    x.check(bounding_box_intersection(F(v[0], v[3]), F(v[2], v[1]), F(v[6], v[5]), F(v[4], v[7]), cmp) == meet && bounding_box_intersection(F(v[2], v[3]), F(v[0], v[1]), F(v[4], v[5]), F(v[6], v[7]), cmp) == meet, "bounding_box_intersection, exact %d", meet);
    if ((v[0] != v[2] || v[1] != v[3]) && (v[4] != v[6] || v[5] != v[7]))
        x.check(bounding_box_intersection(S2(F(v[2], v[1]), F(v[0], v[3])), S2(F(v[6], v[5]), F(v[4], v[7])), cmp) == meet, "bounding_box_intersection(segments)");
    B2 u = a; u.expand(b); B2 w = a; w.expand(b.to_tuple());
    double lo0 = std::min(X(a.get_lower_bound()), X(b.get_lower_bound())), lo1 = std::min(Y(a.get_lower_bound()), Y(b.get_lower_bound())), hi0 = std::max(X(a.get_upper_bound()), X(b.get_upper_bound())), hi1 = std::max(Y(a.get_upper_bound()), Y(b.get_upper_bound()));
    for (auto* p : {&u, &w}) x.check(X(p->get_lower_bound()) == lo0 && Y(p->get_lower_bound()) == lo1 && X(p->get_upper_bound()) == hi0 && Y(p->get_upper_bound()) == hi1, "expand");
    B2 c(a.to_tuple()), e = b; e = a.to_tuple();
    for (auto* p : {&c, &e}) x.check(X(p->get_lower_bound()) == X(a.get_lower_bound()) && Y(p->get_lower_bound()) == Y(a.get_lower_bound()) && X(p->get_upper_bound()) == X(a.get_upper_bound()) && Y(p->get_upper_bound()) == Y(a.get_upper_bound()), "from tuple");
    B2 m = make_aabb<P2>(a.to_tuple()); x.check(X(m.get_upper_bound()) == X(a.get_upper_bound()) && Y(m.get_lower_bound()) == Y(a.get_lower_bound()) && X(m.get_lower_bound()) == X(a.get_lower_bound()) && Y(m.get_upper_bound()) == Y(a.get_upper_bound()), "make_aabb(tuple)");
    x.outcome(in ? "inside" : meet ? "meet" : "apart");
    x.state(mc::H(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]));
}
MC_SPACE("boxes3", "all pairs of boxes with coordinates 0..2, 6 maps", 6ull * 6561, [](u64 i, Ctx& x) { aabb2(i, x, 3); });
MC_SPACE("boxes4", "all pairs of boxes with coordinates 0..3, 6 maps", 6ull * 65536, [](u64 i, Ctx& x) { aabb2(i, x, 4); });
MC_SPACE("boxes6", "all pairs of boxes with coordinates 0..5, 6 maps", 0, 6ull * 1679616, [](u64 i, Ctx& x) { aabb2(i, x, 6); });

static void aabb3(u64 i, Ctx& x, int N) {
    Dec d(i); const Ax& f = AX[d(6)]; i64 lo[2][3], hi[2][3];
    for (auto& r : lo) for (auto& w : r) w = d(N);
    for (auto& r : hi) for (auto& w : r) w = d(N);
    for (int k = 0; k < 2; ++k) for (int j = 0; j < 3; ++j) if (lo[k][j] > hi[k][j]) return x.skip();
    auto F = [&](i64* p) { return P3(f.s * p[0] + f.t, f.s * p[1] + f.t, f.s * p[2] + f.t); };
    x.in("boxes %lld%lld%lld-%lld%lld%lld %lld%lld%lld-%lld%lld%lld %s", (long long)lo[0][0], (long long)lo[0][1], (long long)lo[0][2], (long long)hi[0][0], (long long)hi[0][1], (long long)hi[0][2], (long long)lo[1][0], (long long)lo[1][1], (long long)lo[1][2], (long long)hi[1][0], (long long)hi[1][1], (long long)hi[1][2], f.name);
    B3 a(F(lo[0]), F(hi[0])), b(F(lo[1]), F(hi[1])); AbsCmp cmp(1e-10);
    i64 g2 = 0; bool in = true; for (int j = 0; j < 3; ++j) { i64 g = gap(lo[0][j], hi[0][j], lo[1][j], hi[1][j]); g2 += g * g; in &= lo[0][j] <= lo[1][j] && hi[1][j] <= hi[0][j]; }
    double e2 = g2 * f.s * f.s;
    x.check(near2(aabb_aabb_distance_sqrd(a, b), e2, f.s) && near(aabb_aabb_distance(a, b), std::sqrt(e2), f.s), "distance %.17g, exact %.17g", aabb_aabb_distance(a, b), std::sqrt(e2));
    x.check(a.intersects(b) == !g2 && a.intersects(b, cmp) == !g2, "intersects, exact %d", !g2);
    x.check(a.contains(b) == in && a.contains(b, cmp) == in, "contains, exact %d", in);
    B3 u = a; u.expand(b); B3 w = a; w.expand(b.to_tuple()); B3 c(a.to_tuple());
    const P3 &al = a.get_lower_bound(), &bl = b.get_lower_bound(), &ah = a.get_upper_bound(), &bh = b.get_upper_bound();
    for (auto* p : {&u, &w}) { const P3 &l = p->get_lower_bound(), &h = p->get_upper_bound();
        x.check(X(l) == std::min(X(al), X(bl)) && Y(l) == std::min(Y(al), Y(bl)) && Z(l) == std::min(Z(al), Z(bl)) && X(h) == std::max(X(ah), X(bh)) && Y(h) == std::max(Y(ah), Y(bh)) && Z(h) == std::max(Z(ah), Z(bh)), "expand"); }
    x.check(same(c.get_lower_bound(), al, 0) && same(c.get_upper_bound(), ah, 0), "from tuple");
    x.outcome(in ? "inside" : !g2 ? "meet" : "apart");
    x.state(mc::H(i / 6));
}
MC_SPACE("boxes3d", "all pairs of boxes in space with coordinates 0..2, 6 maps", 6ull * 531441, [](u64 i, Ctx& x) { aabb3(i, x, 3); });

static void pts2(u64 i, Ctx& x, int N) {
    Dec d(i); const Ax& f = AX[d(6)]; i64 v[4]; for (auto& w : v) w = 2 * d(N);
    if (v[0] > v[2] || v[1] > v[3]) return x.skip();
    auto F = [&](double a, double b) { return P2(f.s * a / 2 + f.t, f.s * b / 2 + f.t); };
    B2 a(F(v[0], v[1]), F(v[2], v[3])); AbsCmp cmp(1e-10);
    P2 cs[] = {F(v[0], v[1]), F(v[2], v[1]), F(v[2], v[3]), F(v[0], v[3])};
    for (int k = 0; k < 4; ++k) x.check(same(a[k], cs[k], 0), "corner %d", k);
    x.check(a.size() == 4, "size");
    for (int px = -3; px <= 2 * N + 1; ++px) for (int py = -3; py <= 2 * N + 1; ++py) {
        P2 p = F(px, py); i64 gx_ = gap(v[0], v[2], px), gy_ = gap(v[1], v[3], py); double e2 = (gx_ * gx_ + gy_ * gy_) / 4. * f.s * f.s;
        x.check(near2(point_aabb_distance_sqrd(p, a), e2, f.s) && near(point_aabb_distance(p, a), std::sqrt(e2), f.s), "distance of (%g,%g) to [%lld,%lld]x[%lld,%lld]/2 %s", px / 2., py / 2., (long long)v[0], (long long)v[2], (long long)v[1], (long long)v[3], f.name);
        P2 q = F(std::min<i64>(std::max<i64>(px, v[0]), v[2]), std::min<i64>(std::max<i64>(py, v[1]), v[3]));
        x.check(same(point_aabb_closest_point(p, a), q, 1e-12), "closest point to (%g,%g) of [%lld,%lld]x[%lld,%lld]/2 %s", px / 2., py / 2., (long long)v[0], (long long)v[2], (long long)v[1], (long long)v[3], f.name);
        bool in = !gx_ && !gy_;
        x.check(a.intersects(p) == in && a.intersects(p, cmp) == in, "point (%g,%g) in [%lld,%lld]x[%lld,%lld]/2 %s should be %d", px / 2., py / 2., (long long)v[0], (long long)v[2], (long long)v[1], (long long)v[3], f.name, in);
        x.outcome(in);
        if (x.failed) return;
    }
    x.state(mc::H(i / 6));
}
MC_SPACE("points2", "all boxes with coordinates 0..4 against a half grid of points, 6 maps", 6ull * 625, [](u64 i, Ctx& x) { pts2(i, x, 5); });
static void pts3(u64 i, Ctx& x, int N) {
    Dec d(i); const Ax& f = AX[d(6)]; i64 lo[3], hi[3]; for (auto& w : lo) w = 2 * d(N); for (auto& w : hi) w = 2 * d(N);
    for (int j = 0; j < 3; ++j) if (lo[j] > hi[j]) return x.skip();
    auto F = [&](double a, double b, double c) { return P3(f.s * a / 2 + f.t, f.s * b / 2 + f.t, f.s * c / 2 + f.t); };
    B3 a(F(lo[0], lo[1], lo[2]), F(hi[0], hi[1], hi[2])); AbsCmp cmp(1e-10);
    i64 p[3];
    for (p[0] = -1; p[0] <= 2 * N - 1; ++p[0]) for (p[1] = -1; p[1] <= 2 * N - 1; ++p[1]) for (p[2] = -1; p[2] <= 2 * N - 1; ++p[2]) {
        P3 P = F(p[0], p[1], p[2]); i64 g2 = 0, c[3]; for (int j = 0; j < 3; ++j) { i64 g = gap(lo[j], hi[j], p[j]); g2 += g * g; c[j] = std::min(std::max(p[j], lo[j]), hi[j]); }
        double e2 = g2 / 4. * f.s * f.s;
        x.check(near2(point_aabb_distance_sqrd(P, a), e2, f.s) && near(point_aabb_distance(P, a), std::sqrt(e2), f.s), "distance of (%lld,%lld,%lld)/2 %s", (long long)p[0], (long long)p[1], (long long)p[2], f.name);
        x.check(same(P3(point_aabb_closest_point(P, a)), F(c[0], c[1], c[2]), 1e-12), "closest point to (%lld,%lld,%lld)/2", (long long)p[0], (long long)p[1], (long long)p[2]);
        x.check(a.intersects(P) == !g2 && a.intersects(P, cmp) == !g2, "point (%lld,%lld,%lld)/2 inside", (long long)p[0], (long long)p[1], (long long)p[2]);
        if (x.failed) return;
    }
    x.state(mc::H(i / 6));
}
MC_SPACE("points3", "all boxes in space with coordinates 0..2 against a half grid of points, 6 maps", 6ull * 729, [](u64 i, Ctx& x) { pts3(i, x, 3); });

// bounds of point sequences
template <class P, int D> static void bnd(u64 i, Ctx& x, int k, int N) {
    Dec d(i); const Ax& f = AX[d(6)]; std::vector<std::array<double, D>> c; polygon<P> g; polyline<P> l; std::vector<P> vec;
    for (int j = 0; j < k; ++j) { std::array<double, D> a; P p; for (int q = 0; q < D; ++q) { a[q] = f.s * (d(N) - N / 2) + f.t / 64; } for (int q = 0; q < D; ++q) p[q] = a[q]; c.push_back(a); g.push_back(p); l.push_back(p); vec.push_back(p); }
    AbsCmp cmp(1e-12); direct_comparison_policy dir;
    auto box = [&](axis_aligned_bounding_box<P> b, int u, int v, const char* what) { for (int q = 0; q < D; ++q) { double lo = 1e300, hi = -1e300; for (int j = u; j <= v; ++j) { lo = std::min(lo, c[j][q]); hi = std::max(hi, c[j][q]); } x.check(b.get_lower_bound()[q] == lo && b.get_upper_bound()[q] == hi, "%s: bounds of dimension %d are [%g,%g], exact [%g,%g]", what, q, double(b.get_lower_bound()[q]), double(b.get_upper_bound()[q]), lo, hi); } };
    box(make_aabb<P>(g), 0, k - 1, "polygon"); box(make_aabb<P>(l, cmp), 0, k - 1, "polyline"); box(make_aabb<P>(vec, dir), 0, k - 1, "vector");
    for (std::size_t u = 0; u < std::size_t(k); ++u) for (std::size_t v = u; v < std::size_t(k); ++v) { box(make_aabb<P>(g, std::make_tuple(u, v)), u, v, "polygon part"); box(make_aabb<P>(l, std::make_tuple(u, v), cmp), u, v, "polyline part"); }
    if (k == 2 && c[0] != c[1]) { segment<P> s(vec[0], vec[1]); box(make_aabb<P>(s), 0, 1, "segment"); box(make_aabb<P>(s, cmp), 0, 1, "segment"); }
    x.state(mc::H(i / 6, k, D));
}
MC_SPACE("bounds2", "all point sequences of 2, 3 points of a 5x5 grid around the origin, 6 maps", 6ull * (625 + 15625), [](u64 i, Ctx& x) { i < 6 * 625 ? bnd<P2, 2>(i, x, 2, 5) : bnd<P2, 2>(i - 6 * 625, x, 3, 5); });
MC_SPACE("bounds3", "all point sequences of 2 points of a 5x5x5 grid, of 3 points of a 3x3x3 grid around the origin, 6 maps", 6ull * (15625 + 19683), [](u64 i, Ctx& x) { i < 6 * 15625 ? bnd<P3, 3>(i, x, 2, 5) : bnd<P3, 3>(i - 6 * 15625, x, 3, 3); });

// oriented boxes: axis parallel in the model, rotated by the frame; coordinates are halves
static const Frame OF[] = {FR[0], FR[1], FR[2], FR[3], FR[4], FR[5], FR[6], FR[7], {"rot5-12", 5. / 13, 12. / 13, -12. / 13, 5. / 13, 2.5, -3.25, 1, 1, false}};
static OB obb(const Frame& f, i64 cx, i64 cy, i64 hu, i64 hv, int ax) {
    static const I2 A[] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}};
    I2 u = A[ax & 3], v = ax & 4 ? A[(ax + 3) & 3] : A[(ax + 1) & 3];
    V2 U = f.vec(u) , V = f.vec(v);
    U = V2(U[0] / f.scale, U[1] / f.scale); V = V2(V[0] / f.scale, V[1] / f.scale);
    return OB(f(cx / 2., cy / 2.), U, V, (ax & 1 ? hv : hu) / 2. * f.scale, (ax & 1 ? hu : hv) / 2. * f.scale);
}
static void ob(u64 i, Ctx& x, int R) {
    Dec d(i); const Frame& f = OF[d(9)]; int ax = d(8); i64 hu = 1 + d(4), hv = 1 + d(4), cx = d(2), cy = d(2); double sc = f.scale;
    OB b = obb(f, cx, cy, hu, hv, ax);
    x.in("oriented box centre (%lld,%lld)/2 half widths %lld %lld /2 axes %d frame %s", (long long)cx, (long long)cy, (long long)hu, (long long)hv, ax, f.name);
    auto F = [&](i64 a, i64 c) { return f(a / 2., c / 2.); };
    // corners: counter-clockwise in the box's own axes, and the box rebuilt from its rectangle
    for (int k = 0; k < 4; ++k) { P2 c = b[k]; V2 w = c - b.get_center();
        double pu = w[0] * b.get_axis(0)[0] + w[1] * b.get_axis(0)[1], pv = w[0] * b.get_axis(1)[0] + w[1] * b.get_axis(1)[1];
        x.check(near(pu, (k == 1 || k == 2 ? 1 : -1) * b.get_halfwidth(0), sc) && near(pv, (k >= 2 ? 1 : -1) * b.get_halfwidth(1), sc), "corner %d", k); x.check(same(c, b.get_rectangle()[k], 1e-12), "rectangle corner %d", k); }
    OB rb = make_obb<P2, V2>(b.get_rectangle());
    x.check(same(rb.get_center(), b.get_center(), 1e-9) && near(rb.get_halfwidth(0), b.get_halfwidth(0), sc) && near(rb.get_halfwidth(1), b.get_halfwidth(1), sc) && near(rb.get_axis(0)[0], b.get_axis(0)[0], 1) && near(rb.get_axis(0)[1], b.get_axis(0)[1], 1) && near(rb.get_axis(1)[0], b.get_axis(1)[0], 1) && near(rb.get_axis(1)[1], b.get_axis(1)[1], 1), "box from its rectangle");
    i64 x0 = cx - hu, x1 = cx + hu, y0 = cy - hv, y1 = cy + hv;
    for (int px = -R; px <= R; ++px) for (int py = -R; py <= R; ++py) {
        i64 g = gap(x0, x1, px), h = gap(y0, y1, py); double e2 = (g * g + h * h) / 4. * sc * sc; P2 p = F(px, py);
        x.check(near2(point_obb_distance_sqrd(p, b), e2, sc) && near(point_obb_distance(p, b), std::sqrt(e2), sc), "distance of (%g,%g): %.17g, exact %.17g", px / 2., py / 2., point_obb_distance(p, b), std::sqrt(e2));
        P2 q = F(std::min<i64>(std::max<i64>(px, x0), x1), std::min<i64>(std::max<i64>(py, y0), y1));
        x.check(same(P2(point_obb_closest_point(p, b)), q, 1e-9), "closest point to (%g,%g)", px / 2., py / 2.);
        if (x.failed) return;
    }
    // segments: distance to the border of the box
    AbsCmp cmp(1e-10); I2 c[] = {{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}};
    for (int k = 0; k < 36 * 36; ++k) {
        I2 p{2 * (k % 6) - 5, 2 * (k / 6 % 6) - 5}, q{2 * (k / 36 % 6) - 4, 2 * (k / 216) - 6};
        bool inside = p.x > x0 && p.x < x1 && q.x > x0 && q.x < x1 && p.y > y0 && p.y < y1 && q.y > y0 && q.y < y1;
        if (inside) continue;
        Q e(1 << 30); for (int j = 0; j < 4; ++j) e = qmin(e, seg_seg_dist2(c[j], c[(j + 1) % 4], p, q));
        double E = std::sqrt(e.dbl()) / 2 * sc; S2 s(F(p.x, p.y), F(q.x, q.y));
        x.check(near(segment_obb_distance(s, b, cmp), E, sc) && near2(segment_obb_distance_sqrd(s, b, cmp), E * E, sc), "distance of segment (%g,%g)(%g,%g): %.17g, exact %.17g", p.x / 2., p.y / 2., q.x / 2., q.y / 2., segment_obb_distance(s, b, cmp), E);
        if (x.failed) return;
    }
    x.state(mc::H(i));
}
MC_SPACE("oriented", "all oriented boxes with half widths 1/2..2, 8 choices of axes, 9 frames; half grid of points, 1296 segments", 9ull * 8 * 16 * 4, [](u64 i, Ctx& x) { ob(i, x, 8); });
