// E04: first contact of a moving circle or sphere with a line, segment, box or other sphere.
#include "geo.hpp"
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_plane_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_sphere_intersection.hpp>
using namespace gx;
using C2 = sphere<2, P2>;
using C3 = sphere<3, P3>;
using B2 = axis_aligned_bounding_box<P2>;
using OB = oriented_bounding_box<P2, V2>;
static const i64 FAR = 64; // times the velocity: beyond every object
static bool near(double a, double b, double s, double t = 1e-6) { return std::fabs(a - b) <= t * s; }
static double segd(double x, double y, I2 a, I2 b) { double vx = b.x - a.x, vy = b.y - a.y, l = vx * vx + vy * vy, u = l ? ((x - a.x) * vx + (y - a.y) * vy) / l : 0; u = std::min(1., std::max(0., u)); return std::hypot(x - a.x - u * vx, y - a.y - u * vy); }
// first t with D(t) <= r for convex D on [0, FAR]; precondition: exists, D(0) > r
template <class F> static double first(F D, double r) {
    double lo = 0, hi = FAR; for (int k = 0; k < 120; ++k) { double a = lo + (hi - lo) / 3, b = hi - (hi - lo) / 3; if (D(a) <= D(b)) hi = b; else lo = a; } double m = (lo + hi) / 2; if (D(m) > r) return m;
    lo = 0; hi = m; for (int k = 0; k < 70; ++k) { double c = (lo + hi) / 2; if (D(c) <= r) hi = c; else lo = c; } return hi;
}

// ---- line ---------------------------------------------------------------------------------------
MC_SPACE("lines", "circles of radius 1..2 on a 9x9 grid moving with every velocity in -2..2 against 16 lines, 8 frames", 8ull * 2 * 81 * 24 * 16, [](u64 i, Ctx& x) {
    static const I2 DIR[] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}, {3, 4}, {-4, 3}, {4, -3}, {-3, -4}, {1, 1}, {1, -1}, {-1, 1}, {-1, -1}, {2, 1}, {-1, 2}, {1, -3}, {-3, -1}};
    Dec d(i); const Frame& f = FR[d(8)]; i64 r = 1 + d(2); I2 c = gp(d(81), 9); int k = d(24); k += k >= 12; I2 v{k % 5 - 2, k / 5 - 2}, u = DIR[d(16)], p{4, 3}; double s = f.scale;
    x.in("circle " PF " radius %lld velocity " PF " line through " PF " direction " PF " frame %s", PA(c), (long long)r, PA(v), PA(p), PA(u), f.name);
    i64 n = cross(u, c - p), m = cross(u, v), l2 = dot(u, u); // signed distance = n / sqrt(l2)
    bool pen = n * n < r * r * l2, touch = n * n == r * r * l2, hit = pen || touch || (n > 0 ? m < 0 : n < 0 ? m > 0 : false), away = n * m >= 0;
    line<P2> l(f(p), f(p + u)); AbsCmp cmp(1e-10 * std::max(1., s)); double t = -7; P2 q(-99, -99); C2 S(f(c), r * s); V2 V = f.vec(v);
    auto R = moving_sphere_plane_intersection(S, V, l, t, q, cmp);
    x.check(R.is_intersecting() == hit && bool(R) == hit, "is_intersecting %d, exact %d", R.is_intersecting(), hit);
    if (m == 0 || n != 0) if (f.exact || m) x.check(R.is_moving_away() == away, "is_moving_away %d, exact %d", R.is_moving_away(), away);
    if (hit && R) {
        double te = pen || touch ? 0 : (std::fabs(double(n)) - r * std::sqrt(double(l2))) / std::fabs(double(m));
        x.check(near(t, te, 1), "time %.17g, exact %.17g", t, te);
        x.check(R.is_penetrating() == !touch && R.is_touching() == touch, "is_penetrating %d is_touching %d, exact %d", R.is_penetrating(), R.is_touching(), touch);
        // contact: projection of the centre then
        double cx = c.x + te * v.x, cy = c.y + te * v.y, a = ((cx - p.x) * u.x + (cy - p.y) * u.y) / l2; x.check(dist(q, f(p.x + a * u.x, p.y + a * u.y)) <= 1e-6 * s, "contact (%.17g,%.17g)", X(q), Y(q));
    } else if (!R) x.check(!R.is_penetrating() && !R.is_touching(), "flags of a miss");
    x.outcome(pen ? "overlaps" : touch ? "touches" : hit ? "hits" : "away"); x.state(mc::H(i / 8)); });

// ---- segment ------------------------------------------------------------------------------------
static void seg(Ctx& x, const Frame& f, I2 c, i64 r, I2 v, I2 a, I2 b) {
    double s = f.scale; x.in("circle " PF " radius %lld velocity " PF " segment " PF PF " frame %s", PA(c), (long long)r, PA(v), PA(a), PA(b), f.name);
    Q d0 = seg_dist2(a, b, c), dm = seg_seg_dist2(c, c + FAR * v, a, b); Q rr(r * r);
    i64 n = cross(b - a, c - a); bool lineTouch = n * n == r * r * dot(b - a, b - a);
    bool graze = dm == rr || d0 == rr;
    if (graze && (!f.exact || (v.x && v.y) || (d0 == rr && !(dm < rr)))) return x.outcome("grazes"); // rounding decides
    bool hit = dm <= rr, in = d0 < rr;
    AbsCmp cmp(1e-10 * std::max(1., s)); double t = -7; P2 q(-99, -99);
    auto R = moving_sphere_segment_intersection(C2(f(c), r * s), f.vec(v), S2(f(a), f(b)), t, q, cmp);
    x.check(R.is_intersecting() == hit && bool(R) == hit, "is_intersecting %d, exact %d", R.is_intersecting(), hit);
    if (hit && R) {
        double te = in ? 0 : first([&](double w) { return segd(c.x + w * v.x, c.y + w * v.y, a, b); }, r);
        x.check(near(t, te, 1, 1e-5), "time %.17g, exact %.17g", t, te);
        if (!in) { double cx = c.x + te * v.x, cy = c.y + te * v.y, l = dot(b - a, b - a), u = ((cx - a.x) * (b.x - a.x) + (cy - a.y) * (b.y - a.y)) / l; bool end = u < -1e-9 || u > 1 + 1e-9; u = std::min(1., std::max(0., u));
            x.check(dist(q, f(a.x + u * (b.x - a.x), a.y + u * (b.y - a.y))) <= 1e-4 * s, "contact (%.17g,%.17g)", X(q), Y(q));
            if (u > 1e-4 && u < 1 - 1e-4) x.check(!R.is_endpoint(), "is_endpoint inside"); else if (end) x.check(R.is_endpoint(), "not is_endpoint"); }
        if (!lineTouch) x.check(R.is_on_line_at_start() == (n * n < r * r * dot(b - a, b - a)), "is_on_line_at_start %d", R.is_on_line_at_start());
    }
    x.outcome(in ? "overlaps" : hit ? "hits" : "misses");
}
MC_SPACE("segments", "circles of radius 1..2 on a 9x9 grid moving with every velocity in -2..2 against 12 segments, 8 frames", 8ull * 2 * 81 * 24 * 12, [](u64 i, Ctx& x) {
    static const I2 D[] = {{1, 0}, {3, 0}, {0, 2}, {1, 1}, {2, -1}, {-3, 1}, {-1, -2}, {0, -1}, {3, 4}, {-2, 2}, {1, -3}, {-2, 0}};
    Dec d(i); const Frame& f = FR[d(8)]; i64 r = 1 + d(2); I2 c = gp(d(81), 9); int k = d(24); k += k >= 12; I2 v{k % 5 - 2, k / 5 - 2}, u = D[d(12)], p{4, 4};
    seg(x, f, c, r, v, p, p + u); x.state(mc::H(i / 8)); });
MC_SPACE("segmentswide", "circles of radius 1..3 on a 15x15 grid with every velocity in -3..3 against 24 segments, 2 frames", 0, 2ull * 3 * 225 * 48 * 24, [](u64 i, Ctx& x) {
    static const I2 D[] = {{1, 0}, {3, 0}, {0, 2}, {1, 1}, {2, -1}, {-3, 1}, {-1, -2}, {0, -1}, {3, 4}, {-2, 2}, {1, -3}, {-2, 0}, {5, 0}, {4, 1}, {3, 3}, {2, 4}, {0, 5}, {-3, 4}, {-5, 0}, {-4, -2}, {-1, -5}, {1, -4}, {4, -4}, {5, -2}};
    Dec d(i); const Frame& f = FR[5 * d(2)]; i64 r = 1 + d(3); I2 c = gp(d(225), 15); int k = d(48); k += k >= 24; I2 v{k % 7 - 3, k / 7 - 3}, u = D[d(24)], p{7, 7};
    seg(x, f, c, r, v, p, p + u); x.state(mc::H(i)); });

// ---- boxes --------------------------------------------------------------------------------------
static i64 gap(i64 lo, i64 hi, i64 v) { return v < lo ? lo - v : v > hi ? v - hi : 0; }
static void box(Ctx& x, const Frame& f, I2 c, i64 r, I2 v, i64 w, i64 h) {
    double s = f.scale; x.in("circle " PF " radius %lld velocity " PF " box [0,%lld]x[0,%lld] frame %s", PA(c), (long long)r, PA(v), (long long)w, (long long)h, f.name);
    i64 g0 = gap(0, w, c.x) * gap(0, w, c.x) + gap(0, h, c.y) * gap(0, h, c.y); bool in = g0 < r * r; Q rr(r * r), dm(g0);
    I2 e = c + FAR * v, K[4] = {{0, 0}, {w, 0}, {w, h}, {0, h}}; for (int k = 0; k < 4; ++k) dm = qmin(dm, seg_seg_dist2(c, e, K[k], K[(k + 1) % 4]));
    bool graze = g0 == r * r || dm == rr;
    if (graze && (!f.exact || (v.x && v.y) || (g0 == r * r && !(dm < rr)))) return x.outcome("grazes");
    bool hit = dm <= rr; auto D = [&](double t) { double X_ = c.x + t * v.x, Y_ = c.y + t * v.y; return std::hypot(X_ - std::min(std::max(X_, 0.), double(w)), Y_ - std::min(std::max(Y_, 0.), double(h))); };
    double te = !hit || in ? 0 : first(D, r), cx = c.x + te * v.x, cy = c.y + te * v.y; P2 qe = f(std::min(std::max(cx, 0.), double(w)), std::min(std::max(cy, 0.), double(h)));
    AbsCmp cmp(1e-10 * std::max(1., s)); C2 S(f(c), r * s); V2 V = f.vec(v);
    auto ok = [&](const char* n, bool got, double t, const P2& q) {
        x.check(got == hit, "%s %d, exact %d", n, got, hit);
        if (got && hit) { x.check(near(t, te, 1, 1e-5), "%s: time %.17g, exact %.17g", n, t, te); x.check(dist(q, qe) <= 1e-4 * s, "%s: contact (%.17g,%.17g), exact (%.17g,%.17g)", n, X(q), Y(q), X(qe), Y(qe)); }
    };
    if (f.b == 0 && f.a > 0 && f.d > 0) { double t = -7; P2 q(-99, -99); bool g = moving_sphere_aabb_intersection(S, V, B2(f(I2{0, 0}), f(I2{w, h})), t, q, cmp); ok("moving_sphere_aabb", g, t, q); }
    if (w && h && (f.exact || f.orient > 0)) {
        for (int k = 0; k < 4; ++k) { // the four ways to name the axes
            V2 a = f.vec({1, 0}), b = f.vec({0, 1}); a = V2(a[0] / s, a[1] / s); b = V2(b[0] / s, b[1] / s); double ha = w / 2. * s, hb = h / 2. * s;
            if (k == 1) { V2 o = a; a = b; b = V2(-1. * o); std::swap(ha, hb); } if (k == 2) { a = V2(-1. * a); b = V2(-1. * b); } if (k == 3) { V2 o = a; a = V2(-1. * b); b = o; std::swap(ha, hb); }
            if (a[0] * b[1] - a[1] * b[0] < 0) continue; // right handed axes
            double t = -7; P2 q(-99, -99); bool g(moving_sphere_obb_intersection(S, V, OB(f(w / 2., h / 2.), a, b, ha, hb), t, q, cmp)); ok("moving_sphere_obb", g, t, q);
        }
    }
    x.outcome(in ? "overlaps" : hit ? "hits" : "misses");
}
MC_SPACE("boxes", "circles of radius 1..2 on a 10x10 grid moving with every velocity in -2..2 against boxes with sides 1..4, 8 frames", 8ull * 2 * 100 * 24 * 16, [](u64 i, Ctx& x) {
    Dec d(i); const Frame& f = FR[d(8)]; i64 r = 1 + d(2); I2 c = gp(d(100), 10) - I2{3, 3}; int k = d(24); k += k >= 12; I2 v{k % 5 - 2, k / 5 - 2}; i64 w = 1 + d(4), h = 1 + d(4);
    box(x, f, c, r, v, w, h); x.state(mc::H(i / 8)); });
MC_SPACE("boxeswide", "circles of radius 1..3 on a 16x16 grid with every velocity in -3..3 against boxes with sides 1..6, 2 frames", 0, 2ull * 3 * 256 * 48 * 36, [](u64 i, Ctx& x) {
    Dec d(i); const Frame& f = FR[5 * d(2)]; i64 r = 1 + d(3); I2 c = gp(d(256), 16) - I2{5, 5}; int k = d(48); k += k >= 24; I2 v{k % 7 - 3, k / 7 - 3}; i64 w = 1 + d(6), h = 1 + d(6);
    box(x, f, c, r, v, w, h); x.state(mc::H(i)); });

// ---- two moving spheres ---------------------------------------------------------------------------
template <class Ip, class Fr, class S, class V, class P> static void two(Ctx& x, const Fr& f, Ip c, i64 r0, i64 r1, Ip o, Ip v0, Ip v1) {
    double s = f.scale; Ip m = c - o, v = v1 - v0; i64 r = r0 + r1, A = dot(v, v), B = dot(m, v), C = dot(m, m) - r * r; i128 disc = (i128)B * B - (i128)A * C;
    bool in = C < 0, hit = in || (A && B < 0 && disc >= 0);
    bool graze = C == 0 || (!in && A && B < 0 && disc == 0);
    if (graze && (!f.exact || (C == 0 && B >= 0))) return x.outcome("grazes"); // touching now and not approaching: not stated
    double te = in || !hit ? 0 : (-double(B) - std::sqrt(double(disc))) / A;
    AbsCmp cmp(1e-10); double t = -7; P q; assign(q, f(o)); S s0(f(o), r0 * s), s1(f(c), r1 * s); V V0 = f.vec(v0), V1 = f.vec(v1);
    bool g = moving_sphere_sphere_intersection(s0, s1, V0, V1, t, q, cmp), g2 = moving_sphere_sphere_intersection(s0, s1, V0, V1, cmp);
    x.check(g == hit && g2 == hit, "moving_sphere_sphere_intersection %d %d, exact %d", g, g2, hit);
    if (g && hit) { x.check(near(t, te, 1), "time %.17g, exact %.17g", t, te); if (!in) { P a = f(o), b = f(c); assign(a, a + te * V0); assign(b, b + te * V1); x.check(near(dist(q, a), r0 * s, s) && near(dist(q, b), r1 * s, s), "contact not on both spheres"); } }
    x.outcome(in ? "overlap" : hit ? "meet" : "miss");
}
MC_SPACE("spheres", "two circles, radii 1..2, centres up to 5 apart in x and y, all pairs of velocities in -1..1 and -2..2, 8 frames", 8ull * 4 * 121 * 9 * 25, [](u64 i, Ctx& x) {
    Dec d(i); const Frame& f = FR[d(8)]; i64 r0 = 1 + d(2), r1 = 1 + d(2); I2 c{d(11) - 5, d(11) - 5}, v0{d(3) - 1, d(3) - 1}, v1{d(5) - 2, d(5) - 2}, o{1, -2};
    x.in("circles at distance " PF " radii %lld %lld velocities " PF PF " frame %s", PA(c), (long long)r0, (long long)r1, PA(v0), PA(v1), f.name);
    two<I2, Frame, C2, V2, P2>(x, f, o + c, r0, r1, o, v0, v1); x.state(mc::H(i / 8)); });
MC_SPACE("spheres3d", "two spheres, radii 1..2, offsets in -3..3, relative motions in -1..1, 4 frames", 4ull * 4 * 343 * 27 * 27, [](u64 i, Ctx& x) {
    Dec d(i); const Frame3& f = FR3[d(4)]; i64 r0 = 1 + d(2), r1 = 1 + d(2); I3 c{d(7) - 3, d(7) - 3, d(7) - 3}, v0{d(3) - 1, d(3) - 1, d(3) - 1}, v1{d(3) - 1, d(3) - 1, d(3) - 1}, o{1, -2, 0};
    x.in("spheres at distance " PF3 " radii %lld %lld velocities " PF3 PF3 " frame %s", PA3(c), (long long)r0, (long long)r1, PA3(v0), PA3(v1), f.name);
    two<I3, Frame3, C3, V3, P3>(x, f, o + c, r0, r1, o, v0, v1); x.state(mc::H(i / 4)); });
