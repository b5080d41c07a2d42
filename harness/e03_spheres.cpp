// E03: circles, spheres and capsules against each other and against rays, segments, boxes and planes.
#include "geo.hpp"
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/intersection/circle_circle_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_capsule_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_plane_intersection.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/algorithm/intersection/sphere_polyline_intersection.hpp>
using namespace gx;
using C2 = sphere<2, P2>;
using C3 = sphere<3, P3>;
using B2 = axis_aligned_bounding_box<P2>;
using B3 = axis_aligned_bounding_box<P3>;
using OB = oriented_bounding_box<P2, V2>;
static bool near(double a, double b, double s, double t = 1e-6) { return std::fabs(a - b) <= t * s; }

// ---- circle against circle ------------------------------------------------------------------
template <class S, class R> static void cc_check(Ctx& x, const char* w, const R& r, S state, int expect, const P2& a, double ra, const P2& b, double rb, double sc) {
    x.check(int(state) == expect, "%s: state %d, exact %d", w, int(state), expect);
    int n = bool(r.IntersectionPoint0) + bool(r.IntersectionPoint1), e = expect == 2 ? 1 : expect == 3 ? 2 : 0;
    if (!x.check(n == e && (!e || r.IntersectionPoint0), "%s: %d points, exact %d", w, n, e)) return;
    for (auto* p : {&r.IntersectionPoint0, &r.IntersectionPoint1}) if (*p) x.check(near(dist(**p, a), ra, sc) && near(dist(**p, b), rb, sc), "%s: point (%.17g,%.17g) not on both circles", w, X(**p), Y(**p));
    if (n == 2) x.check(dist(*r.IntersectionPoint0, *r.IntersectionPoint1) > 1e-3 * sc, "%s: same point twice", w);
}
static void circles(u64 i, Ctx& x, int D, int R) {
    Dec d(i); const Frame& f = FR[d(8)]; i64 ra = 1 + d(R), rb = 1 + d(R); I2 v{d(2 * D + 1) - D, d(2 * D + 1) - D}, o{2, -1}; i64 d2 = dot(v, v);
    x.in("circles at distance sqrt(%lld) in direction " PF ", radii %lld %lld, frame %s", (long long)d2, PA(v), (long long)ra, (long long)rb, f.name);
    int e = d2 > (ra + rb) * (ra + rb) ? 0 : d2 < (ra - rb) * (ra - rb) ? 1 : d2 == 0 ? 4 : (d2 == (ra + rb) * (ra + rb) || d2 == (ra - rb) * (ra - rb)) ? 2 : 3;
    P2 a = f(o), b = f(o + v); double s = f.scale; AbsCmp cmp(1e-9 * std::max(1., s));
    auto r = circle_circle_intersection(C2(a, ra * s), C2(b, rb * s), cmp); cc_check(x, "circle_circle", r, r.State, e, a, ra * s, b, rb * s, s);
    auto q = sphere_sphere_intersection(C2(a, ra * s), C2(b, rb * s), cmp); cc_check(x, "sphere_sphere", q, q.State, e, a, ra * s, b, rb * s, s);
    static const char* N[] = {"apart", "inside", "tangent", "cross", "same"}; x.outcome(N[e]); x.state(mc::H(i / 8));
}
MC_SPACE("circles", "all pairs of circles with radii 1..6, centres up to 7 apart in x and y, 8 frames", 8ull * 36 * 225, [](u64 i, Ctx& x) { circles(i, x, 7, 6); });
MC_SPACE("circles20", "all pairs of circles with radii 1..20, centres up to 20 apart in x and y, 8 frames", 0, 8ull * 400 * 1681, [](u64 i, Ctx& x) { circles(i, x, 20, 20); });

// ---- first contact of p + t v, t in [0, len], with a ball; exact sign of the discriminant -----------
struct Hit { bool hit, inside, tangent; double t; };
// coordinates integer, |v| need not be one; t in units of v; bounded = segment t <= 1
template <class I> static Hit first(I p, I v, I c, i64 r, bool bounded) {
    I m = p - c; i64 A = dot(v, v), B = dot(m, v), C = dot(m, m) - r * r; i128 disc = (i128)B * B - (i128)A * C;
    if (C <= 0) return {true, true, false, 0};
    if (disc < 0 || B >= 0 || A == 0) return {false, false, false, 0};
    // t = (-B - sqrt(disc)) / A  <= 1  <=>  -B - A <= sqrt(disc)
    long double sq = std::sqrt((long double)disc); i64 k = -B - A; bool le = k <= 0 || (i128)k * k <= disc;
    if (bounded && !le) return {false, false, disc == 0, 0};
    return {true, false, disc == 0, double((-B - sq) / A)};
}
static const I2 UNIT[] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}, {3, 4}, {-4, 3}, {4, -3}, {-3, -4}, {5, 12}, {-12, 5}};
static void rays(u64 i, Ctx& x, int D) {
    Dec d(i); const Frame& f = FR[d(8)]; I2 u = UNIT[d(10)]; i64 r = 1 + d(3); I2 p{d(2 * D + 1) - D, d(2 * D + 1) - D}, c{1, 1}; double s = f.scale, h = std::sqrt(double(dot(u, u)));
    x.in("ray from " PF " direction " PF "/%g circle " PF " radius %lld frame %s", PA(p), PA(u), h, PA(c), (long long)r, f.name);
    Hit e = first(p, u, c, r, false); P2 P = f(p); V2 v = f.vec(u); v = V2(v[0] / h / s, v[1] / h / s); AbsCmp cmp(1e-8 * s * s);
    double t = -7; P2 q(-99, -99); bool got = ray_sphere_intersection(P, v, C2(f(c), r * s), t, q, cmp);
    x.check(got == e.hit, "ray_sphere_intersection %d, exact %d", got, e.hit);
    if (got && e.hit) { double te = e.t * h * s; x.check(near(t, te, s, 2e-4), "distance %.17g, exact %.17g", t, te); x.check(dist(q, P2(X(P) + te * v[0], Y(P) + te * v[1])) <= 2e-4 * s, "point (%.17g,%.17g)", X(q), Y(q)); }
    x.outcome(!e.hit ? "miss" : e.inside ? "from inside" : e.tangent ? "tangent" : "hit"); x.state(mc::H(i / 8));
}
MC_SPACE("rays", "all rays from an 11x11 grid in 10 directions against circles of radius 1..3, 8 frames", 8ull * 10 * 3 * 121, [](u64 i, Ctx& x) { rays(i, x, 5); });
MC_SPACE("rays3", "all rays from a 7x7x7 grid in 6 directions (Pythagorean ones included) against spheres of radius 1..3, 4 frames", 4ull * 6 * 3 * 343, [](u64 i, Ctx& x) {
    static const I3 U[] = {{1, 0, 0}, {0, 0, -1}, {1, 2, 2}, {-2, 1, 2}, {2, 3, -6}, {0, -3, 4}};
    Dec d(i); const Frame3& f = FR3[d(4)]; I3 u = U[d(6)]; i64 r = 1 + d(3); I3 p{d(7) - 3, d(7) - 3, d(7) - 3}, c{1, 0, -1}; double s = f.scale, h = std::sqrt(double(dot(u, u)));
    x.in("ray from " PF3 " direction " PF3 "/%g sphere " PF3 " radius %lld frame %s", PA3(p), PA3(u), h, PA3(c), (long long)r, f.name);
    Hit e = first(p, u, c, r, false); P3 P = f(p); V3 v = f.vec(u); v = V3(v[0] / h / s, v[1] / h / s, v[2] / h / s); AbsCmp cmp(1e-8 * s * s);
    double t = -7; P3 q(-99, -99, -99); bool got = ray_sphere_intersection(P, v, C3(f(c), r * s), t, q, cmp);
    x.check(got == e.hit, "ray_sphere_intersection %d, exact %d", got, e.hit);
    if (got && e.hit) { double te = e.t * h * s; x.check(near(t, te, s, 2e-4), "distance %.17g, exact %.17g", t, te); x.check(dist(q, P3(X(P) + te * v[0], Y(P) + te * v[1], Z(P) + te * v[2])) <= 2e-4 * s, "point"); }
    x.outcome(!e.hit ? "miss" : e.inside ? "from inside" : e.tangent ? "tangent" : "hit"); x.state(mc::H(i / 4)); });

// ---- segments ---------------------------------------------------------------------------------
static void segs(u64 i, Ctx& x, int N, int R) {
    Dec d(i); const Frame& f = FR[d(8)]; i64 r = 1 + d(R); I2 p{d(N), d(N)}, q{d(N), d(N)}, c{N / 2, N / 2 - 1}; double s = f.scale;
    x.in("segment " PF PF " circle " PF " radius %lld frame %s", PA(p), PA(q), PA(c), (long long)r, f.name);
    I2 v = q - p; Hit e = first(p, v, c, r, true); P2 A = f(p), B = f(q); C2 S(f(c), r * s); AbsCmp cmp(1e-8 * s * s);
    double len = std::sqrt(double(dot(v, v))) * s;
    auto ok = [&](const char* w, bool got, double t, const P2& z) {
        x.check(got == e.hit, "%s %d, exact %d", w, got, e.hit);
        if (got && e.hit) { x.check(near(t, e.t, 1, 2e-4), "%s: t %.17g, exact %.17g", w, t, e.t); P2 E(X(A) + e.t * (X(B) - X(A)), Y(A) + e.t * (Y(B) - Y(A))); x.check(dist(z, E) <= 3e-4 * s, "%s: point (%.17g,%.17g), exact (%.17g,%.17g)", w, X(z), Y(z), X(E), Y(E)); }
    };
    { double t = -7; P2 z(-99, -99); bool g = segment_sphere_intersection(A, B, S, t, z, cmp); ok("segment_sphere(points)", g, t, z); }
    { double t = -7; P2 z(-99, -99); bool g = segment_sphere_intersection(A, V2(B - A), len, S, t, z, cmp); ok("segment_sphere(vector)", g, t, z); }
    if (p != q) { double t = -7; P2 z(-99, -99); bool g = segment_sphere_intersection(S2(A, B), S, t, z, cmp); ok("segment_sphere(segment)", g, t, z); }
    if (p != q) {
        // both crossings of the circle
        i64 a = dot(v, v), b = dot(p - c, v), cc = dot(p - c, p - c) - r * r; i128 disc = (i128)b * b - (i128)a * cc;
        // t0 = (-b - sq)/a in [0,1]; exact comparisons of sq with integers
        auto cmpsq = [&](i64 k) { if (k < 0) return 1; i128 w = (i128)k * k; return (disc > w) - (disc < w); }; // sq <=> k
        bool e0 = false, e1 = false, edge = false;
        if (disc >= 0) { int l0 = cmpsq(-b), h0 = cmpsq(-b - a), l1 = -cmpsq(-(-b)), h1; (void)l1;
            // t0 >= 0 <=> sq <= -b ; t0 <= 1 <=> sq >= -b-a ; t1 >= 0 <=> sq >= b ; t1 <= 1 <=> sq <= a+b
            int g1 = cmpsq(b); h1 = cmpsq(a + b); if (-b < 0) l0 = 1; if (a + b < 0) h1 = 1;
            e0 = l0 <= 0 && h0 >= 0; e1 = g1 >= 0 && h1 <= 0; edge = disc == 0 || l0 == 0 || h0 == 0 || g1 == 0 || h1 == 0; }
        bool skip = edge && !(f.exact); bool sqrtexact = true; { long double w = std::sqrt((long double)disc); sqrtexact = disc >= 0 && w == std::floor(w); } skip |= edge && !sqrtexact;
        if (!skip) {
            double t[2] = {-7, -7}; P2 z[2] = {P2(-9, -9), P2(-9, -9)};
            auto g = segment_sphere_intersection(A, B, S, &t[0], &z[0], cmp);
            x.check(g.is_t0_intersecting() == e0 && g.is_t1_intersecting() == e1 && bool(g) == (e0 || e1) && std::uint32_t(g) == std::uint32_t(e0 + e1), "crossings %d %d, exact %d %d", g.is_t0_intersecting(), g.is_t1_intersecting(), e0, e1);
            long double w = std::sqrt((long double)disc);
            for (int k = 0; k < 2; ++k) if (k ? e1 : e0) { double te = double((-b + (k ? w : -w)) / a); x.check(near(t[k], te, 1), "t[%d] %.17g, exact %.17g", k, t[k], te); x.check(dist(z[k], P2(X(A) + te * (X(B) - X(A)), Y(A) + te * (Y(B) - Y(A)))) <= 1e-6 * s, "point %d", k); }
            x.outcome(e0 + e1 == 2 ? "two crossings" : e0 || e1 ? "one crossing" : "no crossing");
        }
    }
    x.outcome(!e.hit ? "miss" : e.inside ? "from inside" : e.tangent ? "tangent" : "hit"); x.state(mc::H(i / 8));
}
MC_SPACE("segments", "all segments (degenerate ones included) of a 7x7 grid against circles of radius 1..3, 8 frames", 8ull * 3 * 2401, [](u64 i, Ctx& x) { segs(i, x, 7, 3); });
MC_SPACE("segments13", "all segments of a 13x13 grid against circles of radius 1..5, 8 frames", 0, 8ull * 5 * 28561, [](u64 i, Ctx& x) { segs(i, x, 13, 5); });
MC_SPACE("segments3d", "all segments of a 5x5x5 grid against spheres of radius 1..2, 4 frames", 4ull * 2 * 15625, [](u64 i, Ctx& x) {
    Dec d(i); const Frame3& f = FR3[d(4)]; i64 r = 1 + d(2); I3 p{d(5), d(5), d(5)}, q{d(5), d(5), d(5)}, c{2, 1, 3}; double s = f.scale;
    x.in("segment " PF3 PF3 " sphere " PF3 " radius %lld frame %s", PA3(p), PA3(q), PA3(c), (long long)r, f.name);
    I3 v = q - p; Hit e = first(p, v, c, r, true); P3 A = f(p), B = f(q); AbsCmp cmp(1e-8 * s * s); double t = -7; P3 z(-99, -99, -99);
    bool g = segment_sphere_intersection(A, V3(B - A), std::sqrt(double(dot(v, v))) * s, C3(f(c), r * s), t, z, cmp);
    x.check(g == e.hit, "segment_sphere 3D %d, exact %d", g, e.hit);
    if (g && e.hit) { x.check(near(t, e.t, 1, 2e-4), "t %.17g, exact %.17g", t, e.t); x.check(dist(z, P3(X(A) + e.t * (X(B) - X(A)), Y(A) + e.t * (Y(B) - Y(A)), Z(A) + e.t * (Z(B) - Z(A)))) <= 3e-4 * s, "point"); }
    x.outcome(!e.hit ? "miss" : e.inside ? "from inside" : e.tangent ? "tangent" : "hit"); x.state(mc::H(i / 4)); });

// ---- capsules -----------------------------------------------------------------------------------
// exact: does the segment ab come within r of pq; first time by bisection on the convex distance function
static double cap_first(I2 a, I2 b, I2 p, I2 q, double r) { // precondition: they meet, a outside
    auto D = [&](double t) { double zx = a.x + t * (b.x - a.x), zy = a.y + t * (b.y - a.y), vx = q.x - p.x, vy = q.y - p.y, u = ((zx - p.x) * vx + (zy - p.y) * vy) / (vx * vx + vy * vy); u = std::min(1., std::max(0., u)); return std::hypot(zx - p.x - u * vx, zy - p.y - u * vy); };
    double lo = 0, hi = 1; for (int k = 0; k < 200; ++k) { double m1 = lo + (hi - lo) / 3, m2 = hi - (hi - lo) / 3; if (D(m1) <= D(m2)) hi = m2; else lo = m1; } double m = (lo + hi) / 2; if (D(m) > r) return m;
    lo = 0; hi = m; for (int k = 0; k < 200; ++k) { double c = (lo + hi) / 2; if (D(c) <= r) hi = c; else lo = c; }
    return hi;
}
static void capsule_(Ctx& x, const Frame& f, I2 a, I2 b, I2 p, I2 q, i64 r) {
    double s = f.scale; Q d2 = seg_seg_dist2(a, b, p, q), da = seg_dist2(p, q, a); bool meet = d2 <= Q(r * r), inside = da <= Q(r * r), edge = d2 == Q(r * r) || da == Q(r * r);
    x.in("segment " PF PF " capsule " PF PF " radius %lld frame %s", PA(a), PA(b), PA(p), PA(q), (long long)r, f.name);
    if (edge) { // decided by rounding, but where every step is exact
        I2 v = q - p, n = b - a; i64 md = dot(a - p, v), dd = dot(v, v), me = dot(b - p, v); bool id = &f == &FR[0]; P2 z(-99, -99); double t = -7; AbsCmp cmp(1e-10);
        bool on = da == Q(r * r), flat = me > 0 && me < dd && cross(n, v) && seg_dist2(p, q, b) == Q(r * r);
        if (!id || !(on ? md <= 0 || md >= dd || dd == 1 || dd == 2 || dd == 4 : flat || !n.x || !n.y)) return x.outcome("touch");
        bool g = segment_capsule_intersection(f(a), f(b), f(p), f(q), r * s, t, z, cmp); x.check(g, "segment_capsule_intersection %d, exact 1 (touching)", g);
        if (g) { double te = on ? 0 : cap_first(a, b, p, q, r + 1e-9); x.check(near(t, te, 1, on ? 0 : 1e-3), "t %.17g, exact %.17g", t, te); x.check(dist(z, P2(a.x + t * n.x, a.y + t * n.y)) <= 1e-9, "point (%.17g,%.17g)", X(z), Y(z)); }
        return x.outcome(on ? "starts on the border" : "exact touch");
    }
    P2 A = f(a), B = f(b), z(-99, -99); double t = -7; AbsCmp cmp(1e-10);
    bool g = segment_capsule_intersection(A, B, f(p), f(q), r * s, t, z, cmp);
    x.check(g == meet, "segment_capsule_intersection %d, exact %d", g, meet);
    if (g && meet) {
        double te = inside ? 0 : cap_first(a, b, p, q, r);
        x.check(near(t, te, 1, 1e-5), "t %.17g, exact %.17g", t, te); x.check(dist(z, P2(X(A) + te * (X(B) - X(A)), Y(A) + te * (Y(B) - Y(A)))) <= 1e-4 * s, "point (%.17g,%.17g)", X(z), Y(z));
    }
    x.outcome(!meet ? "miss" : inside ? "from inside" : "hit");
}
MC_SPACE("capsules", "all segments of a 6x6 grid against 13 capsules of radius 1..2, 4 frames", 4ull * 2 * 13 * 1296, [](u64 i, Ctx& x) {
    static const I2 V[] = {{1, 0}, {2, 0}, {3, 0}, {0, 1}, {0, -2}, {1, 1}, {2, 1}, {1, 2}, {-1, 2}, {-2, -1}, {-3, 0}, {3, -1}, {1, -1}};
    static const int FI[] = {0, 3, 5, 7}; Dec d(i); const Frame& f = FR[FI[d(4)]]; i64 r = 1 + d(2); I2 v = V[d(13)], p{2, 3}; I2 a{d(6) - 0, d(6)}, b{d(6), d(6)};
    if (a == b) return x.skip();
    capsule_(x, f, a, b, p, p + v, r); x.state(mc::H(i / 4)); });
MC_SPACE("capsuleswide", "all segments of a 13x13 grid against 13 capsules of radius 1..2", 2ull * 13 * 28561, [](u64 i, Ctx& x) {
    static const I2 V[] = {{1, 0}, {2, 0}, {3, 0}, {0, 1}, {0, -2}, {1, 1}, {2, 1}, {1, 2}, {-1, 2}, {-2, -1}, {-3, 0}, {3, -1}, {1, -1}};
    Dec d(i); i64 r = 1 + d(2); I2 v = V[d(13)], p{5, 6}; I2 a{d(13), d(13)}, b{d(13), d(13)};
    if (a == b) return x.skip();
    capsule_(x, FR[0], a, b, p, p + v, r); x.state(mc::H(i)); });

// ---- boxes and planes ---------------------------------------------------------------------------
static i64 gap(i64 lo, i64 hi, i64 v) { return v < lo ? lo - v : v > hi ? v - hi : 0; }
MC_SPACE("boxes", "circles of radius 1..5 (halves) against boxes with coordinates 0..6 and oriented boxes, 8 frames for the latter", 8ull * 5 * 49 * 13 * 13, [](u64 i, Ctx& x) {
    Dec d(i); const Frame& f = FR[d(8)]; i64 r = 1 + d(5), w = d(7), h = d(7); I2 c{d(13) - 3, d(13) - 3}; double s = f.scale;
    i64 g2 = gap(0, w, c.x) * gap(0, w, c.x) + gap(0, h, c.y) * gap(0, h, c.y); bool meet = g2 <= r * r; 
    x.in("circle " PF " radius %lld box [0,%lld]x[0,%lld] frame %s", PA(c), (long long)r, (long long)w, (long long)h, f.name);
    i64 qx = std::min(std::max<i64>(c.x, 0), w), qy = std::min(std::max<i64>(c.y, 0), h);
    if (f.b == 0 && f.a > 0 && f.d > 0) if (f.exact || g2 != r * r) {
        B2 b(f(I2{0, 0}), f(I2{w, h})); C2 S(f(c), r * s); P2 z(-99, -99);
        x.check(sphere_aabb_intersection(S, b) == meet && sphere_aabb_intersection(S, b, z) == meet, "sphere_aabb_intersection, exact %d", meet);
        x.check(same(z, f(I2{qx, qy}), 1e-9), "closest point (%.17g,%.17g)", X(z), Y(z));
    }
    if (w && h && (g2 != r * r || (f.exact && f.scale == 1))) {
        V2 u = f.vec({1, 0}), v = f.vec({0, 1}); u = V2(u[0] / s, u[1] / s); v = V2(v[0] / s, v[1] / s);
        x.check(sphere_obb_intersection(C2(f(c), r * s), OB(f(w / 2., h / 2.), u, v, w / 2. * s, h / 2. * s)) == meet, "sphere_obb_intersection, exact %d", meet);
    }
    x.outcome(meet ? g2 == r * r ? "touch" : g2 ? "meet" : "centre inside" : "apart"); x.state(mc::H(i / 8)); });
MC_SPACE("boxes3d", "spheres of radius 1..3 against boxes in space with coordinates 0..3", 3ull * 64 * 729, [](u64 i, Ctx& x) {
    Dec d(i); i64 r = 1 + d(3), w[3] = {d(4), d(4), d(4)}; i64 c[3] = {d(9) - 3, d(9) - 3, d(9) - 3}; i64 g2 = 0; P3 q; for (int j = 0; j < 3; ++j) { i64 g = gap(0, w[j], c[j]); g2 += g * g; q[j] = std::min(std::max<i64>(c[j], 0), w[j]); }
    x.in("sphere (%lld,%lld,%lld) radius %lld box %lld %lld %lld", (long long)c[0], (long long)c[1], (long long)c[2], (long long)r, (long long)w[0], (long long)w[1], (long long)w[2]);
    B3 b(P3(0, 0, 0), P3(w[0], w[1], w[2])); C3 S(P3(c[0], c[1], c[2]), r); P3 z(-9, -9, -9); bool meet = g2 <= r * r;
    x.check(sphere_aabb_intersection(S, b) == meet && sphere_aabb_intersection(S, b, z) == meet, "sphere_aabb_intersection, exact %d", meet); x.check(same(z, q), "closest point");
    x.outcome(meet); x.state(mc::H(i)); });
MC_SPACE("planes", "all segments of a 5x5 grid against all lines through grid points, 8 frames", 8ull * 625 * 625, [](u64 i, Ctx& x) {
    Dec d(i); const Frame& f = FR[d(8)]; I2 a = gp(d(25), 5), b = gp(d(25), 5), p = gp(d(25), 5), q = gp(d(25), 5); if (a == b || p == q) return x.skip();
    x.in("segment " PF PF " line " PF PF " frame %s", PA(a), PA(b), PA(p), PA(q), f.name);
    i64 o1 = orient(p, q, a), o2 = orient(p, q, b); if (o1 == o2) return x.outcome("parallel");
    bool e = sgn(o1) * sgn(o2) <= 0, edge = !o1 || !o2; if (edge && !(f.exact && (p.x == q.x || p.y == q.y))) return x.outcome("end on the line");
    line<P2> l(f(p), f(q)); double t = -7; P2 z(-99, -99); bool g = segment_plane_intersection(f(a), f(b), l, t, z);
    x.check(g == e, "segment_plane_intersection %d, exact %d", g, e);
    Q te = Q(o1, o1 - o2); x.check(near(t, te.dbl(), 1, 1e-7), "t %.17g, exact %.17g", t, te.dbl()); if (e && g) x.check(same(z, f(Q2(a) + te * Q2(b - a)), 1e-8), "point (%.17g,%.17g)", X(z), Y(z));
    x.outcome(e); x.state(mc::H(i / 8)); });

// ---- circle against polyline: every edge which crosses the border is visited in order, until the visitor stops ----
static int crossings(I2 p, I2 q, I2 c, i64 r, double t[2]) { I2 v = q - p; i64 a = dot(v, v), b = dot(p - c, v), cc = dot(p - c, p - c) - r * r; i128 disc = (i128)b * b - (i128)a * cc; if (disc < 0 || a == 0) return 0; long double w = std::sqrt((long double)disc); t[0] = double((-b - w) / a); t[1] = double((-b + w) / a); auto cmpsq = [&](i64 k) { if (k < 0) return 1; i128 u = (i128)k * k; return (disc > u) - (disc < u); };
    bool edge = disc == 0 || cmpsq(-b) == 0 || cmpsq(b) == 0 || cmpsq(-b - a) == 0 || cmpsq(a + b) == 0; bool sq = w == std::floor(w); if (edge && !sq) return -1; return (cmpsq(-b) <= 0 && -b >= 0 && cmpsq(-b - a) >= 0 ? 1 : 0) | (cmpsq(b) >= 0 && cmpsq(a + b) <= 0 ? 2 : 0); }
static void pline1(Ctx& x, const std::vector<I2>& v, I2 c, i64 r, const Frame& f);
static void pline(u64 i, Ctx& x, int n, int W, int H) {
    Dec d(i); const Frame& f = FR[d(4)]; i64 r = 1 + d(3); I2 c = gp(d(W * H), W); std::vector<I2> v; for (int k = 0; k < n; ++k) { v.push_back(gp(d(W * H), W)); if (k && v[k] == v[k - 1]) return x.skip(); } pline1(x, v, c, r, f); x.state(mc::H(i / 4)); }
static void pline1(Ctx& x, const std::vector<I2>& v, I2 c, i64 r, const Frame& f) {
    int n = v.size(); x.in("polyline %s circle " PF " radius %lld frame %s", x.verbose ? str(v).c_str() : "", PA(c), (long long)r, f.name);
    struct Ev { int m, i; double t[2]; }; std::vector<Ev> want; for (int k = 0; k + 1 < n; ++k) { Ev e{0, k, {0, 0}}; e.m = crossings(v[k], v[k + 1], c, r, e.t); if (e.m < 0) return x.skip(); if (e.m) want.push_back(e); }
    L2 l = mk<L2>(v, f); double s = f.scale; for (int stop = -1; stop < (int)want.size(); ++stop) { int m = 0; bool bad = false; bool g = sphere_polyline_intersect(C2(f(c), r * s), l, [&](const segment_sphere_intersection_result& e, std::size_t a, std::size_t b, double t0, const P2& q0, double t1, const P2& q1) { if (m >= (int)want.size()) { bad = true; return true; } auto& w = want[m]; bad = bad || (int)a != w.i || b != a + 1 || e.is_t0_intersecting() != (w.m & 1) || e.is_t1_intersecting() != (w.m >> 1); auto at = [&](double t, const P2& q, double T) { return near(t, T, 1) && dist(q, P2(X(l[w.i]) + T * (X(l[w.i + 1]) - X(l[w.i])), Y(l[w.i]) + T * (Y(l[w.i + 1]) - Y(l[w.i])))) <= 1e-6 * s; }; if (w.m & 1) bad = bad || !at(t0, q0, w.t[0]); if (w.m & 2) bad = bad || !at(t1, q1, w.t[1]); return m++ == stop; }, AbsCmp(1e-10 * s));
        x.check(g == !want.empty() && !bad && m == (stop < 0 ? (int)want.size() : stop + 1), "sphere_polyline_intersect %d, %d visits%s, %d crossed edges, stopped at %d", g, m, bad ? ", a wrong one" : "", (int)want.size(), stop); }
    x.outcome(want.empty() ? "apart" : want.size() == 1 ? "one edge" : "several edges"); }
MC_SPACE("polyline-short", "all polylines of 0, 1 and 2 points of a 5x4 grid against circles of radius 1..3 at grid points, 4 exact frames", 4ull * 3 * 20 * (1 + 20 + 400), [](u64 i, Ctx& x) { if (i < 240) return pline(i, x, 0, 5, 4); i -= 240; if (i < 4800) return pline(i, x, 1, 5, 4); pline(i - 4800, x, 2, 5, 4); });
MC_SPACE("polyline3", "all polylines of 3 points of a 5x4 grid against circles of radius 1..3 at grid points, 4 exact frames", 4ull * 3 * 20 * 8000, [](u64 i, Ctx& x) { pline(i, x, 3, 5, 4); });
MC_SPACE("polyline4", "all polylines of 4 points of a 4x4 grid against circles of radius 1..3 at grid points, 4 exact frames", 4ull * 3 * 16 * 65536, [](u64 i, Ctx& x) { pline(i, x, 4, 4, 4); });
MC_SIZES("polylinesizes", "zigzags, spirals, stairs, arcs, straight chains, saws of 6..25 (thorough: 45) vertices, both directions, against circles of 5 radii around the points at, next to and between all vertices, 2 exact frames", 2ull * 2 * 6, 20, 40, [](u64 i, Ctx& x) {
    Dec d(i); const Frame& f = FR[d(2)]; int rev = d(2), kind = d(6), n = big_n(d.v); if (!big_ok(kind + 6, n)) return x.skip(); auto v = big_chain(kind, n); for (auto& p : v) p = 2 * p; if (rev) std::reverse(v.begin(), v.end());
    for (I2 c : around(v, false)) for (i64 r : {1, 4, 5, 13, 50}) { bool any = false; for (int k = 0; k + 1 < n; ++k) { double t[2]; any = any || crossings(v[k], v[k + 1], c, r, t) < 0; } if (any) continue; pline1(x, v, c, r, f); if (x.failed) return; } x.state(mc::H(i)); });
