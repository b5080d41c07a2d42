// C02: points and segments against triangles, in the plane and in space.
#include "geo.hpp"
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/intersection/segment_triangle_intersection.hpp>
#include <geometrix/utility/utilities.hpp>
using namespace gx;

static void tri2(u64 i, Ctx& x, int W, int H) {
    Dec d(i); int n = W * H; I2 a = 2 * gp(d(n), W), b = 2 * gp(d(n), W), c = 2 * gp(d(n), W);
    if (orient(a, b, c) <= 0) return x.skip();
    std::vector<I2> r{a, b, c};
    for (int fi = 0; fi < NAF; ++fi) {
        const Frame& f = FR[fi]; AbsCmp cmp(NM ? 1e-13 : 1e-10); if (NM && !f.exact) continue;
        x.in("doubled triangle %s frame %s", str(r).c_str(), f.name);
        auto F = [&](I2 p) { return f(p.x / 2., p.y / 2.); };
        P2 A = F(a), B = F(b), C = F(c);
        if (f.orient < 0) std::swap(B, C);
        for (int qx : half_coords(W)) for (int qy : half_coords(H)) {
            bool in = ring_side(r, I2{qx, qy}) >= 0;
            x.check(point_in_triangle(F({qx, qy}), A, B, C, cmp) == in, "(%g,%g) should be %d", qx / 2., qy / 2., in);
            x.outcome(in);
            if (x.failed) return;
        }
    }
    x.state(mc::H(a.x, a.y, b.x, b.y, c.x, c.y));
}
MC_SPACE("points2d5x4", "all ccw triangles of a 5x4 grid, 10 frames, half grid queries", 8000, [](u64 i, Ctx& x) { tri2(i, x, 5, 4); });
MC_SPACE("points2d7x6", "all ccw triangles of a 7x6 grid, 10 frames, half grid queries", 0, 74088, [](u64 i, Ctx& x) { tri2(i, x, 7, 6); });

// 3d: the query point is A + (s (B-A) + t (C-A))/2 for all small integers s,t: in the plane of the triangle
static void tri3(u64 i, Ctx& x, int W) {
    Dec d(i); int n = W * W * W; I3 a = gp3(d(n), W), b = gp3(d(n), W), c = gp3(d(n), W);
    I3 nn = cross(b - a, c - a); if (nn == I3{0, 0, 0}) return x.skip();
    for (int fi = 0; fi < NFR3; ++fi) {
        const Frame3& f = FR3[fi]; AbsCmp cmp(1e-10);
        x.in(PF3 PF3 PF3 " frame %s", PA3(a), PA3(b), PA3(c), f.name);
        P3 A = f(a), B = f(b), C = f(c);
        for (int s = -4; s <= 6; ++s) for (int t = -4; t <= 6; ++t) {
            P3 q = f(a.x + (s * (b.x - a.x) + t * (c.x - a.x)) / 2., a.y + (s * (b.y - a.y) + t * (c.y - a.y)) / 2., a.z + (s * (b.z - a.z) + t * (c.z - a.z)) / 2.);
            bool in = s >= 0 && t >= 0 && s + t <= 2;
            x.check(point_in_triangle(q, A, B, C, cmp) == in, "A + %g AB + %g AC should be %d", s / 2., t / 2., in);
            x.outcome(in);
            if (x.failed) return;
        }
    }
    x.state(mc::H(a.x, a.y, a.z, b.x, b.y, b.z, c.x, c.y, c.z));
}
MC_SPACE("points3d", "all triangles of a 3x3x3 grid, 4 frames, 121 coplanar queries", 19683, [](u64 i, Ctx& x) { tri3(i, x, 3); });
MC_SPACE("points3d4", "all triangles of a 4x4x4 grid, 4 frames, 121 coplanar queries", 0, 262144, [](u64 i, Ctx& x) { tri3(i, x, 4); });

// the part of pq inside the closed triangle (Liang-Barsky on rationals); false when empty
static bool clip(I2 p, I2 q, const I2* t, Q& lo, Q& hi) {
    lo = Q(0); hi = Q(1);
    for (int k = 0; k < 3; ++k) {
        i64 s = orient(t[k], t[(k + 1) % 3], p), e = orient(t[k], t[(k + 1) % 3], q);
        if (s < 0 && e < 0) return false;
        if (s >= 0 && e >= 0) continue;
        Q u(s, s - e);
        if (s < 0) lo = qmax(lo, u); else hi = qmin(hi, u);
    }
    return lo <= hi;
}
static void seg(u64 i, Ctx& x, int W, int H) {
    Dec d(i); int fi = d(NAF), n = W * H; I2 t[3]; for (auto& p : t) p = gp(d(n), W);
    I2 p = gp(d(n), W), q = gp(d(n), W);
    if (orient(t[0], t[1], t[2]) <= 0 || p == q || (NM && !FR[fi].exact)) return x.skip();
    const Frame& f = FR[fi]; AbsCmp cmp(NM ? 1e-13 : 1e-10);
    x.in("triangle " PF PF PF " segment " PF PF " frame %s", PA(t[0]), PA(t[1]), PA(t[2]), PA(p), PA(q), f.name);
    Q lo, hi; bool hit = clip(p, q, t, lo, hi);
    P2 A = f(t[0]), B = f(t[1]), C = f(t[2]); if (f.orient < 0) std::swap(B, C);
    P2 xp[2];
    int r = segment_triangle_intersect(f(p), f(q), A, B, C, xp, cmp);
    int want = !hit ? 0 : lo == hi ? 1 : 2;
    x.check(r == want, "%d intersection points, exact %d", r, want);
    if (r == want && want) {
        P2 e0 = f(Q2(p) + lo * Q2(q - p)), e1 = f(Q2(p) + hi * Q2(q - p));
        if (want == 1) x.check(same(xp[0], e0), "point (%g,%g)", X(xp[0]), Y(xp[0]));
        else x.check((same(xp[0], e0) && same(xp[1], e1)) || (same(xp[1], e0) && same(xp[0], e1)), "points (%g,%g) (%g,%g)", X(xp[0]), Y(xp[0]), X(xp[1]), Y(xp[1]));
    }
    if (f.exact) {
        x.check(segment_triangle_intersect(f(p), f(q), A, B, C) == hit, "yes/no form should be %d", hit);
        x.check(segment_triangle_intersect(S2(f(p), f(q)), A, B, C) == hit, "yes/no segment form should be %d", hit);
        x.check(segment_triangle_intersect(f(p), f(q), A, C, B) == hit, "yes/no form, other winding, should be %d", hit);
    }
    x.outcome(want);
    x.state(mc::H(t[0].x, t[0].y, t[1].x, t[1].y, t[2].x, t[2].y, p.x, p.y, q.x, q.y));
}
MC_SPACE("segments3x4", "all ccw triangles and segments of a 3x4 grid, 10 frames", 10ull * 248832, [](u64 i, Ctx& x) { seg(i, x, 3, 4); });
MC_SPACE("segments4x4", "all ccw triangles and segments of a 4x4 grid, 10 frames", 0, 10ull * 1048576, [](u64 i, Ctx& x) { seg(i, x, 4, 4); });
MC_SPACE("segments5x5", "all ccw triangles and segments of a 5x5 grid, 10 frames", 0, 10ull * 9765625, [](u64 i, Ctx& x) { seg(i, x, 5, 5); });
MC_SPACE("points-near", "all ccw triangles of a 5x4 grid of near coincidences (columns and rows in pairs one step apart, 256 steps between pairs; exact frames), queries on and half a step around its lines", 8000, [](u64 i, Ctx& x) { Near m(256); tri2(i, x, 5, 4); });
MC_SPACE("segments-near", "all ccw triangles and segments of a 3x4 grid of near coincidences, exact frames", 10ull * 248832, [](u64 i, Ctx& x) { Near m(256); seg(i, x, 3, 4); });
