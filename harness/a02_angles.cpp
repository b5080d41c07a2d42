// A02: angles and the angular orders.
#include "geo.hpp"
#include <geometrix/utility/utilities.hpp>
#include <geometrix/utility/point_angle_compare.hpp>
#include <geometrix/utility/vector_angle_compare.hpp>
using namespace gx;

static int quad(I2 a, I2 c) { i64 k = cross(a, c); return k > 0 ? 1 : k < 0 ? 3 : dot(a, c) > 0 ? 0 : 2; }
// exact: direction c comes strictly before b counter-clockwise from a
static bool before(I2 a, I2 c, I2 b) { int q = quad(a, c), r = quad(a, b); return q != r ? q < r : cross(c, b) > 0 && (q == 1 || q == 3); }

static I2 g(int k, int R) { int D = 2 * R + 1; return {k % D - R, k / D - R}; }
static const double SC[] = {1, 1. / 16, 256};
static void order(u64 i, Ctx& x, int R) {
    Dec d(i); int n = (2 * R + 1) * (2 * R + 1); I2 z{0, 0};
    int si = d(3);
    I2 ref = g(d(n), R), a = g(d(n), R), b = g(d(n), R);
    if (ref == z || a == z || b == z) return x.skip();
    double s = SC[si];
    x.in("scale %g ref " PF " " PF PF, s, PA(ref), PA(a), PA(b));
    AbsCmp cmp(1e-10);
    V2 vr(s * ref.x, s * ref.y), va(s * a.x, s * a.y), vb(s * b.x, s * b.y);
    vector_angle_compare<AbsCmp> vc(vr, cmp);
    x.check(vc(va, vb) == before(ref, a, b), "vector order %d, exact %d", vc(va, vb), before(ref, a, b));
    if (ref == I2{1, 0}) {
        vector_angle_compare<AbsCmp> v0(cmp);
        x.check(v0(va, vb) == before(ref, a, b), "default vector order");
        P2 o(3.5, -7.25);
        point_angle_compare<AbsCmp> pc(o, cmp);
        x.check(pc(P2(o + va), P2(o + vb)) == before(ref, a, b), "point order");
        x.check((pseudo_angle(va) < pseudo_angle(vb) - 1e-12) == before(ref, a, b), "pseudo angle order: %.17g, %.17g", pseudo_angle(va), pseudo_angle(vb));
    }
    x.outcome(before(ref, a, b) ? "less" : "not less");
    x.state(mc::H(ref.x, ref.y, a.x, a.y, b.x, b.y, si));
}
MC_SPACE("order3", "all reference/direction/direction triples in [-3,3]^2, 3 scales", 3ull * 117649, [](u64 i, Ctx& x) { order(i, x, 3); });
MC_SPACE("order6", "all reference/direction/direction triples in [-6,6]^2, 3 scales", 0, 3ull * 4826809, [](u64 i, Ctx& x) { order(i, x, 6); });

// pseudo angle and angles of single directions, signed zeros included
MC_SPACE("angles", "all directions in [-20,20]^2 with both signs of zero, 3 scales", 3ull * 4 * 1681, [](u64 i, Ctx& x) {
    Dec d(i); int si = d(3), zx = d(2), zy = d(2); I2 p = g(d(1681), 20);
    if (p == I2{0, 0} || (zx && p.x) || (zy && p.y)) return x.skip();
    double s = SC[si], px = zx ? -0.0 : s * p.x, py = zy ? -0.0 : s * p.y;
    x.in("(%g,%g)", px, py);
    V2 v(px, py);
    double want = std::atan2(double(p.y), double(p.x)), two = 2 * M_PI, pos = want < 0 ? want + two : want;
    double pa = pseudo_angle(v);
    x.check(pa >= 0 && pa < 4, "pseudo angle %.17g not in [0,4)", pa);
    // the pseudo angle is 0,1,2,3 on the axes and its quadrant is the direction's
    double sum = std::fabs(px) + std::fabs(py), ex = p.y >= 0 ? 1 - px / sum : 3 + px / sum;
    x.check(mc::close(pa, ex, 1e-12), "pseudo angle %.17g, exact %.17g", pa, ex);
    double va = vector_angle(v), ab = angle_from_a_to_b(P2(5, -2), P2(5 + px, -2 + py));
    auto eq = [&](double q) { double r = std::fabs(q - want); return r < 1e-9 || std::fabs(r - two) < 1e-9; };
    x.check(eq(va) && std::fabs(va) <= M_PI + 1e-12, "vector angle %.17g", va);
    x.check(eq(ab) && std::fabs(ab) <= M_PI + 1e-12, "angle between points %.17g", ab);
    x.check(std::fabs(normalize_angle_0_2pi_copy(va) - pos) < 1e-9 || (p.y == 0 && p.x > 0), "normalized vector angle");
    x.state(mc::H(p.x, p.y, si, zx, zy));
});
// normalisation of angles k*pi/48 + tiny offsets over many turns
static void norm(u64 i, Ctx& x, int turns) {
    static const double off[] = {0, 1e-15, -1e-15, 1e-9, -1e-9, 1e-3, -1e-3, 5e-17, -5e-17};
    Dec d(i); int o = d(9); int k = d(96 * 2 * turns + 1) - 96 * turns;
    double a = k * (M_PI / 48) + off[o];
    x.in("angle %.17g", a);
    double two = 2 * M_PI, n = normalize_angle_0_2pi_copy(a), m = normalize_angle_minus_pi_to_pi_copy(a), n2 = a, m2 = a;
    normalize_angle_0_2pi(n2); normalize_angle_minus_pi_to_pi(m2);
    x.check(n == n2 && m == m2, "copy and in-place forms differ");
    x.check(n >= 0 && n <= two, "%.17g not in [0,2pi]", n);
    x.check(m >= -M_PI && m <= M_PI, "%.17g not in [-pi,pi]", m);
    auto congruent = [&](double v) { double t = (v - a) / two; return std::fabs(t - std::nearbyint(t)) < 1e-12 * (1 + std::fabs(a)); };
    x.check(congruent(n), "%.17g is not the same angle", n);
    x.check(congruent(m), "%.17g is not the same angle", m);
    x.state(mc::H(k, o));
}
MC_SPACE("normalize", "angles k*pi/48 with tiny offsets over +-50 turns", 9ull * 9601, [](u64 i, Ctx& x) { norm(i, x, 50); });
MC_SPACE("normalize2000", "angles k*pi/48 with tiny offsets over +-2000 turns", 0, 9ull * 384001, [](u64 i, Ctx& x) { norm(i, x, 2000); });
