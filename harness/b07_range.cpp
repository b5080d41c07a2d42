// B07: segments against the cone between two directions.
#include "geo.hpp"
#include <geometrix/algorithm/is_segment_in_range.hpp>
#include <geometrix/utility/utilities.hpp>
using namespace gx;

// the part of ab in the closed cone {cross(lo,p)>=0, cross(p,hi)>=0}; for antiparallel lo,hi a half plane
static bool clip(I2 a, I2 b, I2 lo, I2 hi, Q& s, Q& e) {
    s = Q(0); e = Q(1);
    auto half = [&](i64 p, i64 q) { if (p < 0 && q < 0) return false; if (p >= 0 && q >= 0) return true; Q u(p, p - q); if (p < 0) s = qmax(s, u); else e = qmin(e, u); return s <= e; };
    return half(cross(lo, a), cross(lo, b)) && half(cross(a, hi), cross(b, hi));
}
static void one(u64 i, Ctx& x, int R, int S, bool pts) {
    Dec d(i); int D = 2 * R + 1, E = 2 * S + 1;
    auto g = [](int k, int D, int R) { return I2{k % D - R, k / D - R}; };
    static const int FI[] = {0, 1, 8};
    const Frame& f = FR[FI[d(3)]];
    I2 lo = g(d(E * E), E, S), hi = g(d(E * E), E, S), a = g(d(D * D), D, R), b = g(d(D * D), D, R), z{0, 0};
    if (lo == z || hi == z || a == b || cross(lo, hi) < 0 || (cross(lo, hi) == 0 && dot(lo, hi) > 0)) return x.skip();
    x.in("lo " PF " hi " PF " segment " PF PF " frame %s", PA(lo), PA(hi), PA(a), PA(b), f.name);
    Q s, e; bool w = clip(a, b, lo, hi, s, e);
    P2 o = f(z); S2 seg(f(a), f(b)); V2 vl = f.vec(lo), vh = f.vec(hi);
    x.outcome(!w ? "out" : s == e ? "touch" : s == Q(0) && e == Q(1) ? "in" : "part");
    x.state(mc::H(u64(i / 3)));
    if (!pts) { bool r = is_segment_in_range_2d(seg, vl, vh, o); x.check(r == w, "in range %d, exact %d", r, w); return; }
    AbsCmp cmp(1e-10); P2 xp[2] = {P2(1e9, 1e9), P2(1e9, 1e9)};
    bool r = is_segment_in_range_2d(seg, vl, vh, o, xp, cmp);
    x.check(r == w, "with points: in range %d, exact %d", r, w);
    if (r && w) {
        P2 p = f(Q2(a) + s * Q2(b - a)), q = f(Q2(a) + e * Q2(b - a));
        x.check((same(p, xp[0]) && same(q, xp[1])) || (same(q, xp[0]) && same(p, xp[1])), "points (%g,%g) (%g,%g)", X(xp[0]), Y(xp[0]), X(xp[1]), Y(xp[1]));
    }
}
MC_SPACE("cones2", "all cones up to 180 degrees with directions in [-2,2]^2, all segments in [-2,2]^2, 3 frames", 3ull * 625 * 625, [](u64 i, Ctx& x) { one(i, x, 2, 2, false); });
MC_SPACE("cones3", "all cones with directions in [-2,2]^2, all segments in [-3,3]^2, 3 frames", 0, 3ull * 625 * 2401, [](u64 i, Ctx& x) { one(i, x, 3, 2, false); });
MC_SPACE("points2", "the form that reports the clipped segment", 3ull * 625 * 625, [](u64 i, Ctx& x) { one(i, x, 2, 2, true); });
