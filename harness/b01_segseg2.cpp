// B01: planar segment/segment intersection against exact arithmetic, all pairs of grid segments.
#include "geo.hpp"
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/utility/utilities.hpp>
using namespace gx;

// kind: 0 none, 1 crossing, 2 single touching point (at least one end point), 3 overlap of positive length
static int model(I2 a, I2 b, I2 c, I2 d, Q2& p, Q2& q) {
    i64 den = cross(b - a, d - c);
    if (den != 0) {
        Q s(cross(c - a, d - c), den), t(cross(c - a, b - a), den);
        if (s < Q(0) || s > Q(1) || t < Q(0) || t > Q(1)) return 0;
        p = Q2(a) + s * Q2(b - a);
        return (s > Q(0) && s < Q(1) && t > Q(0) && t < Q(1)) ? 1 : 2;
    }
    if (orient(a, b, c) != 0) return 0;
    I2 l1 = std::min(a, b), h1 = std::max(a, b), l2 = std::min(c, d), h2 = std::max(c, d);
    I2 lo = std::max(l1, l2), hi = std::min(h1, h2);
    if (hi < lo) return 0;
    p = lo; q = hi;
    return lo == hi ? 2 : 3;
}
template <class Cmp> static void one(I2 a, I2 b, I2 c, I2 d, const Frame& f, const Cmp& cmp, Ctx& x) {
    P2 A = f(a), B = f(b), C = f(c), D = f(d);
    Q2 p, q;
    int m = model(a, b, c, d, p, q);
    bool par = cross(b - a, d - c) == 0;
    for (int api = 0; api < 3; ++api) {
        P2 xp[2] = {P2(1e300, 1e300), P2(1e300, 1e300)};
        int r;
        if (api == 0) r = segment_segment_intersection(A, B, C, D, xp, cmp);
        else if (api == 1) r = segment_segment_intersection(S2(A, B), S2(C, D), xp, cmp);
        else r = segment_segment_intersection(S2(A, B), S2(C, D), (P2*)nullptr, cmp);
        x.note("api %d -> %d (%g,%g) (%g,%g), model %d", api, r, X(xp[0]), Y(xp[0]), X(xp[1]), Y(xp[1]), m);
        double tol = NM ? 1e-7 : 1e-9;
        if (m == 0) x.check(r == e_non_crossing, "disjoint segments reported as %d", r);
        else if (m == 1) {
            x.check(r == e_crossing, "crossing segments reported as %d", r);
            if (api < 2) x.check(same(xp[0], f(p), tol), "crossing point (%.17g,%.17g)", X(xp[0]), Y(xp[0]));
        } else if (m == 2) {
            // a shared end point of collinear segments may be given as a degenerate overlap
            bool ok = r == e_endpoint || (par && r == e_overlapping);
            x.check(ok, "segments touching at an end point reported as %d", r);
            if (api < 2) {
                x.check(same(xp[0], f(p), tol), "touching point (%.17g,%.17g)", X(xp[0]), Y(xp[0]));
                if (r == e_overlapping) x.check(same(xp[1], f(p), tol), "degenerate overlap end (%.17g,%.17g)", X(xp[1]), Y(xp[1]));
            }
        } else {
            x.check(r == e_overlapping, "overlapping segments reported as %d", r);
            if (api < 2) x.check((same(xp[0], f(p), tol) && same(xp[1], f(q), tol)) || (same(xp[1], f(p), tol) && same(xp[0], f(q), tol)),
                    "overlap (%.17g,%.17g)-(%.17g,%.17g)", X(xp[0]), Y(xp[0]), X(xp[1]), Y(xp[1]));
        }
    }
    static const char* L[] = {"disjoint", "crossing", "touch", "overlap"};
    x.outcome(L[m]);
    x.state(mc::H(a.x, a.y, b.x, b.y, c.x, c.y, d.x, d.y, f.name[0], f.name[1]));
}
static void grid(u64 i, Ctx& x, int W, int H) {
    Dec d(i);
    int fi = d(NAF), ci = d(2), n = W * H;
    I2 a = gp(d(n), W), b = gp(d(n), W), c = gp(d(n), W), e = gp(d(n), W);
    if (a == b || c == e || (NM && !FR[fi].exact)) return x.skip();
    x.in("%s %s " PF PF " " PF PF, FR[fi].name, ci ? "fraction" : "absolute", PA(a), PA(b), PA(c), PA(e));
    if (ci) one(a, b, c, e, FR[fi], FracCmp(1e-10), x); else one(a, b, c, e, FR[fi], AbsCmp(1e-10), x);
}
MC_SPACE("pairs4x4", "all ordered pairs of segments with end points on a 4x4 grid, 10 frames, 2 comparison policies", 20ull * 65536, [](u64 i, Ctx& c) { grid(i, c, 4, 4); });
MC_SPACE("pairs6x4", "all ordered pairs of segments with end points on a 6x4 grid, 10 frames, 2 comparison policies", 0, 20ull * 331776, [](u64 i, Ctx& c) { grid(i, c, 6, 4); });
MC_SPACE("pairs-near", "all ordered pairs of segments on a 4x4 grid of near coincidences (columns and rows in pairs one step apart, 256 steps between pairs; exact frames)", 20ull * 65536, [](u64 i, Ctx& x) { Near m(256); grid(i, x, 4, 4); });
MC_SPACE("pairs-near6", "all ordered pairs of segments on a 6x4 grid of near coincidences, exact frames", 0, 20ull * 331776, [](u64 i, Ctx& x) { Near m(256); grid(i, x, 6, 4); });
