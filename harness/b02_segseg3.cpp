// B02: spatial segment/segment intersection against exact arithmetic, all pairs of 3-d grid segments.
#include "geo.hpp"
#include <boost/lambda/lambda.hpp>
#include <boost/algorithm/minmax.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
using namespace gx;

struct X3 { Q x, y, z; };
static X3 at(I3 a, I3 b, Q t) { return {Q(a.x) + t * Q(b.x - a.x), Q(a.y) + t * Q(b.y - a.y), Q(a.z) + t * Q(b.z - a.z)}; }
static int model(I3 a, I3 b, I3 c, I3 d, X3& p, X3& q) {
    I3 u = b - a, v = d - c, w = c - a, n = cross(u, v);
    i64 nn = dot(n, n);
    if (nn != 0) {
        if (dot(n, w) != 0) return 0;
        Q s(dot(cross(w, v), n), nn), t(dot(cross(w, u), n), nn);
        if (s < Q(0) || s > Q(1) || t < Q(0) || t > Q(1)) return 0;
        p = at(a, b, s);
        return (s > Q(0) && s < Q(1) && t > Q(0) && t < Q(1)) ? 1 : 2;
    }
    I3 m = cross(u, w);
    if (dot(m, m) != 0) return 0;
    I3 l1 = std::min(a, b), h1 = std::max(a, b), l2 = std::min(c, d), h2 = std::max(c, d);
    I3 lo = std::max(l1, l2), hi = std::min(h1, h2);
    if (hi < lo) return 0;
    p = {lo.x, lo.y, lo.z}; q = {hi.x, hi.y, hi.z};
    return lo == hi ? 2 : 3;
}
template <class Cmp> static void one(I3 a, I3 b, I3 c, I3 d, const Frame3& f, const Cmp& cmp, Ctx& x) {
    P3 A = f(a), B = f(b), C = f(c), D = f(d);
    X3 p, q;
    int m = model(a, b, c, d, p, q);
    bool par = dot(cross(b - a, d - c), cross(b - a, d - c)) == 0;
    P3 xp[2] = {P3(1e300, 1e300, 1e300), P3(1e300, 1e300, 1e300)};
    int r = segment_segment_intersection(A, B, C, D, xp, cmp);
    x.note("-> %d (%g,%g,%g) (%g,%g,%g), model %d", r, X(xp[0]), Y(xp[0]), Z(xp[0]), X(xp[1]), Y(xp[1]), Z(xp[1]), m);
    P3 ep = m ? f(p.x.dbl(), p.y.dbl(), p.z.dbl()) : P3(0, 0, 0), eq = m == 3 ? f(q.x.dbl(), q.y.dbl(), q.z.dbl()) : ep;
    if (m == 0) x.check(r == e_non_crossing, "disjoint segments reported as %d", r);
    else if (m == 1) {
        x.check(r == e_crossing, "crossing segments reported as %d", r);
        x.check(same(xp[0], ep), "crossing point (%.17g,%.17g,%.17g)", X(xp[0]), Y(xp[0]), Z(xp[0]));
    } else if (m == 2) {
        x.check(r == e_endpoint || (par && r == e_overlapping), "segments touching at an end point reported as %d", r);
        x.check(same(xp[0], ep), "touching point (%.17g,%.17g,%.17g)", X(xp[0]), Y(xp[0]), Z(xp[0]));
    } else {
        x.check(r == e_overlapping, "overlapping segments reported as %d", r);
        x.check((same(xp[0], ep) && same(xp[1], eq)) || (same(xp[1], ep) && same(xp[0], eq)), "overlap ends wrong (%.17g,%.17g,%.17g) (%.17g,%.17g,%.17g)", X(xp[0]), Y(xp[0]), Z(xp[0]), X(xp[1]), Y(xp[1]), Z(xp[1]));
    }
    static const char* L[] = {"disjoint", "crossing", "touch", "overlap"};
    x.outcome(L[m]);
}
static void grid(u64 i, Ctx& x, int W) {
    Dec d(i);
    int fi = d(NFR3), n = W * W * W;
    I3 a = gp3(d(n), W), b = gp3(d(n), W), c = gp3(d(n), W), e = gp3(d(n), W);
    if (a == b || c == e) return x.skip();
    x.in("%s " PF3 PF3 " " PF3 PF3, FR3[fi].name, PA3(a), PA3(b), PA3(c), PA3(e));
    x.state(mc::H(i));
    one(a, b, c, e, FR3[fi], AbsCmp(1e-10), x);
}
MC_SPACE("pairs3x3x3", "all ordered pairs of segments with end points on a 3x3x3 grid, 4 frames", 4ull * 531441, [](u64 i, Ctx& c) { grid(i, c, 3); });
MC_SPACE("pairs4x4x4", "all ordered pairs of segments with end points on a 4x4x4 grid, 4 frames", 0, 4ull * 16777216, [](u64 i, Ctx& c) { grid(i, c, 4); });
