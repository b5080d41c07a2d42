// A01: orientation, collinearity, betweenness of points and directions, oriented crossings.
#include "geo.hpp"
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/utility/utilities.hpp>
using namespace gx;

template <class Cmp> static void triple(I2 a, I2 b, I2 c, const Frame& f, const Cmp& cmp, Ctx& x) {
    P2 A = f(a), B = f(b), C = f(c);
    int o = sgn(orient(a, b, c)) * f.orient;
    x.check(get_orientation(A, B, C, cmp) == o, "orientation %d, exact %d", int(get_orientation(A, B, C, cmp)), o);
    x.check(opposite_orientation(get_orientation(A, B, C, cmp)) == -o, "opposite orientation");
    V2 u = f.vec(b - a), v = f.vec(c - a);
    x.check(get_orientation(u, v, cmp) == o, "orientation of vectors %d, exact %d", int(get_orientation(u, v, cmp)), o);
    bool col = o == 0;
    x.check(is_collinear(A, B, C, cmp) == col, "is_collinear");
    if (a != b) {
        bool on = on_seg(a, b, c), in = on && c != a && c != b;
        x.check(is_between(A, B, C, true, cmp) == on, "is_between with bounds, exact %d", on);
        x.check(is_between(A, B, C, false, cmp) == in, "is_between without bounds, exact %d", in);
        if (col) {
            x.check(is_collinear_point_between(A, B, C, true, cmp) == on, "is_collinear_point_between with bounds, exact %d", on);
            x.check(is_collinear_point_between(A, B, C, false, cmp) == in, "is_collinear_point_between without bounds, exact %d", in);
        }
    }
    if (f.exact) {
        double h = std::fabs(X(A) - X(B)), w = std::fabs(Y(A) - Y(B));
        x.check(is_vertical(A, B, cmp) == (h == 0), "is_vertical");
        x.check(is_horizontal(A, B, cmp) == (w == 0), "is_horizontal");
        if (a != b) {
            x.check(is_vertical(S2(A, B), cmp) == (h == 0), "is_vertical(segment)");
            x.check(is_horizontal(S2(A, B), cmp) == (w == 0), "is_horizontal(segment)");
        }
        if (h != 0) {
            double m = (Y(B) - Y(A)) / (X(B) - X(A));
            x.check(mc::close(get_slope(A, B), m), "get_slope");
            x.check(mc::close(get_slope(S2(A, B)), m), "get_slope(segment)");
            double s = 0;
            x.check(mc::close(y_of_x(A, B, X(C)), Y(A) + m * (X(C) - X(A)), 1e-11) && mc::close(y_of_x(A, B, X(C), s), Y(A) + m * (X(C) - X(A)), 1e-11) && mc::close(s, m), "y_of_x");
            if (w != 0) x.check(mc::close(x_of_y(A, B, Y(C)), X(A) + (Y(C) - Y(A)) / m, 1e-11) && mc::close(x_of_y(A, B, Y(C), s), X(A) + (Y(C) - Y(A)) / m, 1e-11), "x_of_y");
        }
    }
    x.outcome(o < 0 ? "right" : o > 0 ? "left" : "collinear");
    x.state(mc::H(a.x, a.y, b.x, b.y, c.x, c.y, f.name[0], f.name[1]));
}
static void triples(u64 i, Ctx& x, int W, int H) {
    Dec d(i); int fi = d(NAF), ci = d(2), n = W * H;
    I2 a = gp(d(n), W), b = gp(d(n), W), c = gp(d(n), W);
    if ((ci || NM) && !FR[fi].exact) return x.skip();   // a relative comparison of two roundings of zero is meaningless
    x.in("%s %s " PF PF PF, FR[fi].name, ci ? "fraction" : "absolute", PA(a), PA(b), PA(c));
    if (ci) triple(a, b, c, FR[fi], FracCmp(1e-10), x); else triple(a, b, c, FR[fi], AbsCmp(1e-10), x);
}
MC_SPACE("triples7x5", "all ordered triples of points of a 7x5 grid, 10 frames, 2 comparison policies", 20ull * 42875, [](u64 i, Ctx& x) { triples(i, x, 7, 5); });
MC_SPACE("triples9x9", "all ordered triples of points of a 9x9 grid, 10 frames, 2 comparison policies", 0, 20ull * 531441, [](u64 i, Ctx& x) { triples(i, x, 9, 9); });

// counter-clockwise position of c from a: 0 = along a, 1 = (0,180), 2 = opposite, 3 = (180,360)
static int quad(I2 a, I2 c) { i64 k = cross(a, c); return k > 0 ? 1 : k < 0 ? 3 : dot(a, c) > 0 ? 0 : 2; }
// is direction c strictly before b when turning counter-clockwise from a (both not along a)
static bool ccw_less(I2 a, I2 c, I2 b) { int q = quad(a, c), r = quad(a, b); return q != r ? q < r : q == 2 ? false : cross(c, b) > 0; }
static void between(u64 i, Ctx& x, int R) {
    Dec d(i); int fi = d(NAF), D = 2 * R + 1, n = D * D;
    auto s = [](int v) { return v < 0 ? -near_(-v) : near_(v); }; auto g = [&](int k) { return I2{s(k % D - R), s(k / D - R)}; };
    I2 a = g(d(n)), b = g(d(n)), c = g(d(n)), z{0, 0};
    const Frame& f = FR[fi]; if (a == z || b == z || c == z || (NM && !f.exact)) return x.skip();
    x.in("%s " PF PF PF, f.name, PA(a), PA(b), PA(c));
    V2 va = f.vec(a), vb = f.vec(b), vc = f.vec(c);
    // in a mirrored frame the counter-clockwise sweep from a to b is the model's sweep from b to a
    I2 ma = f.orient < 0 ? b : a, mb = f.orient < 0 ? a : b;
    bool edge = quad(ma, c) == 0 || quad(mb, c) == 0;
    bool in = !edge && quad(ma, mb) != 0 && ccw_less(ma, c, mb);
    AbsCmp cmp(1e-10);
    x.check(is_vector_between(va, vb, vc, true, cmp) == (in || edge), "is_vector_between with bounds, exact %d", in || edge);
    x.check(is_vector_between(va, vb, vc, false, cmp) == in, "is_vector_between without bounds, exact %d", in);
    x.outcome(edge ? "edge" : in ? "in" : "out");
    x.state(mc::H(a.x, a.y, b.x, b.y, c.x, c.y, fi));
}
MC_SPACE("sweeps3", "all triples of non-zero directions in [-3,3]^2, 10 frames", 10ull * 117649, [](u64 i, Ctx& x) { between(i, x, 3); });
MC_SPACE("sweeps5", "all triples of non-zero directions in [-5,5]^2, 10 frames", 0, 10ull * 1771561, [](u64 i, Ctx& x) { between(i, x, 5); });

static void crossing(u64 i, Ctx& x, int W, int H) {
    Dec d(i); int fi = d(NAF), n = W * H;
    I2 a = gp(d(n), W), b = gp(d(n), W), c = gp(d(n), W), e = gp(d(n), W);
    if (a == b || c == e || (NM && !FR[fi].exact)) return x.skip();
    const Frame& f = FR[fi]; AbsCmp cmp(1e-10);
    x.in("%s " PF PF PF PF, f.name, PA(a), PA(b), PA(c), PA(e));
    int r = oriented_intersection(f(a), f(b), f(c), f(e), cmp);
    i64 oa = orient(c, e, a), ob = orient(c, e, b), oc = orient(a, b, c), oe = orient(a, b, e);
    bool meet = segs_meet(a, b, c, e);
    if (!meet) x.check(r == e_non_crossing, "segments apart reported as %d", r);
    else if (oa && ob && oc && oe) {
        bool lr = (oa > 0) == (f.orient > 0);
        x.check(r == (lr ? e_intersect_left_right : e_intersect_right_left), "a crossing from %s reported as %d", lr ? "left to right" : "right to left", r);
    } else if (oa || ob) x.check(r != e_non_crossing && r != e_overlapping, "segments that touch reported as %d", r);
    else {
        I2 lo = std::max(std::min(a, b), std::min(c, e)), hi = std::min(std::max(a, b), std::max(c, e));
        x.check(r == (lo == hi ? e_endpoint : e_overlapping), "collinear segments that %s reported as %d", lo == hi ? "touch" : "overlap", r);
    }
    x.outcome(r);
    x.state(mc::H(a.x, a.y, b.x, b.y, c.x, c.y, e.x, e.y, fi));
}
MC_SPACE("crossings4x4", "all ordered pairs of segments on a 4x4 grid, 10 frames", 10ull * 65536, [](u64 i, Ctx& x) { crossing(i, x, 4, 4); });
MC_SPACE("crossings6x4", "all ordered pairs of segments on a 6x4 grid, 10 frames", 0, 10ull * 331776, [](u64 i, Ctx& x) { crossing(i, x, 6, 4); });
MC_SPACE("triples-near", "all ordered triples of points of a 6x5 grid of near coincidences (columns and rows in pairs one step apart, 256 steps between pairs; exact frames)", 20ull * 27000, [](u64 i, Ctx& x) { Near m(256); triples(i, x, 6, 5); });
MC_SPACE("sweeps-near", "all triples of non-zero directions with components 0, 1, 256, 257 and their negatives, exact frames", 10ull * 117649, [](u64 i, Ctx& x) { Near m(256); between(i, x, 3); });
MC_SPACE("crossings-near", "all ordered pairs of segments on a 4x4 grid of near coincidences, exact frames", 10ull * 65536, [](u64 i, Ctx& x) { Near m(256); crossing(i, x, 4, 4); });
MC_SPACE("crossings-near6", "all ordered pairs of segments on a 6x4 grid of near coincidences, exact frames", 0, 10ull * 331776, [](u64 i, Ctx& x) { Near m(256); crossing(i, x, 6, 4); });
