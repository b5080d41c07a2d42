// B03: lines, rays and wedges against segments and lines: exact rational oracle.
#include "geo.hpp"
#include <geometrix/algorithm/line_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_line_intersection.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/utility/utilities.hpp>
using namespace gx;

static double len(I2 v) { return std::sqrt(double(dot(v, v))); }
static V2 unit(V2 v) { double l = std::hypot(v[0], v[1]); return V2(v[0] / l, v[1] / l); }

template <class Cmp> static void lines(I2 a, I2 b, I2 c, I2 d, const Frame& f, const Cmp& cmp, Ctx& x) {
    P2 A = f(a), B = f(b), C = f(c), D = f(d);
    i64 den = cross(b - a, d - c);
    P2 p(1e300, 1e300), q(1e300, 1e300), r1(1e300, 1e300), r2(1e300, 1e300); double s = 7e77, t = 7e77;
    int l1 = line_line_intersect(A, B, C, D, p, s, t, cmp);
    int l2 = line_line_intersect(A, B, C, D, q, cmp);
    int g1 = line_segment_intersect(A, B, C, D, r1, cmp);
    int g2 = line_segment_intersect(A, B, S2(C, D), r2, cmp);
    x.note("line/line %d %d  line/segment %d %d", l1, l2, g1, g2);
    if (den == 0) {
        int e = orient(a, b, c) == 0 ? e_overlapping : e_non_crossing;
        x.check(l1 == e && l2 == e, "parallel lines reported %d %d", l1, l2);
        x.check(g1 == e && g2 == e, "parallel line and segment reported %d %d", g1, g2);
        x.outcome(e ? "same line" : "parallel");
        return;
    }
    Q S(cross(c - a, d - c), den), T(cross(c - a, b - a), den);
    Q2 e = Q2(a) + S * Q2(b - a);
    P2 E = f(e);
    x.check(l1 == e_crossing && l2 == e_crossing, "crossing lines reported %d %d", l1, l2);
    x.check(same(p, E) && same(q, E), "line/line point (%.17g,%.17g) (%.17g,%.17g)", X(p), Y(p), X(q), Y(q));
    x.check(mc::close(s, S.dbl()) && mc::close(t, T.dbl()), "line parameters %.17g %.17g", s, t);
    int w = T < Q(0) || T > Q(1) ? e_non_crossing : T == Q(0) || T == Q(1) ? e_endpoint : e_crossing;
    x.check(g1 == w && g2 == w, "line/segment reported %d %d, not %d", g1, g2, w);
    if (w != e_non_crossing) x.check(same(r1, E) && same(r2, E), "line/segment point (%.17g,%.17g)", X(r1), Y(r1));
    x.outcome(w == e_non_crossing ? "misses" : w == e_endpoint ? "end point" : "crosses");
}
template <class Cmp> static void ray_seg(I2 o, I2 u, I2 a, I2 b, const Frame& f, const Cmp& cmp, Ctx& x) {
    P2 O = f(o), A = f(a), B = f(b);
    V2 U = unit(f.vec(u));
    double L = len(u) * f.scale;
    i64 den = cross(u, b - a);
    P2 xp[2] = {P2(1e300, 1e300), P2(1e300, 1e300)}, xq[2] = {P2(1e300, 1e300), P2(1e300, 1e300)};
    double t = 7e77, t2 = 7e77, t3 = 7e77;
    int r1 = ray_segment_intersection(O, U, A, B, t, xp, cmp);
    int r2 = ray_segment_intersection(O, U, S2(A, B), t2, xq, cmp);
    int r3 = ray_segment_intersection(O, U, A, B, t3, (P2*)nullptr, cmp);
    int r4 = ray_segment_intersection(O, U, A, B, cmp);
    int r5 = ray_segment_intersection(O, U, S2(A, B), cmp);
    x.note("ray/segment %d %d %d %d %d t=%.17g", r1, r2, r3, r4, r5, t);
    x.check(r2 == r1 && r3 == r1, "forms of the query disagree: %d %d %d", r1, r2, r3);
    if (den == 0) {
        if (cross(u, a - o) != 0) {
            x.check(r1 == e_non_crossing, "parallel ray reported %d", r1);
            x.check(r4 == e_non_crossing && r5 == e_non_crossing, "parallel ray reported %d by the query without point", r4);
            x.outcome("parallel"); return;
        }
        Q l2(dot(u, u)), ta = Q(dot(a - o, u)) / l2, tb = Q(dot(b - o, u)) / l2;
        Q lo = qmin(ta, tb), hi = qmax(ta, tb);
        if (hi < Q(0)) { x.check(r1 == e_non_crossing && r4 == e_non_crossing && r5 == e_non_crossing, "segment behind the ray reported %d %d", r1, r4); x.outcome("behind"); return; }
        lo = qmax(lo, Q(0));
        bool touch = lo == hi;
        x.check(r1 == e_overlapping || (touch && r1 == e_endpoint), "collinear reported %d", r1);
        x.check((r4 == e_overlapping || (touch && r4 == e_endpoint)) && r5 == r4, "collinear reported %d by the query without point", r4);
        x.check(mc::close(t, lo.dbl() * L, NM ? 1e-6 : 1e-9) && mc::close(t2, lo.dbl() * L, NM ? 1e-6 : 1e-9) && mc::close(t3, lo.dbl() * L, NM ? 1e-6 : 1e-9), "distance %.17g", t);
        P2 e0 = f(Q2(o) + lo * Q2(u)), e1 = f(Q2(o) + hi * Q2(u));
        x.check(same(xp[0], e0) && (r1 == e_endpoint || same(xp[1], e1)), "overlap (%.17g,%.17g) (%.17g,%.17g)", X(xp[0]), Y(xp[0]), X(xp[1]), Y(xp[1]));
        x.check(same(xq[0], e0) && (r1 == e_endpoint || same(xq[1], e1)), "overlap ends of the segment form");
        x.outcome("collinear"); return;
    }
    Q S(cross(a - o, b - a), den), T(cross(a - o, u), den);
    int w = S < Q(0) || T < Q(0) || T > Q(1) ? e_non_crossing : T == Q(0) || T == Q(1) ? e_endpoint : e_crossing;
    x.check(r1 == w, "reported %d, not %d", r1, w);
    x.check(r4 == w && r5 == w, "query without point reported %d, not %d", r4, w);
    if (w != e_non_crossing) {
        x.check(mc::close(t, S.dbl() * L, NM ? 1e-6 : 1e-9) && mc::close(t2, S.dbl() * L, NM ? 1e-6 : 1e-9) && mc::close(t3, S.dbl() * L, NM ? 1e-6 : 1e-9), "distance %.17g, not %.17g", t, S.dbl() * L);
        x.check(same(xp[0], f(Q2(o) + S * Q2(u))) && same(xq[0], xp[0]), "point (%.17g,%.17g)", X(xp[0]), Y(xp[0]));
    }
    x.outcome(w == e_non_crossing ? "ray misses" : w == e_endpoint ? "ray end point" : "ray crosses");
}
template <class Cmp> static void ray_line(I2 o, I2 u, I2 a, I2 b, const Frame& f, const Cmp& cmp, Ctx& x) {
    P2 O = f(o), A = f(a), B = f(b);
    V2 U = unit(f.vec(u));
    double L = len(u) * f.scale;
    line<P2> l(A, B);
    i64 den = cross(u, b - a);
    P2 p(1e300, 1e300); double t = 7e77;
    auto r = ray_line_intersection(O, U, l, t, p, cmp);
    x.note("ray/line %d %d", r.is_intersecting(), r.is_overlapping());
    if (den == 0) {
        bool on = cross(u, a - o) == 0;
        x.check(r.is_intersecting() == on && r.is_overlapping() == on, "parallel ray: intersecting %d overlapping %d", r.is_intersecting(), r.is_overlapping());
        x.outcome(on ? "ray on line" : "ray parallel to line"); return;
    }
    Q S(cross(a - o, b - a), den);
    bool hit = S >= Q(0);
    x.check(r.is_intersecting() == hit, "ray and line: intersecting %d", r.is_intersecting());
    x.check(!r.is_overlapping(), "crossing ray and line reported as overlapping");
    if (hit) {
        x.check(mc::close(t, S.dbl() * L, NM ? 1e-6 : 1e-9), "distance %.17g, not %.17g", t, S.dbl() * L);
        x.check(same(p, f(Q2(o) + S * Q2(u))), "point (%.17g,%.17g)", X(p), Y(p));
    }
    x.outcome(hit ? "ray hits line" : "ray leaves line");
}
static void all(u64 i, Ctx& x, int W, int H, int which) {
    Dec d(i);
    int fi = d(NFR), ci = d(2), n = W * H;
    I2 a = gp(d(n), W), b = gp(d(n), W), c = gp(d(n), W), e = gp(d(n), W);
    if (a == b || c == e || (NM && !FR[fi].exact)) return x.skip();
    x.in("%s %s " PF PF " " PF PF, FR[fi].name, ci ? "fraction" : "absolute", PA(a), PA(b), PA(c), PA(e));
    x.state(mc::H(i, which));
    auto go = [&](auto cmp) {
        if (which == 0) lines(a, b, c, e, FR[fi], cmp, x);
        else if (which == 1) ray_seg(a, b - a, c, e, FR[fi], cmp, x);
        else ray_line(a, b - a, c, e, FR[fi], cmp, x);
    };
    if (ci) go(FracCmp(1e-10)); else go(AbsCmp(1e-10));
}
#define B "4x4 grid (thorough 6x4), 8 frames, 2 comparison policies: all ordered pairs of directed grid segments as "
MC_SPACE("lines4x4", B "line/line and line/segment", 16ull * 65536, [](u64 i, Ctx& c) { all(i, c, 4, 4, 0); });
MC_SPACE("lines6x4", B "line/line and line/segment", 0, 16ull * 331776, [](u64 i, Ctx& c) { all(i, c, 6, 4, 0); });
MC_SPACE("ray_segment4x4", B "ray/segment", 16ull * 65536, [](u64 i, Ctx& c) { all(i, c, 4, 4, 1); });
MC_SPACE("ray_segment6x4", B "ray/segment", 0, 16ull * 331776, [](u64 i, Ctx& c) { all(i, c, 6, 4, 1); });
MC_SPACE("ray_line4x4", B "ray/line", 16ull * 65536, [](u64 i, Ctx& c) { all(i, c, 4, 4, 2); });
MC_SPACE("lines-near", "all ordered pairs of segments of a 4x4 grid of near coincidences (columns and rows in pairs one step apart, 256 steps between pairs; exact frames) as lines", 16ull * 65536, [](u64 i, Ctx& x) { Near m(256); all(i, x, 4, 4, 0); });
MC_SPACE("ray_segment-near", "all ordered pairs of segments of a 4x4 grid of near coincidences (columns and rows in pairs one step apart, 256 steps between pairs; exact frames) as ray/segment", 16ull * 65536, [](u64 i, Ctx& x) { Near m(256); all(i, x, 4, 4, 1); });
MC_SPACE("ray_line-near", "all ordered pairs of segments of a 4x4 grid of near coincidences (columns and rows in pairs one step apart, 256 steps between pairs; exact frames) as ray/line", 16ull * 65536, [](u64 i, Ctx& x) { Near m(256); all(i, x, 4, 4, 2); });
