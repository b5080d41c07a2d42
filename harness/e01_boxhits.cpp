// E01: axis-aligned boxes against segments, polygons, polylines, triangles and rays; line clipping.
#include "geo.hpp"
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/intersection/aabb_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/polygon_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/polyline_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_aabb_intersection.hpp>
#include <geometrix/algorithm/eberly_triangle_aabb_intersection.hpp>
#include <geometrix/algorithm/cohen_sutherland_line_clipping.hpp>
using namespace gx;
using B2 = axis_aligned_bounding_box<P2>;
using B3 = axis_aligned_bounding_box<P3>;

struct Ax { const char* name; double s, t; bool exact; };
static const Ax AX[] = {{"id", 1, 0, true}, {"shift", 1, -2, true}, {"neg", .25, -10, true}, {"small", 1. / 4096, 2, true}, {"big", 512, 100000, true}, {"tenth", .1, -.05, false}, {"third", 1. / 3, 7.7, false}};
static const int NAX = 7;

// part of p + t (q - p), t in [t0, t1] (t1 = none: unbounded) within the closed box: [a, b]
template <int D> static bool clip(const i64* p, const i64* q, const i64* lo, const i64* hi, bool ray, Q& a, Q& b, bool* inf = nullptr) {
    a = Q(0); bool bounded = !ray; b = Q(1);
    for (int j = 0; j < D; ++j) {
        i64 v = q[j] - p[j];
        if (!v) { if (p[j] < lo[j] || p[j] > hi[j]) return false; continue; }
        Q s(lo[j] - p[j], v), e(hi[j] - p[j], v); if (e < s) std::swap(s, e);
        if (a < s) a = s;
        if (!bounded || e < b) { b = e; bounded = true; }
        if (b < a) return false;
    }
    if (inf) *inf = !bounded;
    return !(b < a);
}
// does it also meet the interior (so that the answer does not hang on rounding)?
template <int D> static bool clip_open(const i64* p, const i64* q, const i64* lo, const i64* hi, bool ray) {
    i64 P[D], R[D], l[D], h[D]; // coordinates times 16, box shrunk by 1/16
    for (int j = 0; j < D; ++j) { P[j] = 16 * p[j]; R[j] = 16 * q[j]; l[j] = 16 * lo[j] + 1; h[j] = 16 * hi[j] - 1; if (l[j] > h[j]) return false; }
    Q a, b; return clip<D>(P, R, l, h, ray, a, b);
}

static void seg2(u64 i, Ctx& x, int N) {
    Dec d(i); const Ax& f = AX[d(NAX)]; i64 lo[2], hi[2], p[2], q[2];
    for (auto* v : {lo, hi, p, q}) for (int j = 0; j < 2; ++j) v[j] = near_(d(N));
    if (NM && !f.exact) return x.skip(); for (int j = 0; j < 2; ++j) if (lo[j] > hi[j]) return x.skip();
    bool nd = p[0] != q[0] || p[1] != q[1];
    auto F = [&](double a, double b) { return P2(f.s * a + f.t, f.s * b + f.t); };
    x.in("box [%lld,%lld]x[%lld,%lld] from (%lld,%lld) to (%lld,%lld) %s", (long long)lo[0], (long long)hi[0], (long long)lo[1], (long long)hi[1], (long long)p[0], (long long)p[1], (long long)q[0], (long long)q[1], f.name);
    B2 b(F(lo[0], lo[1]), F(hi[0], hi[1])); P2 A = F(p[0], p[1]), C = F(q[0], q[1]);
    Q s, e; bool meet = clip<2>(p, q, lo, hi, false, s, e); bool sure = f.exact || !meet || clip_open<2>(p, q, lo, hi, false);
    if (sure) x.check(segment_aabb_intersection(A, C, b) == meet, "segment_aabb_intersection, exact %d", meet);
    // clipping
    AbsCmp cmp(1e-9); direct_comparison_policy dir;
    auto at = [&](Q t) { double u = t.dbl(); return F(p[0] + u * (q[0] - p[0]), p[1] + u * (q[1] - p[1])); };
    auto cs = [&](bool got, double x0, double y0, double x1, double y1, const char* w) {
        x.check(got == meet, "cohen_sutherland_line_clip(%s) %d, exact %d", w, got, meet);
        if (got && meet) x.check(same(P2(x0, y0), at(s), 1e-8) && same(P2(x1, y1), at(e), 1e-8), "cohen_sutherland_line_clip(%s) gives (%.17g,%.17g)-(%.17g,%.17g)", w, x0, y0, x1, y1);
    };
    { double x0 = X(A), y0 = Y(A), x1 = X(C), y1 = Y(C); bool g = cohen_sutherland_line_clip(x0, y0, x1, y1, f.s * lo[0] + f.t, f.s * hi[0] + f.t, f.s * lo[1] + f.t, f.s * hi[1] + f.t, cmp); cs(g, x0, y0, x1, y1, "tolerance"); }
    { double x0 = X(A), y0 = Y(A), x1 = X(C), y1 = Y(C); bool g = cohen_sutherland_line_clip(x0, y0, x1, y1, f.s * lo[0] + f.t, f.s * hi[0] + f.t, f.s * lo[1] + f.t, f.s * hi[1] + f.t, dir); if (sure && (meet == clip_open<2>(p, q, lo, hi, false) || (p[0] == q[0] || p[1] == q[1]))) cs(g, x0, y0, x1, y1, "direct"); }
    x.outcome(meet ? s == e ? "touch" : "cross" : "miss");
    if (nd) {
        bool inf, rm = clip<2>(p, q, lo, hi, true, s, e, &inf); bool rs = f.exact || !rm || clip_open<2>(p, q, lo, hi, true);
        if (rs && (f.exact || rm == clip_open<2>(p, q, lo, hi, true))) {
            double t0 = -7, t1 = -7, te = -7; P2 q0(-9, -9), q1(-9, -9), r(-9, -9); V2 v = C - A;
            auto R = ray_aabb_intersection(A, v, b, t0, r, cmp); auto R2 = ray_aabb_intersection(A, v, b, t1, q0, te, q1, cmp);
            bool in = p[0] >= lo[0] && p[0] <= hi[0] && p[1] >= lo[1] && p[1] <= hi[1];
            x.check(R.is_intersecting() == rm && R2.is_intersecting() == rm && bool(R) == rm && (R == rm), "ray_aabb_intersection %d %d, exact %d", R.is_intersecting(), R2.is_intersecting(), rm);
            if (rm && R && R2) {
                x.check(R.is_origin_inside() == in && R2.is_origin_inside() == in, "is_origin_inside %d %d, exact %d", R.is_origin_inside(), R2.is_origin_inside(), in);
                x.check(mc::close(t0, s.dbl(), 1e-8) && mc::close(t1, s.dbl(), 1e-8), "entrance %.17g %.17g, exact %.17g", t0, t1, s.dbl());
                x.check(mc::close(te, e.dbl(), 1e-8), "exit %.17g, exact %.17g", te, e.dbl());
                x.check(same(r, in ? at(e) : at(s), 1e-8), "point (%.17g,%.17g)", X(r), Y(r));
                x.check(same(q0, at(s), 1e-8) && same(q1, at(e), 1e-8), "points (%.17g,%.17g) (%.17g,%.17g)", X(q0), Y(q0), X(q1), Y(q1));
            }
        }
        x.outcome(rm ? "ray hit" : "ray miss");
    }
    x.state(mc::H(i / NAX));
}
MC_SPACE("segments4", "all boxes and all segments and rays (degenerate ones included) with coordinates 0..3, 7 maps", 7ull * 65536, [](u64 i, Ctx& x) { seg2(i, x, 4); });
MC_SPACE("segments5", "all boxes and all segments and rays with coordinates 0..4, 7 maps", 7ull * 390625, [](u64 i, Ctx& x) { seg2(i, x, 5); });
MC_SPACE("segments7", "all boxes and all segments and rays with coordinates 0..6, 7 maps", 0, 7ull * 5764801, [](u64 i, Ctx& x) { seg2(i, x, 7); });

// generic directions: the box fixed, the segment on a larger grid (steep and flat slopes)
static void segwide(u64 i, Ctx& x) {
    static const i64 BX[][4] = {{4, 6, 5, 6}, {3, 8, 5, 7}, {5, 5, 3, 8}, {4, 4, 7, 7}};
    Dec d(i); const i64* bx = BX[d(4)]; i64 v[4]; for (auto& w : v) w = d(12);
    i64 lo[2] = {bx[0], bx[2]}, hi[2] = {bx[1], bx[3]}, *p = v, *q = v + 2;
    for (int fi : {0, 5}) {
        const Ax& f = AX[fi]; auto F = [&](double a, double b) { return P2(f.s * a + f.t, f.s * b + f.t); };
        B2 b(F(lo[0], lo[1]), F(hi[0], hi[1])); P2 A = F(p[0], p[1]), C = F(q[0], q[1]); AbsCmp cmp(1e-9);
        x.in("box [%lld,%lld]x[%lld,%lld] from (%lld,%lld) to (%lld,%lld) %s", (long long)lo[0], (long long)hi[0], (long long)lo[1], (long long)hi[1], (long long)p[0], (long long)p[1], (long long)q[0], (long long)q[1], f.name);
        Q s, e; bool meet = clip<2>(p, q, lo, hi, false, s, e), sure = f.exact || !meet || clip_open<2>(p, q, lo, hi, false);
        if (sure) x.check(segment_aabb_intersection(A, C, b) == meet, "segment_aabb_intersection, exact %d", meet);
        double x0 = X(A), y0 = Y(A), x1 = X(C), y1 = Y(C); bool g = cohen_sutherland_line_clip(x0, y0, x1, y1, f.s * lo[0] + f.t, f.s * hi[0] + f.t, f.s * lo[1] + f.t, f.s * hi[1] + f.t, cmp);
        auto at = [&](Q t) { double u = t.dbl(); return F(p[0] + u * (q[0] - p[0]), p[1] + u * (q[1] - p[1])); };
        x.check(g == meet, "clip %d, exact %d", g, meet);
        if (g && meet) x.check(same(P2(x0, y0), at(s), 1e-8) && same(P2(x1, y1), at(e), 1e-8), "clip gives (%.17g,%.17g)-(%.17g,%.17g)", x0, y0, x1, y1);
        x.outcome(meet ? s == e ? "touch" : "cross" : "miss");
        if (x.failed) return;
    }
    x.state(mc::H(i));
}
MC_SPACE("wide", "4 boxes (one a segment, one a point) against all segments of a 12x12 grid, 2 maps", 4ull * 20736, segwide);

static void seg3(u64 i, Ctx& x, int N) {
    Dec d(i); const Ax& f = AX[d(4)]; i64 lo[3], hi[3], p[3], q[3];
    for (auto* v : {lo, hi, p, q}) for (int j = 0; j < 3; ++j) v[j] = near_(d(N));
    for (int j = 0; j < 3; ++j) if (lo[j] > hi[j]) return x.skip();
    auto F = [&](i64* v) { return P3(f.s * v[0] + f.t, f.s * v[1] + f.t, f.s * v[2] + f.t); };
    x.in("box %lld%lld%lld-%lld%lld%lld segment %lld%lld%lld-%lld%lld%lld %s", (long long)lo[0], (long long)lo[1], (long long)lo[2], (long long)hi[0], (long long)hi[1], (long long)hi[2], (long long)p[0], (long long)p[1], (long long)p[2], (long long)q[0], (long long)q[1], (long long)q[2], f.name);
    Q s, e; bool meet = clip<3>(p, q, lo, hi, false, s, e);
    x.check(segment_aabb_intersection(F(p), F(q), B3(F(lo), F(hi))) == meet, "segment_aabb_intersection 3D, exact %d", meet);
    x.outcome(meet); x.state(mc::H(i / 4));
}
MC_SPACE("segments3d", "all boxes and segments in space with coordinates 0..2, 4 maps", 4ull * 531441, [](u64 i, Ctx& x) { seg3(i, x, 3); });
static void seg3f(u64 i, Ctx& x) {
    static const i64 BX[][6] = {{2, 2, 2, 3, 3, 3}, {1, 2, 2, 3, 3, 4}, {2, 2, 1, 2, 3, 4}};
    Dec d(i); const i64* bx = BX[d(3)]; i64 v[6]; for (auto& w : v) w = d(6);
    i64 lo[3] = {bx[0], bx[1], bx[2]}, hi[3] = {bx[3], bx[4], bx[5]};
    x.in("box %lld%lld%lld-%lld%lld%lld segment %lld%lld%lld-%lld%lld%lld", (long long)lo[0], (long long)lo[1], (long long)lo[2], (long long)hi[0], (long long)hi[1], (long long)hi[2], (long long)v[0], (long long)v[1], (long long)v[2], (long long)v[3], (long long)v[4], (long long)v[5]);
    auto F = [&](const i64* w) { return P3(w[0], w[1], w[2]); };
    Q s, e; bool meet = clip<3>(v, v + 3, lo, hi, false, s, e);
    x.check(segment_aabb_intersection(F(v), F(v + 3), B3(F(lo), F(hi))) == meet, "segment_aabb_intersection 3D, exact %d", meet);
    x.outcome(meet); x.state(mc::H(i));
}
MC_SPACE("segments3dwide", "3 boxes in space against all segments of a 6x6x6 grid", 3ull * 46656, seg3f);

// polygons and polylines
static bool box_meets_seg(I2 a, I2 b, const i64* lo, const i64* hi) { i64 p[2] = {a.x, a.y}, q[2] = {b.x, b.y}; Q s, e; return clip<2>(p, q, lo, hi, false, s, e); }
static void poly1(Ctx& x, const std::vector<I2>& r, const Ax& f, const i64* lo, const i64* hi, bool ring) {
    int n = r.size();
    auto F = [&](I2 p) { return P2(f.s * p.x + f.t, f.s * p.y + f.t); };
    B2 b(F({lo[0], lo[1]}), F({hi[0], hi[1]}));
    x.in("ring %s box [%lld,%lld]x[%lld,%lld] %s", str(r).c_str(), (long long)lo[0], (long long)hi[0], (long long)lo[1], (long long)hi[1], f.name);
    std::vector<char> edge(n); bool any = false, open = false, inner = ring_side(r, I2{lo[0], lo[1]}) > 0;
    for (int k = 0; k < n; ++k) { I2 a = r[k], c = r[(k + 1) % n]; edge[k] = box_meets_seg(a, c, lo, hi); if (k < n - 1) open |= edge[k]; any |= edge[k]; }
    bool meet = any || inner;
    bool sure = f.exact || !meet; for (int k = 0; k < n; ++k) { I2 a = r[k], c = r[(k + 1) % n]; i64 p[2] = {a.x, a.y}, q[2] = {c.x, c.y}; sure |= clip_open<2>(p, q, lo, hi, false); } sure |= inner && !any;
    G2 g; L2 l; for (auto p : r) { g.push_back(F(p)); l.push_back(F(p)); }
    if (sure && ring) x.check(polygon_aabb_intersection(g, b) == meet, "polygon_aabb_intersection, exact %d", meet);
    if (f.exact) x.check(polyline_aabb_intersection(l, b) == open, "polyline_aabb_intersection, exact %d", open);
    if (n == 3) {
        AbsCmp cmp(1e-9);
        x.check(eberly_triangle_aabb_intersection_2d(g[0], g[1], g[2], b, cmp) == meet, "eberly_triangle_aabb_intersection_2d, exact %d", meet);
    }
    x.outcome(inner && !any ? "box in polygon" : meet ? "meet" : "apart");
}
static void poly(u64 i, Ctx& x, const std::vector<std::vector<I2>>& rings, int N) {
    Dec d(i); const Ax& f = AX[d(6)]; if (NM && !f.exact) return x.skip(); i64 lo[2], hi[2]; for (auto* v : {lo, hi}) for (int j = 0; j < 2; ++j) v[j] = NM ? near_(d(N)) : i64(d(N)) - 1;
    if (lo[0] > hi[0] || lo[1] > hi[1]) return x.skip();
    auto& r = rings[d.v]; poly1(x, r, f, lo, hi, true); x.state(mc::H(i / 6, r.size()));
}
static void bigpoly(u64 i, Ctx& x) {
    static const i64 SZ[][2] = {{0, 0}, {1, 1}, {3, 0}, {0, 4}, {7, 5}};
    Dec d(i); const Ax& f = AX[d(2) * 3]; bool ch; auto r = big_any(d, &ch); if (r.empty()) return x.skip(); for (auto& p : r) p = 2 * p;
    for (I2 p : around(r, !ch)) for (auto& s : SZ) { i64 lo[2] = {p.x, p.y}, hi[2] = {p.x + s[0], p.y + s[1]}; poly1(x, r, f, lo, hi, !ch); if (x.failed) return; }
    x.state(mc::H(i));
}
MC_SIZES("sizes", BIG ", against boxes of 5 sizes (a point, segments) with a corner at, next to and between all vertices, 2 maps", 2 * BIGQ / 20, 20, 40, bigpoly);
static std::vector<std::vector<I2>>& R3() { static auto r = simple_rings(3, 4, 4, false); return r; }
static std::vector<std::vector<I2>>& R4() { static auto r = simple_rings(4, 3, 3, false); return r; }
static std::vector<std::vector<I2>>& R44() { static auto r = simple_rings(4, 4, 4, false); return r; }
static std::vector<std::vector<I2>>& R5() { static auto r = simple_rings(5, 3, 3, true); return r; }
MC_SPACE("triangles", "all triangles of a 4x4 grid from every vertex in both windings against all boxes with coordinates -1..3, 6 maps", 6ull * 625 * R3().size(), [](u64 i, Ctx& x) { poly(i, x, R3(), 5); });
MC_SPACE("quads", "all simple quadrilaterals of a 3x3 grid from every vertex against all boxes with coordinates -1..3, 6 maps", 6ull * 625 * R4().size(), [](u64 i, Ctx& x) { poly(i, x, R4(), 5); });
MC_SPACE("pentagons", "all simple pentagons of a 3x3 grid against all boxes with coordinates -1..3, 6 maps", 6ull * 625 * R5().size(), [](u64 i, Ctx& x) { poly(i, x, R5(), 5); });
MC_SPACE("quads4", "all simple quadrilaterals of a 4x4 grid from every vertex against all boxes with coordinates -1..3, 6 maps", 0, 6ull * 625 * R44().size(), [](u64 i, Ctx& x) { poly(i, x, R44(), 5); });
// open chains that need not be simple (repeated directions, touching itself), and a box in a gap
static void chain(u64 i, Ctx& x, int n) {
    Dec d(i); i64 lo[2], hi[2]; for (auto* v : {lo, hi}) for (int j = 0; j < 2; ++j) v[j] = d(4);
    if (lo[0] > hi[0] || lo[1] > hi[1]) return x.skip();
    std::vector<I2> r; for (int k = 0; k < n; ++k) r.push_back(gp(d(16), 4));
    for (int k = 0; k + 1 < n; ++k) if (r[k] == r[k + 1]) return x.skip();
    x.in("chain %s box [%lld,%lld]x[%lld,%lld]", str(r).c_str(), (long long)lo[0], (long long)hi[0], (long long)lo[1], (long long)hi[1]);
    bool open = false; for (int k = 0; k < n - 1; ++k) open |= box_meets_seg(r[k], r[k + 1], lo, hi);
    L2 l; for (auto p : r) l.push_back(P2(p.x, p.y)); B2 b(P2(lo[0], lo[1]), P2(hi[0], hi[1]));
    x.check(polyline_aabb_intersection(l, b) == open, "polyline_aabb_intersection, exact %d", open);
    x.outcome(open); x.state(mc::H(i));
}
MC_SPACE("chains", "all polylines of 4 vertices of a 4x4 grid against all boxes with coordinates 0..3", 257ull * 65536, [](u64 i, Ctx& x) { chain(i, x, 4); });
MC_SPACE("chains-short", "all polylines of 0, 1, 2 and 3 vertices of a 4x4 grid against all boxes with coordinates 0..3", 257ull * (1 + 16 + 256 + 4096), [](u64 i, Ctx& x) { const u64 m = 257; if (i < m) return chain(i, x, 0); i -= m; if (i < 16 * m) return chain(i, x, 1); i -= 16 * m; if (i < 256 * m) return chain(i, x, 2); chain(i - 256 * m, x, 3); });
static const std::vector<std::vector<I2>>& RN() { static auto r = [] { Near m(256); auto a = simple_rings(3, 4, 4, true), b = simple_rings(4, 3, 3, true); a.insert(a.end(), b.begin(), b.end()); return a; }(); return r; }
MC_SPACE("segments-near", "all boxes and all segments and rays with coordinates 0, 1, 256, 257 and 512, exact maps", 7ull * 390625, [](u64 i, Ctx& x) { Near m(256); seg2(i, x, 5); });
MC_SPACE("segments3d-near", "all boxes and segments in space with coordinates 0, 1, 256, 3 maps", 4ull * 531441, [](u64 i, Ctx& x) { Near m(256); seg3(i, x, 3); });
MC_SPACE("rings-near", "all triangles of a 4x4 and quadrilaterals of a 3x3 grid of near coincidences against all boxes with coordinates 0, 1, 256, 257, exact maps", 6ull * 256 * RN().size(), [](u64 i, Ctx& x) { Near m(256); poly(i, x, RN(), 4); });
