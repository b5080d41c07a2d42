// H04: area, centroid, bounds, corners and comparison of point sequences.
#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/deque_point_sequence.hpp>
using namespace gx;
typedef std::vector<I2> R;
static bool near(double a, double b, double t) { return std::fabs(a - b) <= t; }
template <class T, class F> static void bounds2(Ctx& x, const R& r, size_t lo, size_t hi, const F& f, const T& b, const char* what) {
    double xl = 1e300, xh = -1e300, yl = 1e300, yh = -1e300; for (size_t i = lo; i <= hi; ++i) { P2 p = f(r[i]); xl = std::min(xl, X(p)); xh = std::max(xh, X(p)); yl = std::min(yl, Y(p)); yh = std::max(yh, Y(p)); }
    x.check(near(std::get<e_xmin>(b), xl, 1e-7) && near(std::get<e_xmax>(b), xh, 1e-7) && near(std::get<e_ymin>(b), yl, 1e-7) && near(std::get<e_ymax>(b), yh, 1e-7), "%s [%.17g,%.17g]x[%.17g,%.17g], true [%.17g,%.17g]x[%.17g,%.17g]", what, std::get<e_xmin>(b), std::get<e_xmax>(b), std::get<e_ymin>(b), std::get<e_ymax>(b), xl, xh, yl, yh); }
static double mag(const G2& g) { double m = 0; for (auto& p : g) m = std::max(m, std::max(std::fabs(X(p)), std::fabs(Y(p)))); return m; }
// a closed sequence, simple or not
static void ring(Ctx& x, const R& r, const Frame& f, bool corners) {
    if (r.size() > 1000) x.in("%zu points, %s", r.size(), f.name); else x.in("points %s, %s", str(r).c_str(), f.name); G2 g = mk<G2>(r, f); const G2& cg = g; size_t n = r.size(); AbsCmp cmp(1e-8); FracCmp fc(1e-10);
    i64 a2 = 0, mx = 0, my = 0; for (size_t i = 0; i < n; ++i) { I2 a = r[i], b = r[(i + 1) % n]; i64 c = cross(a, b); a2 += c; mx += c * (a.x + b.x); my += c * (a.y + b.y); }
    double M = mag(g), A = a2 / 2. * f.scale * f.scale * f.orient, tol = 1e-13 * M * M * n + 1e-15;
    if (n > 2) { x.check(near(get_signed_area(g), A, tol), "signed area %.17g, true %.17g", get_signed_area(g), A); x.check(near(get_area(g), std::fabs(A), tol), "area %.17g, true %.17g", get_area(g), A);
    { std::deque<P2> dq(g.begin(), g.end()); x.check(near(get_signed_area(dq), A, tol), "signed area of a deque %.17g", get_signed_area(dq)); }
    if (a2) { double cx = mx / (3. * a2), cy = my / (3. * a2); P2 c = get_centroid(g), t = f(cx, cy); double e = 1e-9 + 1e-14 * M * M * M / std::fabs(A); x.check(dist(c, t) <= e, "centroid (%.17g,%.17g), true (%.17g,%.17g)", X(c), Y(c), X(t), Y(t)); }
    if (corners) for (size_t i = 0; i < n; ++i) { I2 a = r[(i + n - 1) % n], b = r[i], c = r[(i + 1) % n]; i64 o = orient(a, b, c) * f.orient; if (o == 0 && !f.exact) continue; x.check(is_point_concave(g, i) == (o <= 0), "point %zu concave: %d, turn %lld", i, (int)is_point_concave(g, i), (long long)o); x.outcome(o <= 0 ? "concave" : "convex"); }
    for (size_t i = 0; i < n; ++i) x.check(next_index(g, i) == (i + 1) % n && prev_index(g, i) == (i + n - 1) % n, "neighbours of %zu: %zu %zu", i, prev_index(g, i), next_index(g, i));
    }
    bounds2(x, r, 0, n - 1, f, get_bounds(g, cmp), "bounds"); bounds2(x, r, 0, n - 1, f, get_bounds(g, fc), "bounds (relative tolerance)"); bounds2(x, r, 0, n - 1, f, get_bounds(g, direct_comparison_policy()), "bounds (direct)");
    std::vector<int> pl; if (n > 1000) pl = far_places(n); else for (size_t a = 0; a < n; ++a) pl.push_back(a);
    for (size_t a : pl) for (size_t b : pl) if (a <= b) bounds2(x, r, a, b, f, get_bounds(g, std::make_tuple(a, b), cmp), "bounds of a range");
    for (size_t a : pl) if (a + 1 < n) bounds2(x, r, 0, n - 1, f, update_bound(get_bounds(g, std::make_tuple(size_t(0), a), cmp), get_bounds(g, std::make_tuple(a + 1, n - 1), cmp)), "joined bounds");
    if (n > 2) { auto s = polygon_as_segment_range<S2>(cg); bool ok = s.size() == n; for (size_t i = 0; ok && i < n; ++i) ok = same(s[i].get_start(), f(r[i])) && same(s[i].get_end(), f(r[(i + 1) % n])); x.check(ok, "%zu border segments", s.size()); }
    { L2 l = mk<L2>(r, f); auto s = polyline_as_segment_range<S2>(l); bool ok = s.size() == n - 1; for (size_t i = 0; ok && i + 1 < n; ++i) ok = same(s[i].get_start(), f(r[i])) && same(s[i].get_end(), f(r[i + 1])); x.check(ok, "%zu polyline segments", s.size()); }
    { G2 v = geometrix::reverse(g); bool ok = v.size() == n; for (size_t i = 0; ok && i < n; ++i) ok = same(v[i], f(r[n - 1 - i])); x.check(ok, "reversed"); if (n > 2) x.check(near(get_signed_area(v), -A, tol), "area of the reversed %.17g", get_signed_area(v)); }
    x.state(mc::H(a2, mx, my)); x.outcome(a2 > 0 ? "left-handed" : a2 < 0 ? "right-handed" : "no area");
}
static void seqc(u64 i, Ctx& x, int k, int W, int nf) { Dec d(i); const Frame& f = FR[d(nf)]; R r; for (int j = 0; j < k; ++j) r.push_back(gp(d(W * W), W)); bool rep = false; for (int j = 0; j < k; ++j) rep = rep || r[j] == r[(j + 1) % k]; ring(x, r, f, !rep); }
MC_SIZES("sizes", BIG ", as closed sequences, 4 frames", 4 * BIGQ / 20, 20, 40, [](u64 i, Ctx& x) { Dec d(i); const Frame& f = FR[d(4) * 2]; auto r = big_any(d); if (r.empty()) return x.skip(); ring(x, r, f, true); });
MC_SPACE("giant", "combs, stairs, zigzags, saws of 66001 vertices, both windings, 3 starting vertices, 2 frames, as closed sequences; ranges between the places where 8, 16 bits and the sequence end", 2ull * 2 * 3 * 4, [](u64 i, Ctx& x) { Dec d(i); const Frame& f = FR[d(2) * 4]; bool rev = d(2); int st = d(3) * 21999, k = d(4); ring(x, k < 2 ? turned(big_ring(3 * k, GIANT), st, rev) : turned(big_chain(k == 2 ? 0 : 5, GIANT), st, rev), f, true); });
MC_SPACE("few", "all sequences of 1 and 2 points of a 6x6 grid, 8 frames", 8ull * (36 + 1296), [](u64 i, Ctx& x) { if (i < 288) seqc(i, x, 1, 6, 8); else seqc(i - 288, x, 2, 6, 8); });
MC_SPACE("triples", "all triples of points of a 4x4 grid, 8 frames", 8ull * 4096, [](u64 i, Ctx& x) { seqc(i, x, 3, 4, 8); });
MC_SPACE("quadruples", "all quadruples of points of a 3x3 grid, 8 frames", 8ull * 6561, [](u64 i, Ctx& x) { seqc(i, x, 4, 3, 8); });
MC_SPACE("quintuples", "all 5-tuples of points of a 3x3 grid, 8 frames", 8ull * 59049, [](u64 i, Ctx& x) { seqc(i, x, 5, 3, 8); });
MC_SPACE("quadruples4", "all quadruples of points of a 4x4 grid, 8 frames", 0, 8ull * 65536, [](u64 i, Ctx& x) { seqc(i, x, 4, 4, 8); });
MC_SPACE("sextuples", "all 6-tuples of points of a 3x3 grid, 2 frames", 0, 2ull * 531441, [](u64 i, Ctx& x) { seqc(i, x, 6, 3, 2); });
// bounds in space
static void bounds3(u64 i, Ctx& x, int k, int W) { Dec d(i); const Frame3& f = FR3[d(4)]; std::vector<I3> r; L3 l; for (int j = 0; j < k; ++j) { r.push_back(gp3(d(W * W * W), W)); l.push_back(f(r[j])); } x.in("points %s, %s", str(r).c_str(), f.name); AbsCmp cmp(1e-8);
    auto chk = [&](size_t a, size_t b, const std::tuple<double, double, double, double, double, double>& t, const char* w) { double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300}; for (size_t j = a; j <= b; ++j) { double c[3] = {X(l[j]), Y(l[j]), Z(l[j])}; for (int m = 0; m < 3; ++m) { lo[m] = std::min(lo[m], c[m]); hi[m] = std::max(hi[m], c[m]); } }
        x.check(near(std::get<0>(t), lo[0], 1e-7) && near(std::get<1>(t), hi[0], 1e-7) && near(std::get<2>(t), lo[1], 1e-7) && near(std::get<3>(t), hi[1], 1e-7) && near(std::get<4>(t), lo[2], 1e-7) && near(std::get<5>(t), hi[2], 1e-7), "%s of %zu..%zu", w, a, b); };
    chk(0, k - 1, get_bounds(l, cmp), "bounds"); for (int a = 0; a < k; ++a) for (int b = a; b < k; ++b) chk(a, b, get_bounds(l, std::make_tuple(size_t(a), size_t(b)), cmp), "bounds"); for (int a = 0; a + 1 < k; ++a) chk(0, k - 1, update_bound(get_bounds(l, std::make_tuple(size_t(0), size_t(a)), cmp), get_bounds(l, std::make_tuple(size_t(a + 1), size_t(k - 1)), cmp)), "joined bounds"); x.state(mc::H(i, 3)); }
MC_SPACE("bounds3", "all triples of points of a 3x3x3 grid, 4 frames", 4ull * 19683, [](u64 i, Ctx& x) { bounds3(i, x, 3, 3); });
// equality and offsets
static void equal(u64 i, Ctx& x, int k, int W) { Dec d(i); const Frame& f = FR[d(2) * 5]; R a, b; for (int j = 0; j < k; ++j) a.push_back(gp(d(W * W), W)); int nb = k - 1 + d(3); for (int j = 0; j < nb; ++j) b.push_back(gp(d(W * W), W)); if (nb < 1) return x.skip();
    x.in("%s and %s, %s", str(a).c_str(), str(b).c_str(), f.name); AbsCmp cmp(1e-8); G2 g = mk<G2>(a, f), h = mk<G2>(b, f); for (auto& p : h) p = P2(X(p) + 1e-10, Y(p) - 1e-10);
    x.check(point_sequences_equal(g, h, cmp) == (a == b), "equal: %d", (int)point_sequences_equal(g, h, cmp));
    for (int o = 0; o < k; ++o) { bool e = nb == k; for (int j = 0; e && j < k; ++j) e = a[j] == b[(j + o) % k]; x.check(polygons_equal(g, h, o, cmp) == e, "polygons equal with offset %d: %d", o, (int)polygons_equal(g, h, o, cmp)); x.outcome(e ? "equal" : "different"); }
    if (nb == k) { size_t want = ~size_t(0); for (int j = 0; j < k; ++j) if (a[0] == b[j]) { want = j; break; } x.check(polygon_polygon_offset(g, h, cmp) == want, "offset %zu, true %zu", polygon_polygon_offset(g, h, cmp), want); }
    x.state(mc::H(i, 5, k)); }
MC_SPACE("equal2", "all pairs of sequences of 2 and 1..3 points of a 3x3 grid", 2ull * 3 * 59049, [](u64 i, Ctx& x) { equal(i, x, 2, 3); });
MC_SPACE("equal3", "all pairs of sequences of 3 and 2..4 points of a 2x2 grid", 2ull * 3 * 16384, [](u64 i, Ctx& x) { equal(i, x, 3, 2); });
MC_SPACE("equal4", "all pairs of sequences of 4 and 3..5 points of a 2x2 grid", 0, 2ull * 3 * 262144, [](u64 i, Ctx& x) { equal(i, x, 4, 2); });
MC_SPACE("near", "all triples of points of a 4x4 grid of near coincidences (columns and rows in pairs one step apart, 256 steps between pairs), 8 frames", 8ull * 4096, [](u64 i, Ctx& x) { Near m(256); seqc(i, x, 3, 4, 8); });
