// D03: distance and closest points between two polylines and between two polygons, small and large.
#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
using namespace gx;
typedef std::vector<I2> R;
static bool near(double a, double b, double scale) { return std::fabs(a - b) <= (SX > 1 || NM ? 2e-5 : 1e-6) * scale; }
static bool near2(double a, double b, double scale) { return std::fabs(a - b) <= 1e-8 * scale * scale; }

static void both(Ctx& x, const R& r, const R& q, const Frame& f, bool polygon) {
    AbsCmp cmp(1e-10); double sc = f.scale;
    std::size_t n = r.size(), m = q.size(), en = polygon ? n : n - 1, em = polygon ? m : m - 1;
    Q best(1 << 30); for (std::size_t i = 0; i < en; ++i) for (std::size_t j = 0; j < em; ++j) best = qmin(best, seg_seg_dist2(r[i], r[(i + 1) % n], q[j], q[(j + 1) % m]));
    double e2 = best.dbl() * sc * sc, e = std::sqrt(e2), d2, d, c2;
    std::size_t i1 = 999, i2 = 999; double s = -7, t = -7; P2 c, k;
    P2 A, B, C, D;
    if (polygon) {
        G2 g = mk<G2>(r, f), h = mk<G2>(q, f);
        d2 = polygon_polygon_distance_sqrd(g, h, cmp); d = polygon_polygon_distance(g, h, cmp);
        c2 = polygon_polygon_closest_point(g, h, i1, i2, s, t, c, k, cmp);
    } else {
        L2 g = mk<L2>(r, f), h = mk<L2>(q, f);
        d2 = polyline_polyline_distance_sqrd(g, h, cmp); d = polyline_polyline_distance(g, h, cmp);
        c2 = polyline_polyline_closest_point(g, h, i1, i2, s, t, c, k, cmp);
    }
    x.check(near2(d2, e2, sc) && near(d, e, sc), "distance %.17g, exact %.17g", d, e);
    x.check(near2(c2, e2, sc), "squared distance of the closest points %.17g, exact %.17g", c2, e2);
    x.check(i1 < en && i2 < em && s >= 0 && s <= 1 && t >= 0 && t <= 1, "edges %zd %zd parameters %g %g", i1, i2, s, t);
    x.outcome(best == Q(0) ? "meet" : "apart");
    if (x.failed) return;
    A = f(r[i1]); B = f(r[(i1 + 1) % n]); C = f(q[i2]); D = f(q[(i2 + 1) % m]);
    x.check(same(c, P2(A + s * V2(B - A))) && same(k, P2(C + t * V2(D - C))), "the closest points (%g,%g) (%g,%g) are not those of the parameters", X(c), Y(c), X(k), Y(k));
    x.check(near(dist(c, k), e, sc), "the closest points are %.17g apart, exact %.17g", dist(c, k), e);
}
// small chains, exhaustively
static void small(u64 i, Ctx& x, int k, int l, int W, int H, bool polygon) {
    Dec d(i); const Frame& f = FR[(i % 2) * (NM ? 1 : 5)]; d(2); R r, q; int n = W * H;
    for (int j = 0; j < k; ++j) r.push_back(gp(d(n), W));
    for (int j = 0; j < l; ++j) q.push_back(gp(d(n), W));
    for (int j = polygon ? 0 : 1; j < k; ++j) if (r[j] == r[(j + k - 1) % k]) return x.skip();
    for (int j = polygon ? 0 : 1; j < l; ++j) if (q[j] == q[(j + l - 1) % l]) return x.skip();
    x.in("%s %s %s frame %s", polygon ? "polygons" : "polylines", str(r).c_str(), str(q).c_str(), f.name);
    both(x, r, q, f, polygon);
    x.state(mc::H(i / 2));
}
MC_SPACE("polylines33", "all pairs of 3-vertex polylines of a 3x3 grid, 2 frames", 2ull * 531441, [](u64 i, Ctx& x) { small(i, x, 3, 3, 3, 3, false); });
MC_SPACE("polylines-thin", "all pairs of 3-vertex polylines of a 3x3 grid stretched 150 times, 2 frames", 2ull * 531441, [](u64 i, Ctx& x) { Stretch s(150); small(i, x, 3, 3, 3, 3, false); });
MC_SPACE("polygons33", "all pairs of triangles (also degenerate) of a 3x3 grid, 2 frames", 2ull * 531441, [](u64 i, Ctx& x) { small(i, x, 3, 3, 3, 3, true); });
MC_SPACE("polylines24", "all pairs of 2- and 4-vertex polylines of a 4x2 grid, 2 frames", 2ull * 262144, [](u64 i, Ctx& x) { small(i, x, 2, 4, 4, 2, false); });
MC_SPACE("polygons34", "all pairs of triangles and quadrilaterals of a 3x3 grid, 2 frames", 0, 2ull * 4782969, [](u64 i, Ctx& x) { small(i, x, 3, 4, 3, 3, true); });

// the hierarchical search is used from 6 vertices on: every chain with heights in {0,1} (x-monotone), every offset
static void binary(u64 i, Ctx& x, int k, int l) {
    Dec d(i); const Frame& f = FR[(i % 2) * 5]; d(2); R r, q;
    int a = d(1 << k), b = d(1 << l), dx = d(9) - 4, dy = d(4), rev = d(4);
    for (int j = 0; j < k; ++j) r.push_back({2 * j, 2 * (a >> j & 1)});
    for (int j = 0; j < l; ++j) q.push_back({2 * j + 3 * dx, 2 + dy * 3 + 3 * (b >> j & 1)});
    if (rev & 1) std::reverse(r.begin(), r.end());
    if (rev & 2) std::reverse(q.begin(), q.end());
    x.in("polylines %s %s frame %s", str(r).c_str(), str(q).c_str(), f.name);
    both(x, r, q, f, false);
    x.state(mc::H(i / 2, k, l));
}
MC_SPACE("binary66", "all pairs of 6-vertex polylines with two heights, 36 offsets, 4 directions, 2 frames", 2ull * 64 * 64 * 36 / 2, 2ull * 64 * 64 * 36 * 4, [](u64 i, Ctx& x) { binary(i, x, 6, 6); });
MC_SPACE("binary78", "all pairs of 7- and 8-vertex polylines with two heights, 36 offsets, 4 directions, 2 frames", 0, 2ull * 128 * 256 * 36 * 4, [](u64 i, Ctx& x) { binary(i, x, 7, 8); });
MC_SPACE("binary56", "all pairs of 5- and 6-vertex polylines with two heights, 36 offsets, 4 directions, 2 frames", 2ull * 32 * 64 * 36 * 4, [](u64 i, Ctx& x) { binary(i, x, 5, 6); });

// x-monotone polygons: lower heights in {0,1}, upper in {3,4}, every first vertex
static R mono(int m, int bits, int start, int rev) {
    R r; for (int j = 0; j < m; ++j) r.push_back({2 * j, (bits >> j & 1)});
    for (int j = m; j-- > 0;) r.push_back({2 * j, 3 + (bits >> (m + j) & 1)});
    std::rotate(r.begin(), r.begin() + start, r.end());
    if (rev) std::reverse(r.begin(), r.end());
    return r;
}
static const I2 OFF[] = {{7, 0}, {7, 5}, {0, 6}, {-3, 6}, {-8, 2}, {-7, -6}, {1, -6}, {6, -5}, {2, 2}, {30, 1}, {-2, -40}, {4, 3}};
static void monos(u64 i, Ctx& x, int m, int l) {
    Dec d(i); const Frame& f = FR[(i % 2) * 5]; d(2);
    I2 o = OFF[d(12)]; int sa = d(2 * m), sb = d(2 * l), a = d(1 << (2 * m)), b = d(1 << (2 * l));
    R r = mono(m, a, sa, (a ^ sa) & 1), q = mono(l, b, sb, (b ^ sa) & 1); for (auto& p : q) p = p + o;
    x.in("polygons %s %s frame %s", str(r).c_str(), str(q).c_str(), f.name);
    both(x, r, q, f, true);
    x.state(mc::H(i / 2, m, l));
}
MC_SPACE("monotone33", "x-monotone hexagons with two lower and two upper heights, all first vertices, 12 offsets, 2 frames", 2ull * 12 * 36 * 64 * 6, 2ull * 12 * 36 * 64 * 64, [](u64 i, Ctx& x) { monos(i, x, 3, 3); });
MC_SPACE("monotone34", "x-monotone hexagons and octagons, all first vertices, 12 offsets, 2 frames", 0, 2ull * 12 * 48 * 64 * 64, [](u64 i, Ctx& x) { monos(i, x, 3, 4); });

// size sweep: combs of every size, every first vertex, deep recursion of the search
static void sizes(u64 i, Ctx& x, int N, bool huge = false) {
    Dec d(i); const Frame& f = FR[(i % 2) * 5]; d(2);
    bool polygon = d(2); int n = 6 + d(N), m = 6 + d(N), kind = huge ? 0 : d(4); I2 o = OFF[d(12)]; int st = d(7); if (huge) { n = mc::i64(big_n(n + 34)); m = std::array<int, 4>{6, 31, 70, 258}[m - 6]; if (st % 3) return x.skip(); }
    auto shape = [&](int n, int kind) { R r;
        for (int j = 0; j < n; ++j) { // kind 0: zigzag comb; 1: lattice circle
            if (kind == 0) r.push_back({j < n - 2 ? 2 * j : j == n - 2 ? 2 * n : -2, j < n - 2 ? 3 + (j & 1) * 2 + (j * j % 5 == 1) : 0});
            else { double a = 2 * M_PI * j / n; r.push_back({i64(std::lround(40 * std::cos(a))), i64(std::lround(25 * std::sin(a)))}); }
        }
        return r; };
    R r = shape(n, kind & 1), q = shape(m, kind >> 1);
    int sh = st * n / 7 % n; std::rotate(r.begin(), r.begin() + sh, r.end()); int sh2 = (st * 3 % 7) * m / 7 % m; std::rotate(q.begin(), q.begin() + sh2, q.end());
    for (auto& p : q) p = p + 2 * o;
    for (auto& p : r) p = 3 * p; // different densities
    x.in("%s %s %s frame %s", polygon ? "polygons" : "polylines", str(r).c_str(), str(q).c_str(), f.name);
    both(x, r, q, f, polygon);
    x.state(mc::H(i / 2));
}
MC_SPACE("sizes18", "combs and lattice circles of 6..17 vertices, 12 offsets, 7 first vertices, 2 frames", 2ull * 2 * 12 * 12 * 4 * 12 * 3, 2ull * 2 * 12 * 12 * 4 * 12 * 7, [](u64 i, Ctx& x) { sizes(i, x, 12); });
MC_SPACE("sizes-huge", "combs of 33, 66, 131, 259 and of 6, 31, 70, 258 vertices, 12 offsets, 3 first vertices, 2 frames", 2ull * 2 * 4 * 4 * 12 * 7, [](u64 i, Ctx& x) { sizes(i, x, 4, true); });
MC_SPACE("sizes46", "combs and lattice circles of 6..45 vertices, 12 offsets, 7 first vertices, 2 frames", 0, 2ull * 2 * 40 * 40 * 4 * 12 * 7, [](u64 i, Ctx& x) { sizes(i, x, 40); });
MC_SPACE("polylines-near", "all pairs of 3-vertex polylines of a 3x3 grid of near coincidences (columns and rows 0, 1 and 256), 2 exact frames", 2ull * 531441, [](u64 i, Ctx& x) { Near m(256); small(i, x, 3, 3, 3, 3, false); });
