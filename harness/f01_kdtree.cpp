// F01: range search in a kd_tree visits exactly the points in the range.
#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/kd_tree.hpp>
#include <geometrix/algorithm/median_partitioning_strategy.hpp>
#include <geometrix/primitive/deque_point_sequence.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
using namespace gx;
struct Map { const char* name; double s, t; }; // axis preserving, exact
static const Map MP[] = {{"id", 1, 0}, {"shift", .5, -20.25}, {"big", 4096, 100000}, {"small", 1. / 4096, -1}};
template <class P> static bool less_(const P& a, const P& b, int n) { const double* p = a.get_sequence().data(); const double* q = b.get_sequence().data(); return std::lexicographical_compare(p, p + n, q, q + n); }

// one tree against all ranges with bounds at half grid steps in [-1/2, W - 1/2] (step 1/2)
template <int D, class P, class Seq, class Cmp, class Pts> static void all_ranges(Ctx& x, const Pts& pts, const Seq& seq, const Map& m, int W, const Cmp& cmp, bool halves) {
    kd_tree<P> tree(seq, cmp, median_partitioning_strategy());
    std::vector<std::pair<int, int>> iv; int st = halves ? 1 : 2; if (NM) { for (int a : half_coords(W)) for (int b : half_coords(W)) if (a <= b) iv.push_back({a, b}); } else for (int a = -1; a <= 2 * W - 1; a += st) for (int b = a; b <= 2 * W - 1; b += st) iv.push_back({a, b});
    u64 n = 1; for (int k = 0; k < D; ++k) n *= iv.size();
    std::vector<P> got; size_t hits = 0;
    for (u64 r = 0; r < n; ++r) {
        Dec e(r); i64 lo[D], hi[D]; P L, H; for (int k = 0; k < D; ++k) { auto v = iv[e(iv.size())]; lo[k] = v.first; hi[k] = v.second; L[k] = m.s * lo[k] / 2. + m.t; H[k] = m.s * hi[k] / 2. + m.t; }
        got.clear(); tree.search(axis_aligned_bounding_box<P>(L, H), [&](const P& p) { got.push_back(p); }, cmp);
        size_t want = 0, ok = 0;
        std::vector<char> used(got.size());
        for (auto& p : pts) { const i64* c = &p.x; bool in = true; for (int k = 0; k < D; ++k) in &= 2 * c[k] >= lo[k] && 2 * c[k] <= hi[k]; if (!in) continue; ++want;
            for (size_t g = 0; g < got.size(); ++g) if (!used[g]) { bool eq = true; for (int k = 0; k < D; ++k) eq &= got[g][k] == m.s * c[k] + m.t; if (eq) { used[g] = 1; ++ok; break; } } }
        hits += want;
        if (!x.check(want == got.size() && ok == want, "range [%g,%g]x[%g,%g]%s: visited %zu points, %zu of the %zu in it", lo[0] / 2., hi[0] / 2., lo[1] / 2., hi[1] / 2., D == 3 ? " ..." : "", got.size(), ok, want)) return;
    }
    x.outcome(hits ? pts.size() == 1 ? "one point" : "visited" : "none");
}
static void planar(u64 i, Ctx& x, int k, int W, bool halves) {
    Dec d(i); std::vector<I2> p(k); for (auto& q : p) q = gp(d(W * W), W); const Map& m = NM ? MP[3] : MP[0];
    x.in("points %s", str(p).c_str()); std::vector<P2> s; for (auto q : p) s.emplace_back(m.s * q.x + m.t, m.s * q.y + m.t);
    all_ranges<2, P2>(x, p, s, m, W, AbsCmp(1e-10), halves);
    x.state(mc::H(i));
}
MC_SPACE("points1", "one point on a 5x5 grid, all ranges at half grid steps", 25, [](u64 i, Ctx& x) { planar(i, x, 1, 5, true); });
MC_SPACE("points2", "all sequences of 2 points (equal ones included) of a 4x4 grid, all ranges at half grid steps", 256, [](u64 i, Ctx& x) { planar(i, x, 2, 4, true); });
MC_SPACE("points3", "all sequences of 3 points of a 3x3 grid, all ranges at half grid steps", 729, [](u64 i, Ctx& x) { planar(i, x, 3, 3, true); });
MC_SPACE("points4", "all sequences of 4 points of a 3x3 grid, all ranges at half grid steps", 6561, [](u64 i, Ctx& x) { planar(i, x, 4, 3, true); });
MC_SPACE("points5", "all sequences of 5 points of a 3x3 grid, all ranges between grid lines", 59049, [](u64 i, Ctx& x) { planar(i, x, 5, 3, false); });
MC_SPACE("points6", "all sequences of 6 points of a 3x3 grid, all ranges between grid lines", 0, 531441, [](u64 i, Ctx& x) { planar(i, x, 6, 3, false); });
MC_SPACE("lines8", "all sequences of 8 points of a line of 4, laid along either axis or the diagonal, all ranges", 3ull * 65536, [](u64 i, Ctx& x) {
    Dec d(i); int w = d(3); std::vector<I2> p(8); for (auto& q : p) { i64 v = d(4); q = {w == 1 ? 0 : v, w == 0 ? 0 : v}; } x.in("points %s", str(p).c_str());
    std::vector<P2> s; for (auto q : p) s.emplace_back(q.x, q.y); all_ranges<2, P2>(x, p, s, MP[0], 4, AbsCmp(1e-10), false); x.state(mc::H(i)); });
// larger sets: grid walked with a stride, with repetition
static void family(u64 i, Ctx& x, int NMAX, int W0 = 2, int n0 = 2, int dn = 1) {
    Dec d(i); const Map& m = MP[d(3)]; int frac = d(2), cont = d(2), W = W0 + d(5), stride = 1 + d(7), n = n0 + dn * d(NMAX); std::vector<I2> p; for (int k = 0; k < n; ++k) p.push_back(gp(k * stride % (W * W), W));
    x.in("%d points, stride %d over a %dx%d grid, %s, %s, %s", n, stride, W, W, m.name, frac ? "fraction" : "absolute", cont ? "deque" : "polygon");
    auto go = [&](auto cmp) {
        if (cont) { std::deque<P2> s; for (auto q : p) s.emplace_back(m.s * q.x + m.t, m.s * q.y + m.t); all_ranges<2, P2>(x, p, s, m, W, cmp, true); }
        else { G2 s; for (auto q : p) s.emplace_back(m.s * q.x + m.t, m.s * q.y + m.t); all_ranges<2, P2>(x, p, s, m, W, cmp, true); }
    };
    if (frac) go(FracCmp(1e-10)); else go(AbsCmp(1e-10));
    x.state(mc::H(i / 12));
}
MC_SPACE("families", "2..33 points walking a 2x2..6x6 grid with strides 1..7, 3 maps, 2 policies, 2 containers, all ranges", 3ull * 2 * 2 * 5 * 7 * 32, [](u64 i, Ctx& x) { family(i, x, 32); });
MC_SPACE("families-huge", "66, 131, 196 and 261 points walking a 7x7 and an 8x8 grid with strides 1..7, 3 maps, 2 policies, 2 containers, all ranges", 3ull * 2 * 2 * 5 * 7 * 4, [](u64 i, Ctx& x) { if (i / 12 % 5 > 1) return x.skip(); family(i, x, 4, 7, 66, 65); });
MC_SPACE("families100", "2..101 points walking a 2x2..6x6 grid with strides 1..7, 3 maps, 2 policies, 2 containers, all ranges", 0, 3ull * 2 * 2 * 5 * 7 * 100, [](u64 i, Ctx& x) { family(i, x, 100); });
MC_SPACE("space", "all sequences of 1..4 points of a 2x2x3 grid, all ranges", 12ull + 144 + 1728 + 20736, [](u64 i, Ctx& x) {
    int k = 1; u64 j = i, c = 12; while (j >= c) { j -= c; c *= 12; ++k; }
    Dec d(j); std::vector<I3> p(k); for (auto& q : p) q = {d(2), d(2), d(3)}; x.in("points %s", str(p).c_str());
    std::vector<P3> s; for (auto q : p) s.emplace_back(q.x, q.y, q.z); all_ranges<3, P3>(x, p, s, MP[0], 3, AbsCmp(1e-10), false); x.state(mc::H(i)); });
MC_SPACE("points-near", "all sequences of 3 points of a 4x4 grid of near coincidences (columns and rows 0, 1, 256, 257 steps of 1/4096), all ranges with bounds on and half a step around them", 4096, [](u64 i, Ctx& x) { Near m(256); planar(i, x, 3, 4, true); });
MC_SPACE("giant", "66001 points, no two in a line, or walking a 300x300 grid or a 40x40 grid (with repetition), in 3 orders, 2 policies, 81 ranges", 3ull * 3 * 2, [](u64 i, Ctx& x) {
    Dec d(i); int kind = d(3), ord = d(3), frac = d(2), n = GIANT, W = kind == 0 ? n : kind == 1 ? 300 : 40; std::vector<I2> p(n); std::vector<P2> s;
    for (i64 k = 0; k < n; ++k) { i64 j = ord == 0 ? k : ord == 1 ? n - 1 - k : k * 32771 % n; p[k] = kind == 0 ? I2{j, j * 777 % n} : I2{j * 7 % (i64(W) * W) % W, j * 7 % (i64(W) * W) / W}; s.emplace_back(p[k].x, p[k].y); }
    x.in("66001 points, family %d, order %d, %s", kind, ord, frac ? "fraction" : "absolute");
    auto go = [&](auto cmp) { kd_tree<P2> tree(s, cmp, median_partitioning_strategy()); std::vector<std::pair<i64, i64>> iv{{0, W - 1}, {0, 0}, {W - 1, W - 1}, {W / 2, W / 2}, {W / 3, W / 2}, {0, W / 4}, {W / 2 + 1, W - 1}, {-5, -1}, {W / 5, W / 5 + 2}};
        for (auto& a : iv) for (auto& b : iv) { std::vector<std::pair<double, double>> got; tree.search(axis_aligned_bounding_box<P2>(P2(a.first, b.first), P2(a.second, b.second)), [&](const P2& q) { got.push_back({X(q), Y(q)}); }, cmp); std::vector<std::pair<double, double>> want; for (auto q : p) if (q.x >= a.first && q.x <= a.second && q.y >= b.first && q.y <= b.second) want.push_back({double(q.x), double(q.y)});
            std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); if (!x.check(got == want, "range [%lld,%lld]x[%lld,%lld]: visited %zu points, %zu in it", (long long)a.first, (long long)a.second, (long long)b.first, (long long)b.second, got.size(), want.size())) return; x.outcome(want.empty() ? "none" : "visited"); } };
    if (frac) go(FracCmp(1e-10)); else go(AbsCmp(1e-10)); x.state(mc::H(i)); });
