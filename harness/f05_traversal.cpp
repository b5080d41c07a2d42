// F05: the cells a segment or convex polygon passes through.
#include "geo.hpp"
#include <set>
#include <map>
#include <geometrix/algorithm/grid_traits.hpp>
#include <geometrix/algorithm/hash_grid_2d.hpp>
#include <geometrix/algorithm/fast_voxel_grid_traversal.hpp>
#include <geometrix/algorithm/orientation_grid_traversal.hpp>
#include <geometrix/algorithm/floodfill_grid_traversal.hpp>
using namespace gx;
using GT = grid_traits<double>;
using Cell = std::pair<int, int>;
struct Map { const char* name; double s, tx, ty; bool exact; };
static const Map MP[] = {{"id", 1, 0, 0, true}, {"shift", 2, -8, 5, true}, {"fine", .125, -1, -3, true}, {"big", 1024, 50000, -30000, true}, {"tenth", .1, -.3, 7.7, false}, {"third", 1. / 3, -1. / 7, 100. / 3, false}};
static const int NMAP = 6;
// part of the segment within the closed box, as parameters
static bool clip(I2 p, I2 q, i64 x0, i64 y0, i64 x1, i64 y1, Q& a, Q& b) {
    a = Q(0); b = Q(1); i64 P[2] = {p.x, p.y}, V[2] = {q.x - p.x, q.y - p.y}, L[2] = {x0, y0}, H[2] = {x1, y1};
    for (int j = 0; j < 2; ++j) { if (!V[j]) { if (P[j] < L[j] || P[j] > H[j]) return false; continue; } Q s(L[j] - P[j], V[j]), e(H[j] - P[j], V[j]); if (e < s) std::swap(s, e); a = qmax(a, s); b = qmin(b, e); }
    return a <= b;
}
// 0 apart, 1 touches the border only, 2 passes through the interior; U units per cell
static int meets(I2 p, I2 q, int i, int j, int U, i64 BX, i64 BY) {
    Q A, B; if (!clip(p, q, 0, 0, BX, BY, A, B)) return 0;
    Q a, b; i64 x0 = i64(U) * i, y0 = i64(U) * j; if (!clip(p, q, x0, y0, x0 + U, y0 + U, a, b)) return 0;
    a = qmax(a, A); b = qmin(b, B); if (b < a) return 0; Q m = (a + b) * Q(1, 2); Q cx = Q(p.x) + m * Q(q.x - p.x), cy = Q(p.y) + m * Q(q.y - p.y);
    bool in = cx > Q(x0) && cx < Q(x0 + U) && cy > Q(y0) && cy < Q(y0 + U); return in && (a < b || p == q) ? 2 : 1;
}
// BX, BY extents and p, q positions in units, U units to a cell
static void trav(Ctx& x, const Map& m, int U, int BX, int BY, I2 p, I2 q) {
    double s = m.s; auto F = [&](I2 v) { return P2(m.tx + s * v.x / U, m.ty + s * v.y / U); };
    x.in("grid %g x %g cells, segment (%g,%g)(%g,%g), %s", BX / double(U), BY / double(U), p.x / double(U), p.y / double(U), q.x / double(U), q.y / double(U), m.name);
    P2 hi = F({BX, BY}); GT g(m.tx, X(hi), m.ty, Y(hi), s); AbsCmp cmp(1e-10); S2 seg(F(p), F(q)); int W = BX / U + 1, H = BY / U + 1;
    std::vector<Cell> v; auto rec = [&](std::uint32_t i, std::uint32_t j) { if (v.size() < 70000 || int(v.size()) < W + H) v.push_back({int(i), int(j)}); else throw std::runtime_error("endless traversal"); };
    auto verify = [&](const char* w, bool path) {
        std::set<Cell> S(v.begin(), v.end()); if (!x.check(S.size() == v.size(), "%s visits a cell twice", w)) return;
        for (auto& c : v) if (!x.check(c.first >= 0 && c.second >= 0 && c.first < W && c.second < H && meets(p, q, c.first, c.second, U, BX, BY), "%s visits %d %d", w, c.first, c.second)) return;
        for (int i = 0; i < W; ++i) for (int j = 0; j < H; ++j) if (meets(p, q, i, j, U, BX, BY) == 2) if (!x.check(S.count({i, j}), "%s misses %d %d", w, i, j)) return;
        for (size_t k = 0; k + 1 < v.size(); ++k) { int a = v[k + 1].first - v[k].first, b = v[k + 1].second - v[k].second; bool step = path ? std::abs(a) + std::abs(b) == 1 && a * (q.x - p.x) >= 0 && b * (q.y - p.y) >= 0 : std::max(std::abs(a), std::abs(b)) == 1; if (!x.check(step, "%s jumps from %d %d to %d %d", w, v[k].first, v[k].second, v[k + 1].first, v[k + 1].second)) return; }
    };
    fast_voxel_grid_traversal(g, seg, rec, cmp); verify("fast_voxel_grid_traversal", true);
    auto full = v;
    std::vector<int> stops; if (full.size() > 1000) stops = far_places(full.size()); else for (size_t k = 1; k <= full.size(); ++k) stops.push_back(k);
    for (size_t stop : stops) if (stop) { v.clear(); stoppable_fast_voxel_grid_traversal(g, seg, [&](std::uint32_t i, std::uint32_t j) { rec(i, j); return v.size() < stop; }, cmp); if (!x.check(v.size() == stop && std::equal(v.begin(), v.end(), full.begin()), "stoppable traversal told to stop after %zu of %zu visits %zu cells", stop, full.size(), v.size())) break; }
    v.clear(); stoppable_fast_voxel_grid_traversal(g, seg, [&](std::uint32_t i, std::uint32_t j) { rec(i, j); return true; }, cmp); x.check(v == full, "stoppable traversal differs");
    v.clear(); if (p != q) { orientation_segment_traversal(g, seg, rec, cmp); verify("orientation_segment_traversal", false); }
    x.outcome(full.empty() ? "outside" : full.size() == 1 ? "one cell" : p.x == q.x || p.y == q.y ? "straight" : "slanted");
}
MC_SPACE("segments", "all segments with ends at half cell steps in and around (1 cell) grids of 3x2 and 2.5x3.5 cells, 6 maps", 6ull * 2 * 132 * 132, [](u64 i, Ctx& x) {
    Dec d(i); const Map& m = MP[d(NMAP)]; int k = d(2); int BX = k ? 5 : 6, BY = k ? 7 : 4, w = 11, h = 12; I2 o{2, 2}; I2 p = gp(d(132), w) - o, q = gp(d(132), w) - o; (void)h;
    trav(x, m, 2, BX, BY, p, q); x.state(mc::H(i / NMAP)); });
MC_SPACE("thirds", "all segments with ends at third cell steps in and around a grid of 2 x 2.33 cells, 6 maps", 0, 6ull * 121 * 121, [](u64 i, Ctx& x) {
    Dec d(i); const Map& m = MP[d(NMAP)]; I2 o{2, 2}; I2 p = gp(d(121), 11) - o, q = gp(d(121), 11) - o; trav(x, m, 3, 6, 7, p, q); x.state(mc::H(i / NMAP)); });
MC_SPACE("long", "all segments from half cell steps of the left and bottom sides to those of the right and top of a 9 x 8.5 grid, both ways, 6 maps", 6ull * 2 * 36 * 36, [](u64 i, Ctx& x) {
    Dec d(i); const Map& m = MP[d(NMAP)]; int rev = d(2), a = d(36), b = d(36); I2 p = a < 19 ? I2{a, 0} : I2{0, a - 18}, q = b < 18 ? I2{18, b} : I2{b - 18, 17}; if (rev) std::swap(p, q); trav(x, m, 2, 18, 17, p, q); x.state(mc::H(i / NMAP)); });

MC_SPACE("longest", "segments from places on the left of grids of 33, 66, 131 or 259 cells by 3 to places on the right of the same, both ways, 2 maps, and the same upright", 2ull * 2 * 2 * 4 * 49, [](u64 i, Ctx& x) {
    static const int L[] = {33, 66, 131, 259}; Dec d(i); const Map& m = MP[d(2)]; int rev = d(2), up = d(2), n = L[d(4)], a = d(7), b = d(7); I2 p{a % 2, a}, q{2 * n - 1 - b % 3, b}; int BX = 2 * n - 1, BY = 5; if (rev) std::swap(p, q); if (up) { std::swap(p.x, p.y); std::swap(q.x, q.y); std::swap(BX, BY); } trav(x, m, 2, BX, BY, p, q); x.state(mc::H(i / 2)); });
MC_SPACE("giant", "the same on grids of 66001 by 3 cells, from and to 4 places", 2ull * 2 * 2 * 16, [](u64 i, Ctx& x) {
    Dec d(i); const Map& m = MP[d(2)]; int rev = d(2), up = d(2), n = GIANT, a = d(4), b = d(4); I2 p{a % 2, a}, q{2 * n - 1 - b % 3, b}; int BX = 2 * n - 1, BY = 5; if (rev) std::swap(p, q); if (up) { std::swap(p.x, p.y); std::swap(q.x, q.y); std::swap(BX, BY); } trav(x, m, 2, BX, BY, p, q); x.state(mc::H(i / 2)); });
static void near_lines(u64 i, Ctx& x, int no) {
    static const int O[] = {0, -1, 1, 4, 2048, -4, 2047}; Dec d(i); const Map& m = MP[d(4)]; auto at = [&](int lines) { int l = d(lines); return l * 4096 + O[d(no)]; };
    I2 p, q; p.x = at(4); p.y = at(3); q.x = at(4); q.y = at(3); x.state(mc::H(i / 4)); trav(x, m, 4096, 3 * 4096, 2 * 4096, p, q); }
MC_SPACE("near lines", "all segments with ends on, 1/4096 beside (both sides), 4/4096 beside or midway between the lines of a 3x2 grid, some outside it, 4 maps", 4ull * 300 * 300, [](u64 i, Ctx& x) { near_lines(i, x, 5); });
MC_SPACE("nearer lines", "the same with ends also 4/4096 before the lines and 1/4096 before the middles", 0, 4ull * 588 * 588, [](u64 i, Ctx& x) { near_lines(i, x, 7); });

// ---- convex polygons ---------------------------------------------------------------------------------
static bool convex_in(const std::vector<I2>& r, Q2 c, bool strict) { for (size_t k = 0; k < r.size(); ++k) { I2 a = r[k], b = r[(k + 1) % r.size()]; int s = cross(Q2(b) - Q2(a), c - Q2(a)).sg(); if (s < 0 || (strict && !s)) return false; } return true; }
// does the closed convex ccw ring meet the closed cell / its interior the cell's interior
static int cellmeet(const std::vector<I2>& r, int i, int j, int U) {
    std::vector<Q2> c; for (auto p : r) c.push_back(Q2(p)); Q L[2] = {Q(i64(U) * i), Q(i64(U) * j)}, H[2] = {Q(i64(U) * (i + 1)), Q(i64(U) * (j + 1))};
    for (int e = 0; e < 4 && !c.empty(); ++e) { std::vector<Q2> o; auto side = [&](const Q2& p) { return e == 0 ? p.x - L[0] : e == 1 ? H[0] - p.x : e == 2 ? p.y - L[1] : H[1] - p.y; };
        for (size_t k = 0; k < c.size(); ++k) { Q2 a = c[k], b = c[(k + 1) % c.size()]; Q sa = side(a), sb = side(b); if (sa.sg() >= 0) o.push_back(a); if (sa.sg() * sb.sg() < 0) o.push_back(a + (sa / (sa - sb)) * (b - a)); } c = o; }
    if (c.empty()) return 0; Q A; for (size_t k = 0; k < c.size(); ++k) A = A + cross(c[k], c[(k + 1) % c.size()]); return A.sg() ? 2 : 1;
}
static const std::vector<std::vector<I2>>& convex(int k, int W, int H) { static std::map<int, std::vector<std::vector<I2>>> m; auto& v = m[k * 100 + W * 10 + H]; if (v.empty()) for (auto& r : simple_rings(k, W, H, true)) if (ring_convex_ccw(r)) v.push_back(r); return v; }
static void fill(Ctx& x, const Map& m, std::vector<I2> r, int rot, bool rev, int U, int BX, int BY, const std::vector<std::vector<I2>>& holes) {
    auto ord = r; std::rotate(ord.begin(), ord.begin() + rot % ord.size(), ord.end()); if (rev) std::reverse(ord.begin(), ord.end());
    std::string hs; for (auto& h : holes) hs += " hole " + str(h);
    x.in("polygon %s%s in units of 1/%d cell, grid %d x %d units, %s", str(ord).c_str(), hs.c_str(), U, BX, BY, m.name);
    double s = m.s; auto F = [&](I2 v) { return P2(m.tx + s * v.x / U, m.ty + s * v.y / U); }; P2 hi = F({BX, BY}); GT g(m.tx, X(hi), m.ty, Y(hi), s); AbsCmp cmp(1e-10);
    G2 pg; for (auto p : ord) pg.push_back(F(p)); std::map<Cell, int> S; auto rec = [&](std::uint32_t i, std::uint32_t j) { ++S[{int(i), int(j)}]; };
    if (holes.empty()) floodfill_grid_traversal(g, pg, rec, cmp);
    else { std::vector<G2> hh; for (auto& h : holes) { G2 w; for (auto p : h) w.push_back(F(p)); hh.push_back(w); } floodfill_grid_traversal(g, polygon_with_holes<P2>(pg, hh), rec, cmp); }
    for (int i = 0; i <= BX / U; ++i) for (int j = 0; j <= BY / U; ++j) {
        int e = cellmeet(r, i, j, U); bool inhole = false, hole2 = false;
        for (auto& h : holes) { Q2 c[4] = {{Q(i64(U) * i), Q(i64(U) * j)}, {Q(i64(U) * (i + 1)), Q(i64(U) * j)}, {Q(i64(U) * (i + 1)), Q(i64(U) * (j + 1))}, {Q(i64(U) * i), Q(i64(U) * (j + 1))}}; bool all = true, strict = true; for (auto& q : c) { all &= convex_in(h, q, false); strict &= convex_in(h, q, true); } inhole |= all; hole2 |= strict; }
        int n = S[{i, j}]; x.check(n <= 1, "cell %d %d visited %d times", i, j, n);
        if (e == 2 && !inhole) { if (!x.check(n, "cell %d %d missed", i, j)) return; } else if (e == 0 || hole2) { if (!x.check(!n, "cell %d %d visited", i, j)) return; }
    }
    for (auto& c : S) if (c.second) x.check(c.first.first >= 0 && c.first.first <= BX / U && c.first.second >= 0 && c.first.second <= BY / U, "cell %d %d outside the grid", c.first.first, c.first.second);
    // flood from the first empty cell inside
    if (holes.empty()) {
        floodfill_grid_traversal_helper<GT> ff(g); std::set<Cell> b, f; ff.mark_boundary(pg, [&](std::uint32_t i, std::uint32_t j) { b.insert({int(i), int(j)}); }, cmp); auto c = ff.get_empty_interior(); std::set<Cell> in; for (auto& k : S) if (k.second && !b.count(k.first)) in.insert(k.first);
        x.check(bool(c) == !in.empty(), "get_empty_interior %d", bool(c));
        if (c && x.check(in.count({int(c->first), int(c->second)}), "get_empty_interior %u %u is not inside", c->first, c->second)) {
            std::set<Cell> want; std::vector<Cell> st{{int(c->first), int(c->second)}}; while (!st.empty()) { Cell k = st.back(); st.pop_back(); if (!in.count(k) || !want.insert(k).second) continue; st.push_back({k.first + 1, k.second}); st.push_back({k.first - 1, k.second}); st.push_back({k.first, k.second + 1}); st.push_back({k.first, k.second - 1}); }
            bool twice = false; bool r = ff.traversal(c->first, c->second, [&](std::uint32_t i, std::uint32_t j) { twice |= !f.insert({int(i), int(j)}).second; }); x.check(r && f == want && !twice, "traversal visits %zu cells, connected %zu", f.size(), want.size()); x.outcome("flooded");
        }
        if (!b.empty()) x.check(!ff.traversal(b.begin()->first, b.begin()->second, [&](std::uint32_t, std::uint32_t) {}), "traversal from the boundary");
    }
    x.outcome(holes.empty() ? "polygon" : "polygon with holes");
}
MC_SPACE("triangles", "all triangles on a 6x6 grid of half cells, both windings, 3 starts", 2ull * 3 * convex(3, 6, 6).size(), [](u64 i, Ctx& x) { Dec d(i); int rev = d(2), rot = d(3); auto& v = convex(3, 6, 6); auto r = v[d(v.size())]; for (auto& p : r) p = p + I2{1, 2}; fill(x, MP[0], r, rot, rev, 2, 7, 8, {}); x.state(mc::H(i / 6)); });
MC_SPACE("quads", "all convex quadrilaterals on a 5x5 grid at third and half cell steps, 6 maps", 6ull * 2 * convex(4, 5, 5).size(), [](u64 i, Ctx& x) { Dec d(i); const Map& m = MP[d(NMAP)]; int U = 2 + d(2); auto& v = convex(4, 5, 5); auto r = v[d(v.size())]; for (auto& p : r) p = {2 * p.x + 1, 3 * p.y}; fill(x, m, r, i % 4, i % 3 == 0, U, 11, 14, {}); x.state(mc::H(i / NMAP)); });
static std::vector<I2> sc(std::vector<I2> r, i64 kx, i64 ky, I2 o) { for (auto& p : r) p = I2{kx * p.x, ky * p.y} + o; return r; }
MC_SPACE("holes", "a square outline with one convex quadrilateral hole of a 5x5 grid, or two triangular ones (4x4 and 3x3 grid) beside or above each other", convex(4, 5, 5).size() + 4ull * convex(3, 4, 4).size() * convex(3, 3, 3).size(), [](u64 i, Ctx& x) {
    std::vector<I2> out{{1, 1}, {25, 1}, {25, 25}, {1, 25}}; auto& q = convex(4, 5, 5); auto& t = convex(3, 4, 4); auto& u = convex(3, 3, 3); x.state(mc::H(i));
    if (i < q.size()) return fill(x, MP[0], out, i % 4, i % 2, 2, 26, 26, {sc(q[i], 5, 5, {3, 3})});
    i -= q.size(); Dec d(i); int up = d(2), sw = d(2); auto a = t[d(t.size())], b = u[d(u.size())];
    auto A = up ? sc(a, 7, 3, {2, sw ? 13 : 2}) : sc(a, 3, 7, {sw ? 13 : 2, 2}), B = up ? sc(b, 10, 5, {3, sw ? 2 : 13}) : sc(b, 5, 10, {sw ? 2 : 13, 3});
    fill(x, MP[0], out, 0, false, 2, 26, 26, {A, B}); });
MC_SPACE("hole stacks", "two upright quadrilateral holes side by side within one column of cells, every pair of vertical extents, slanted or not, and a third hole above, below or absent, every order of the holes", 36ull * 36 * 3 * 4 * 6, [](u64 i, Ctx& x) {
    Dec d(i); int o = d(6), slant = d(4), third = d(3); static std::vector<std::pair<int, int>> R; if (R.empty()) for (int a = 0; a < 9; ++a) for (int b = a + 1; b < 9; ++b) R.push_back({a, b}); auto a = R[d(36)], b = R[d(36)]; x.state(mc::H(i / 6));
    int off = third == 2 ? 16 : 4; auto Y = [&](int k) { return off + 3 * k; };
    std::vector<I2> A{{5, Y(a.first)}, {9, Y(a.first) + (slant & 1)}, {9, Y(a.second)}, {5, Y(a.second) - (slant & 1)}}, B{{10, Y(b.first) + (slant & 2)}, {15, Y(b.first)}, {15, Y(b.second) - (slant & 2) / 2}, {10, Y(b.second)}};
    std::vector<std::vector<I2>> h{A, B}; if (third == 1) h.push_back({{3, 30}, {17, 30}, {17, 42}, {3, 42}}); if (third == 2) h.push_back({{3, 2}, {17, 2}, {17, 14}, {3, 14}});
    int pr[3] = {0, 1, 2}; for (int k = 0; k < o; ++k) std::next_permutation(pr, pr + 3); std::vector<std::vector<I2>> hh; for (int k : pr) if (k < int(h.size())) hh.push_back(h[k]);
    fill(x, MP[0], {{1, 1}, {19, 1}, {19, 45}, {1, 45}}, 0, false, 4, 20, 48, hh); });
MC_SPACE("sizes", "convex polygons of 6..25 (thorough: 39) vertices around a centre and under a parabola, both windings, 3 starts, cells of 5, 8 and 13 units and 4 positions, 2 maps", 2ull * 2 * 3 * 12 * 2 * 20, 2ull * 2 * 3 * 12 * 2 * 34, [](u64 i, Ctx& x) {
    Dec d(i); const Map& m = MP[d(2) * 4]; int rev = d(2), st = d(3), U = std::array<int, 3>{5, 8, 13}[d(3)], off = d(4), kind = d(2) ? 5 : 1, n = 6 + d.v; if (kind == 5 && n > 13) n = 6 + n % 8; auto r = big_ring(kind, n); if (kind == 5 && n - 6 != int(d.v)) return x.skip();
    I2 lo = r[0], hi = r[0]; for (auto p : r) lo = {std::min(lo.x, p.x), std::min(lo.y, p.y)}, hi = {std::max(hi.x, p.x), std::max(hi.y, p.y)}; if (area2(r) < 0) std::reverse(r.begin(), r.end()); I2 o = I2{1 + off % 2 * 2, 1 + off / 2 * 3}; for (auto& p : r) p = p - lo + o;
    I2 e = hi - lo + o; fill(x, m, r, st * n / 3, rev, U, int(e.x + 2), int(e.y + 3), {}); x.state(mc::H(i)); });
// every border of a small grid, drawn in the colours, and floods from every cell
static void flood(Ctx& x, int W, int H, unsigned bits) {
    x.in("grid %d x %d, border cells %x (column by column)", W, H, bits); GT g(0, W - .5, 0, H - .5, 1);
    auto bd = [&](int i, int j) { return bits >> (i * H + j) & 1; }; floodfill_grid_traversal_helper<GT> all(g);
    auto paint = [&](floodfill_grid_traversal_helper<GT>& f) { for (int i = 0; i < W; ++i) for (int j = 0; j < H; ++j) if (bd(i, j)) f.get_color(i, j) = f.BOUNDARY + 0; };
    paint(all); int part = 0;
    for (int round = 0; round < 2; ++round) for (int a = 0; a < W * H; ++a) {
        int si = a / H, sj = a % H; std::set<Cell> want; std::vector<Cell> st{{si, sj}};
        while (!st.empty()) { Cell k = st.back(); st.pop_back(); if (k.first < 0 || k.second < 0 || k.first >= W || k.second >= H || bd(k.first, k.second) || !want.insert(k).second) continue; st.push_back({k.first + 1, k.second}); st.push_back({k.first - 1, k.second}); st.push_back({k.first, k.second + 1}); st.push_back({k.first, k.second - 1}); }
        if (!round) { floodfill_grid_traversal_helper<GT> one(g); paint(one); std::set<Cell> got; bool twice = false; bool r = one.traversal(P2(si + .5, sj + .5), [&](std::uint32_t i, std::uint32_t j) { twice |= !got.insert({int(i), int(j)}).second; });
            if (!x.check(r == !bd(si, sj) && got == want && !twice, "flood from %d %d visits %zu cells, connected %zu", si, sj, got.size(), want.size())) return; }
        std::vector<std::uint32_t> before; for (int k = 0; k < W * H; ++k) before.push_back(all.get_color(k / H, k % H));
        bool r = all.traversal(si, sj, [](std::uint32_t, std::uint32_t) {}); if (!x.check(r == !bd(si, sj), "flood from %d %d returns %d", si, sj, r)) return;
        std::set<std::uint32_t> fresh; for (int k = 0; k < W * H; ++k) { auto c = all.get_color(k / H, k % H); if (want.count({k / H, k % H})) fresh.insert(c); else if (!x.check(c == before[k], "flood from %d %d recolours %d %d", si, sj, k / H, k % H)) return; }
        if (!want.empty() && !x.check(fresh.size() == 1 && !std::count(before.begin(), before.end(), *fresh.begin()), "flood %d from %d %d colours its cells in %zu ways or as they were", round * W * H + a, si, sj, fresh.size())) return;
        if (want.size() > 1) part |= int(want.size()) < W * H - __builtin_popcount(bits) ? 2 : 1;
    }
    x.outcome(part & 2 ? "several regions" : part ? "one region" : "no region");
}
MC_SPACE("flood", "every pattern of border cells on grids of 3x4, 4x3, 2x6, 4x4, 5x3 and 3x5 cells (thorough: 5x4 too), floods from every cell twice over", (3ull << 12) + (1ull << 16) + (2ull << 15), (3ull << 12) + (1ull << 16) + (2ull << 15) + (1ull << 20), [](u64 i, Ctx& x) {
    x.state(mc::H(i)); if (i < 3u << 12) { int k = i % 3; return flood(x, k == 0 ? 3 : k == 1 ? 4 : 2, k == 0 ? 4 : k == 1 ? 3 : 6, unsigned(i / 3)); }
    i -= 3u << 12; if (i < 1u << 16) return flood(x, 4, 4, unsigned(i)); i -= 1u << 16; if (i < 1u << 15) return flood(x, 5, 3, unsigned(i)); i -= 1u << 15; if (i < 1u << 15) return flood(x, 3, 5, unsigned(i)); flood(x, 5, 4, unsigned(i - (1u << 15))); });
MC_SPACE("floods", "66001 floods one after the other of one 3x2 grid with each pattern of border cells, from its cells in turn", 64, [](u64 bits, Ctx& x) {
    const int W = 3, H = 2, N = W * H; x.in("grid %d x %d, border cells %x (column by column), 66001 floods", W, H, unsigned(bits)); GT g(0, W - .5, 0, H - .5, 1); floodfill_grid_traversal_helper<GT> f(g); auto bd = [&](int k) { return bits >> k & 1; };
    unsigned want[N] = {}; for (int k = 0; k < N; ++k) { if (bd(k)) { f.get_color(k / H, k % H) = f.BOUNDARY + 0; continue; } want[k] = 1u << k; for (bool more = true; more;) { more = false; for (int c = 0; c < N; ++c) if (want[k] >> c & 1) for (int e = 0; e < N; ++e) if (!bd(e) && !(want[k] >> e & 1) && std::abs(c / H - e / H) + std::abs(c % H - e % H) == 1) { want[k] |= 1u << e; more = true; } } }
    std::uint32_t was[N]; auto look = [&](std::uint32_t* c) { for (int k = 0; k < N; ++k) c[k] = f.get_color(k / H, k % H); }; look(was); unsigned seen = 0; // one helper reports a cell once in its life
    for (int r = 0; r < GIANT; ++r) { int s = r % N; unsigned got = 0; bool twice = false; bool ok = f.traversal(s / H, s % H, [&](std::uint32_t i, std::uint32_t j) { unsigned b = 1u << (i * H + j); twice |= got & b; got |= b; }); std::uint32_t now[N]; look(now);
        if (!x.check(ok == !bd(s) && got == (want[s] & ~seen) && !twice, "flood %d from %d %d returns %d, visits cells %x, connected %x, before %x", r, s / H, s % H, ok, got, want[s], seen)) return; seen |= got;
        for (int k = 0; k < N; ++k) { bool in = want[s] >> k & 1, fresh = true; for (int e = 0; e < N; ++e) fresh &= now[k] != was[e]; if (!x.check(in ? now[k] == now[s] && fresh : now[k] == was[k], "flood %d from %d %d: colour of %d %d is %u, was %u", r, s / H, s % H, k / H, k % H, unsigned(now[k]), unsigned(was[k]))) return; }
        std::copy(now, now + N, was); }
    x.outcome("flooded"); x.state(mc::H(bits)); });
