// H02: removal of collinear and repeated points, polyline simplification.
#include "geo.hpp"
#include <set>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/algorithm/point_sequence/remove_collinear_points.hpp>
#include <geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp>
using namespace gx;
typedef std::vector<I2> R;
template <class C> static std::string SS(const C& c) { std::string s; char b[80]; if (c.size() > 1000) return std::to_string(c.size()) + " points"; for (auto& p : c) { snprintf(b, sizeof b, "(%.12g,%.12g)", X(p), Y(p)); s += b; } return s; }
template <class C> static bool seq(const C& c, const R& r, const Frame& f, size_t off = 0) { if (c.size() != r.size()) return false; for (size_t i = 0; i < r.size(); ++i) if (!same(c[i], f(r[(i + off) % r.size()]))) return false; return true; }
template <class C> static bool cyc(const C& c, const R& r, const Frame& f) { for (size_t o = 0; o < r.size(); ++o) if (seq(c, r, f, o)) return true; return false; }
static R rotate(R r, size_t k) { std::rotate(r.begin(), r.begin() + k % r.size(), r.end()); return r; }
// a ring with corners c, coordinates times 2: bit j of mid adds the middle of edge j, bit j of dup repeats corner j, two > 1: also a quarter point
static int PM = -1, PD = -1; struct Pattern { Pattern(int m, int d) { PM = m; PD = d; } ~Pattern() { PM = PD = -1; } }; // extra and repeated points by pattern instead of by digits
static int extra(int j, i128& mid) { if (PM >= 0) return PM == 0 ? 0 : PM == 1 ? 1 : PM == 2 ? 2 * (j % 3 == 0) : (j % 3 * j + 1) % 3; int m = mid % 3; mid /= 3; return m; }
static bool twice(int j, u64 dup) { return PD >= 0 ? PD == 1 || (PD == 2 && j % 3 == 0) : dup >> j & 1; }
static R decorate(const R& c, i128 mid, u64 dup, bool open) { R r; int n = c.size(); for (int j = 0; j < n; ++j) { I2 a = 4 * c[j], b = 4 * c[(j + 1) % n]; r.push_back(a); if (twice(j, dup)) r.push_back(a); if (open && j == n - 1) break; int m = extra(j, mid); I2 d = b - a; I2 h{a.x + d.x / 2, a.y + d.y / 2}; if (m == 2) r.push_back({a.x + d.x / 4, a.y + d.y / 4}); if (m) r.push_back(h); } return r; }
static R times4(R c) { for (auto& p : c) p = 4 * p; return c; }
static void ring(Ctx& x, const R& corners, i128 mid, u64 dup, int rot, const Frame& f) {
    R full = rotate(decorate(corners, mid, dup, false), rot), want = times4(corners), nodup; for (size_t i = 0; i < full.size(); ++i) if (full[i] != full[(i + full.size() - 1) % full.size()]) nodup.push_back(full[i]);
    x.in("polygon %s, %s", str(full).c_str(), f.name); AbsCmp cmp(1e-8); G2 g = mk<G2>(full, f);
    if (full.size() < 4) return x.skip();
    G2 a = remove_collinear_points_polygon(g, cmp); x.check(cyc(a, want, f), "collinear points removed: %s, corners %s", SS(a).c_str(), str(want).c_str());
    G2 b = coalesce_adjacent_points_polygon(g, cmp); x.check(cyc(b, nodup, f), "repeated points removed: %s, expected %s", SS(b).c_str(), str(nodup).c_str());
    G2 c = clean_polygon(g, cmp); x.check(cyc(c, want, f), "cleaned: %s, corners %s", SS(c).c_str(), str(want).c_str());
    { auto s = identify_collinear_points_polygon(g, cmp); G2 k; for (size_t i = 0; i < g.size(); ++i) if (!s.count(i)) k.push_back(g[i]); x.check(cyc(k, want, f), "without the identified collinear points: %s, corners %s", SS(k).c_str(), str(want).c_str()); }
    { auto s = identify_adjacent_points_polygon(g, cmp); G2 k; for (size_t i = 0; i < g.size(); ++i) if (!s.count(i)) k.push_back(g[i]); x.check(cyc(k, nodup, f), "without the identified repeated points: %s, expected %s", SS(k).c_str(), str(nodup).c_str()); }
    x.outcome(want.size() < full.size() ? "points removed" : "nothing to remove");
}
static std::vector<R> corner_rings(int k, int W) { std::vector<R> v; for (auto& r : simple_rings(k, W, W, true)) { bool ok = true; for (int i = 0; i < k; ++i) ok = ok && orient(r[i], r[(i + 1) % k], r[(i + 2) % k]) != 0; if (ok) v.push_back(r); } return v; }
static const std::vector<R>& cr(int k, int W) { static std::map<int, std::vector<R>> m; auto& v = m[k * 10 + W]; if (v.empty()) v = corner_rings(k, W); return v; }
static void rcase(u64 i, Ctx& x, int k, int W, int nf) { Dec d(i); const Frame& f = FR[nf == 8 ? d(8) : d(2) * 5]; int p3 = 1; for (int j = 0; j < k; ++j) p3 *= 3; int dup = d(1 << k), mid = d(p3), rot = d(3 * k); const R& c = cr(k, W)[d(cr(k, W).size())]; ring(x, c, mid, dup, rot, f); x.state(mc::H(i, k)); }
MC_SPACE("triangles", "all triangles of a 3x3 grid with no, one or two extra points on each edge and any corners repeated, 9 starting points, 8 frames", 8ull * 8 * 27 * 9 * cr(3, 3).size(), [](u64 i, Ctx& x) { rcase(i, x, 3, 3, 8); });
MC_SPACE("quads", "all quadrilaterals of a 3x3 grid without straight corners, extra and repeated points as above, 12 starting points", 2ull * 16 * 81 * 12 * cr(4, 3).size(), [](u64 i, Ctx& x) { rcase(i, x, 4, 3, 2); });
MC_SPACE("pentagons", "all pentagons of a 3x3 grid without straight corners, extra and repeated points, 15 starting points", 0, 2ull * 32 * 243 * 15 * cr(5, 3).size(), [](u64 i, Ctx& x) { rcase(i, x, 5, 3, 2); });
static void tail(u64 i, Ctx& x) { // runs of repeated points at the ends
    Dec d(i); const Frame& f = FR[d(8)]; R c = cr(3, 3)[d(cr(3, 3).size())], r; int n[3]; for (int j = 0; j < 3; ++j) n[j] = 1 + d(3); int sh = d(3); for (int j = 0; j < 3; ++j) for (int m = 0; m < n[j]; ++m) r.push_back(4 * c[j]); r = rotate(r, sh); R full = r; if (full.size() < 4) return x.skip();
    x.in("polygon %s, %s", str(full).c_str(), f.name); AbsCmp cmp(1e-8); G2 g = mk<G2>(full, f), b = coalesce_adjacent_points_polygon(g, cmp), e = clean_polygon(g, cmp); R want = times4(c); x.check(cyc(b, want, f), "repeated points removed: %s", SS(b).c_str()); x.check(cyc(e, want, f), "cleaned: %s", SS(e).c_str());
    auto s = identify_adjacent_points_polygon(g, cmp); x.check(s.size() == full.size() - 3, "%zu repeated points identified", s.size()); x.state(mc::H(i, 77)); }
MC_SPACE("runs", "all triangles of a 3x3 grid with every corner given one to three times, 3 starting points", 8ull * 27 * 3 * cr(3, 3).size(), tail);
static void chainof(Ctx& x, const R& c, i128 mid, u64 dup, const Frame& f) {
    int k = c.size();
    for (int j = 1; j < k; ++j) if (c[j] == c[j - 1]) return x.skip(); for (int j = 2; j < k; ++j) if (!orient(c[j - 2], c[j - 1], c[j])) return x.skip();
    R full = decorate(c, mid, dup, true), want = times4(c), nodup; for (size_t j = 0; j < full.size(); ++j) if (!j || full[j] != full[j - 1]) nodup.push_back(full[j]);
    x.in("polyline %s, %s", str(full).c_str(), f.name); AbsCmp cmp(1e-8); L2 l = mk<L2>(full, f); if (full.size() < 3) return x.skip();
    L2 a = remove_collinear_points_polyline(l, cmp), b = coalesce_adjacent_points_polyline(l, cmp), e = clean_polyline(l, cmp);
    x.check(seq(e, want, f), "cleaned: %s, corners %s", SS(e).c_str(), str(want).c_str()); x.check(seq(b, nodup, f), "repeated points removed: %s, expected %s", SS(b).c_str(), str(nodup).c_str());
    x.check(seq(a, want, f), "collinear points removed: %s, corners %s", SS(a).c_str(), str(want).c_str()); x.outcome(want.size() < full.size() ? "points removed" : "nothing to remove"); }
static void chain(u64 i, Ctx& x, int k, int W) {
    Dec d(i); const Frame& f = FR["\0\5\1"[d(3)]]; R c; for (int j = 0; j < k; ++j) c.push_back(gp(d(W * W), W)); int p3 = 1; for (int j = 1; j < k; ++j) p3 *= 3; int dup = d(1 << k), mid = d(p3);
    chainof(x, c, mid, dup, f); x.state(mc::H(i, k, 5)); }
MC_SPACE("chains", "all polylines of 2 points of a 4x4 grid, 3 of a 3x3 grid and 4 of a 2x2 grid without straight corners, extra points on segments, repeated points", 3ull * (256 * 4 * 3 + 729 * 8 * 9 + 256 * 16 * 27), [](u64 i, Ctx& x) { u64 a = 3 * 256 * 12, b = 3 * 729 * 72; if (i < a) chain(i, x, 2, 4); else if (i < a + b) chain(i - a, x, 3, 3); else chain(i - a - b, x, 4, 2); });
MC_SPACE("chains-thin", "all polylines of 3 points of a 3x3 grid stretched 150 times without straight corners, extra points on segments, repeated points", 3ull * 729 * 72, [](u64 i, Ctx& x) { Stretch s(150); chain(i, x, 3, 3); });
MC_SPACE("chains4", "all polylines of 4 points of a 3x3 grid without straight corners, extra and repeated points", 3ull * 16 * 27 * 1000, 3ull * 16 * 27 * 6561, [](u64 i, Ctx& x) { chain(i, x, 4, 3); });
// Ramer-Douglas-Peucker: all results of the definition (ties of the farthest point may go either way)
static Q line2(I2 a, I2 b, I2 p) { if (a == b) return Q(dot(p - a, p - a)); i64 c = cross(b - a, p - a); return Q(i128(c) * c, i128(dot(b - a, b - a))); }
static void rdp(const R& r, size_t s, size_t e, Q eps2, std::set<std::vector<int>>& out) { // inclusive ends; results without e
    out.clear(); Q m(0); for (size_t i = s + 1; i < e; ++i) m = qmax(m, line2(r[s], r[e], r[i]));
    if (!(m > eps2)) { out.insert({int(s)}); return; }
    for (size_t i = s + 1; i < e; ++i) if (line2(r[s], r[e], r[i]) == m) { std::set<std::vector<int>> a, b; rdp(r, s, i, eps2, a); rdp(r, i, e, eps2, b); for (auto& u : a) for (auto& v : b) { auto w = u; w.insert(w.end(), v.begin(), v.end()); out.insert(w); } }
}
static void simp(u64 i, Ctx& x, int k, int W) {
    Dec d(i); const Frame& f = FR["\0\5\1"[d(3)]]; if (NM && !f.exact) return x.skip(); R r; for (int j = 0; j < k; ++j) r.push_back(gp(d(W * W), W)); for (int j = 1; j < k; ++j) if (r[j] == r[j - 1]) return x.skip();
    x.in("polyline %s, %s", str(r).c_str(), f.name); L2 l = mk<L2>(r, f);
    for (int q : {1, 23, 67, 119, 197, 331}) { // epsilon = q/100
        L2 s = ramer_douglas_peucker_algorithm(l, q / 100. * f.scale); std::set<std::vector<int>> all; rdp(r, 0, k - 1, Q(q * q, 10000), all); bool ok = false;
        for (auto v : all) { v.push_back(k - 1); R w; for (int j : v) w.push_back(r[j]); ok = ok || seq(s, w, f); }
        x.check(ok, "simplified with %d/100: %s", q, SS(s).c_str()); x.outcome(s.size() < r.size() ? "simplified" : "kept"); }
    x.state(mc::H(i, k, 9)); }
MC_SIZES("sizes", BIG ", without straight corners, extra points on edges in 4 patterns, repeated points in 3, 2 frames", 24 * BIGQ / 20, 20, 40, [](u64 i, Ctx& x) {
    Dec d(i); const Frame& f = FR[d(2) * 3]; int pm = d(4), pd = d(3); bool ch; auto r = big_any(d, &ch); if (r.empty()) return x.skip(); int n = r.size(); for (int j = 0; j < n; ++j) if ((!ch || j + 2 < n) && !orient(r[j], r[(j + 1) % n], r[(j + 2) % n])) return x.skip();
    Pattern pat(pm, pd); if (ch) chainof(x, r, 0, 0, f); else ring(x, r, 0, 0, 0, f); x.state(mc::H(i)); });
MC_SPACE("giant", "rings and chains of 66001 corners (combs, stairs, zigzags), both directions, extra points on edges in 4 patterns, repeated points in 3", 4ull * 3 * 2 * 4, [](u64 i, Ctx& x) {
    Dec d(i); int pm = d(4), pd = d(3); bool rev = d(2); int kind = d(4), n = GIANT + !kind; bool ch = kind > 1; auto r = turned(ch ? big_chain(kind == 2 ? 0 : 2, n) : big_ring(3 * kind, n), 0, rev); for (int j = 0; j < n; ++j) if ((!ch || j + 2 < n) && !orient(r[j], r[(j + 1) % n], r[(j + 2) % n])) return x.skip(); Pattern pat(pm, pd); if (ch) chainof(x, r, 0, 0, FR[0]); else ring(x, r, 0, 0, 0, FR[0]); x.state(mc::H(i)); });
// the kept indices are a result of the definition: each decision is checked on its own
static bool rdpok(const R& r, const std::vector<int>& keep, int s, int e, Q eps2, bool& tie) {
    Q m(0); for (int i = s + 1; i < e; ++i) m = qmax(m, line2(r[s], r[e], r[i])); auto lo = std::upper_bound(keep.begin(), keep.end(), s), hi = std::lower_bound(keep.begin(), keep.end(), e); tie = tie || m == eps2;
    if (!(m > eps2)) return lo == hi; for (auto it = lo; it != hi; ++it) if (line2(r[s], r[e], r[*it]) == m && rdpok(r, keep, s, *it, eps2, tie) && rdpok(r, keep, *it, e, eps2, tie)) return true; return false; }
MC_SIZES("simplifysizes", BIG ", as polylines, 6 tolerances, 2 frames", 2 * BIGQ / 20, 20, 40, [](u64 i, Ctx& x) {
    Dec d(i); const Frame& f = FR[d(2) * 3]; auto r = big_any(d); if (r.empty()) return x.skip(); int n = r.size(); x.in("polyline %s, %s", x.verbose ? str(r).c_str() : "", f.name); L2 l = mk<L2>(r, f);
    for (int q : {1, 67, 197, 331, 1009, 3001}) { L2 s = ramer_douglas_peucker_algorithm(l, q / 100. * f.scale); std::vector<int> keep; int j = 0; for (auto& p : s) { while (j < n && !same(p, f(r[j]))) ++j; if (j < n) keep.push_back(j++); }
        bool tie = false, ok = keep.size() == s.size() && keep.size() >= 2 && !keep.front() && keep.back() == n - 1 && rdpok(r, keep, 0, n - 1, Q(q * q, 10000), tie); x.check(ok || tie, "simplified with %d/100: %s", q, SS(s).c_str()); x.outcome(keep.size() < r.size() ? "simplified" : "kept"); }
    x.state(mc::H(i)); });
MC_SPACE("simplify3", "all polylines of 2 and 3 points of a 4x4 grid, 6 tolerances", 3ull * (256 + 4096), [](u64 i, Ctx& x) { if (i < 768) simp(i, x, 2, 4); else simp(i - 768, x, 3, 4); });
MC_SPACE("simplify4", "all polylines of 4 points of a 3x3 grid", 3ull * 6561, [](u64 i, Ctx& x) { simp(i, x, 4, 3); });
MC_SPACE("simplify-thin", "all polylines of 4 points of a 3x3 grid stretched 150 times", 3ull * 6561, [](u64 i, Ctx& x) { Stretch s(150); simp(i, x, 4, 3); });
MC_SPACE("simplify5", "all polylines of 5 points of a 3x3 grid", 3ull * 59049, [](u64 i, Ctx& x) { simp(i, x, 5, 3); });
MC_SPACE("simplify6", "all polylines of 6 points of a 3x3 grid", 0, 3ull * 531441, [](u64 i, Ctx& x) { simp(i, x, 6, 3); });
MC_SPACE("simplify-near", "all polylines of 4 points of a 4x4 grid of near coincidences (columns and rows in pairs one step apart, 256 steps between pairs), 2 exact frames", 3ull * 65536, [](u64 i, Ctx& x) { Near m(256); simp(i, x, 4, 4); });
