// G02: triangle meshes: locating points, adjacency, random positions, visible vertices.
#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/mesh_2d.hpp>
#include <geometrix/algorithm/visible_vertices_mesh_search.hpp>
using namespace gx;
typedef std::vector<I2> R; typedef std::array<int, 3> T; typedef std::vector<T> Ts;
typedef mesh_2d<double> M; struct sparse_traits { using cache_t = triangle_grid_cache<double, sparse_grid_type_generator>; }; typedef mesh_2d<double, sparse_traits> MS;
// all triangulations of a simple ring by its diagonals
static bool diagonal(const R& r, int i, int j) { int n = r.size(); I2 a = r[i], b = r[j]; for (int k = 0; k < n; ++k) { int l = (k + 1) % n; if (k != i && k != j && on_seg(a, b, r[k])) return false; if (k == i || k == j || l == i || l == j) continue; if (segs_meet(a, b, r[k], r[l])) return false; } return ring_side(r, Q2(Q(a.x + b.x, 2), Q(a.y + b.y, 2))) > 0; }
static void triang(const R& r, const std::vector<int>& poly, std::vector<Ts>& out) { // poly: indices of a sub polygon
    int m = poly.size(); if (m < 3) { out.push_back({}); return; } int a = poly[0], b = poly[m - 1]; // the triangle on edge b-a
    for (int k = 1; k + 1 < m; ++k) { int c = poly[k]; if (orient(r[a], r[c], r[b]) == 0) continue; int n = r.size(); auto good = [&](int i, int j) { return (i + 1) % n == j || (j + 1) % n == i || diagonal(r, i, j); }; if (!good(a, c) || !good(c, b)) continue;
        bool any = false; for (int q = 0; q < n; ++q) if (q != a && q != b && q != c) { int o1 = sgn(orient(r[a], r[c], r[q])), o2 = sgn(orient(r[c], r[b], r[q])), o3 = sgn(orient(r[b], r[a], r[q])); int s = sgn(orient(r[a], r[c], r[b])); if (o1 * s >= 0 && o2 * s >= 0 && o3 * s >= 0) any = true; } if (any) continue;
        std::vector<Ts> L, Rr; triang(r, std::vector<int>(poly.begin(), poly.begin() + k + 1), L); triang(r, std::vector<int>(poly.begin() + k, poly.end()), Rr); for (auto& u : L) for (auto& v : Rr) { Ts t = u; t.push_back({a, c, b}); t.insert(t.end(), v.begin(), v.end()); out.push_back(t); } } }
struct Mesh { R pts; Ts tri; };
static std::vector<Mesh> ring_meshes(int k, int W, int sc) { std::vector<Mesh> v; for (auto& r0 : simple_rings(k, W, W, true)) { R r; for (auto p : r0) r.push_back(sc * p); std::vector<int> id; for (int i = 0; i < k; ++i) id.push_back(i); std::vector<Ts> t; triang(r, id, t); for (auto& u : t) if ((int)u.size() == k - 2) v.push_back({r, u}); } return v; }
static const std::vector<Mesh>& rm(int k, int W) { static std::map<int, std::vector<Mesh>> m; auto& v = m[k * 10 + W]; if (v.empty()) v = ring_meshes(k, W, 2); return v; }
// squares of a W x H lattice, each cut by one of its diagonals; keep: which triangles are there
static Mesh lattice(int W, int H, u64 diag, u64 keep) { Mesh m; for (int y = 0; y <= H; ++y) for (int x = 0; x <= W; ++x) m.pts.push_back({2 * x, 2 * y}); int n = 0; for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x, ++n) { int a = y * (W + 1) + x, b = a + 1, c = b + W + 1, d = a + W + 1; T t[2]; if (diag >> n & 1) { t[0] = {a, b, d}; t[1] = {b, c, d}; } else { t[0] = {a, b, c}; t[1] = {a, c, d}; } for (int q = 0; q < 2; ++q) if (keep >> (2 * n + q) & 1) m.tri.push_back(t[q]); } return m; }
static int tri_side(const Mesh& m, const T& t, const Q2& p) { int s = sgn(orient(m.pts[t[0]], m.pts[t[1]], m.pts[t[2]])); int lo = 1; for (int i = 0; i < 3; ++i) { Q2 a(m.pts[t[i]]), b(m.pts[t[(i + 1) % 3]]); lo = std::min(lo, s * cross(b - a, p - a).sg()); } return lo; }
static std::string ms(const Mesh& m) { std::string s = str(m.pts); char b[64]; for (auto& t : m.tri) { snprintf(b, sizeof b, " %d-%d-%d", t[0], t[1], t[2]); s += b; } return s; }
static std::vector<std::size_t> indices(const Ts& tri, int how, bool degenerate) { std::vector<std::size_t> v; for (size_t i = 0; i < tri.size(); ++i) { int h = (how + i * (how ? 1 : 0)) % 6; const T& t = tri[i]; int a = t[h % 3], b = t[(h + 1) % 3], c = t[(h + 2) % 3]; if (h >= 3) std::swap(b, c); if (degenerate && i % 2 == 0) { v.push_back(b); v.push_back(c); v.push_back(b); } v.push_back(a); v.push_back(b); v.push_back(c); } return v; }
static std::vector<P2> pts(const Mesh& m, const Frame& f) { std::vector<P2> v; for (auto p : m.pts) v.push_back(f(p)); return v; }
template <class MM> static void structure(Ctx& x, const Mesh& m, const MM& g, const Frame& f) {
    size_t n = m.tri.size(); x.check(g.get_number_triangles() == n && g.get_number_vertices() == m.pts.size(), "%zu triangles", g.get_number_triangles()); if (g.get_number_triangles() != n) return;
    auto& adj = const_cast<MM&>(g).get_adjacency_matrix();
    for (size_t i = 0; i < n; ++i) { auto t = g.get_triangle_indices(i); T s = m.tri[i], u = {(int)t[0], (int)t[1], (int)t[2]}; T ss = s, uu = u; std::sort(ss.begin(), ss.end()); std::sort(uu.begin(), uu.end()); x.check(ss == uu && orient(m.pts[u[0]], m.pts[u[1]], m.pts[u[2]]) * f.orient > 0, "triangle %zu: %d-%d-%d", i, u[0], u[1], u[2]);
        for (int e = 0; e < 3; ++e) { x.check(same(g.get_triangle_vertices(i)[e], f(m.pts[u[e]])), "vertex of triangle %zu", i); size_t want = ~size_t(0); int a = u[e], b = u[(e + 1) % 3]; for (size_t j = 0; j < n; ++j) if (j != i) { auto& q = m.tri[j]; if (std::count(q.begin(), q.end(), a) && std::count(q.begin(), q.end(), b)) want = j; } x.check(adj[i][e] == want, "neighbour of triangle %zu at side %d: %zd", i, e, (ssize_t)adj[i][e]); if (want != ~size_t(0)) { auto sd = get_triangle_adjacent_side(t, g.get_triangle_indices(want)); x.check(sd == (size_t)e, "side of triangle %zu shared with %zu: %zu", i, want, sd); } } } }
template <class MM> static void locate(Ctx& x, const Mesh& m, const MM& g, const Frame& f, const R& q) { AbsCmp cmp(1e-9); for (I2 p : q) { bool in = false; for (auto& t : m.tri) in = in || tri_side(m, t, Q2(p)) >= 0; auto r = g.find_triangle(f(p), cmp); x.check(bool(r) == in && (!r || (*r < m.tri.size() && tri_side(m, m.tri[*r], Q2(p)) >= 0)), "triangle holding " PF ": %d", PA(p), r ? (int)*r : -1); } }
template <class MM> static void random_pos(Ctx& x, const Mesh& m, const MM& g, const Frame& f) { i64 tot = 0; std::vector<i64> acc; for (auto& t : m.tri) { tot += std::llabs(orient(m.pts[t[0]], m.pts[t[1]], m.pts[t[2]])); acc.push_back(tot); }
    for (int k = 0; k <= 24; ++k) { double rT = k / 24.; std::vector<int> ok; for (size_t i = 0; i < acc.size(); ++i) if (Q(k, 24) >= Q(i ? acc[i - 1] : 0, tot) && Q(k, 24) <= Q(acc[i], tot)) ok.push_back(i); // an end of a range may go either way
        for (double r1 : {0., .04, .25, .64, 1.}) for (double r2 : {0., .3, 1.}) { P2 p = g.get_random_position(rT, r1, r2); bool hit = false; for (int i : ok) { auto t = g.get_triangle_vertices(i); double s = std::sqrt(r1), w[3] = {1 - s, s * (1 - r2), s * r2}; P2 q(0, 0); double qx = 0, qy = 0; for (int e = 0; e < 3; ++e) { qx += w[e] * X(t[e]); qy += w[e] * Y(t[e]); } hit = hit || same(p, P2(qx, qy)); } x.check(hit, "random position of %d/24 %g %g: (%.12g,%.12g)", k, r1, r2, X(p), Y(p)); } } }
// ---- meshes of polygons
static R box(I2 lo, I2 hi) { R q; for (i64 py = lo.y; py <= hi.y; ++py) for (i64 px = lo.x; px <= hi.x; ++px) q.push_back({px, py}); return q; }
static void mesh(Ctx& x, const Mesh& m, const Frame& f, int how, bool deg, const R& q) { x.in("mesh %s, order %d%s, %s", ms(m).c_str(), how, deg ? " with degenerate triangles" : "", f.name); AbsCmp cmp(1e-9); auto id = indices(m.tri, how, deg); M g(pts(m, f), id, cmp); MS s(pts(m, f), id, cmp); structure(x, m, g, f); if (g.get_number_triangles() != m.tri.size()) return; locate(x, m, g, f, q); locate(x, m, s, f, q); random_pos(x, m, g, f); x.outcome((int)std::min<size_t>(m.tri.size(), 20)); }
static const int FS[] = {0, 2, 4, 5, 6, 7};
static void mcase(u64 i, Ctx& x, int k, int W, int nf) { Dec d(i); const Frame& f = FR[FS[d(nf)]]; int how = d(6); bool deg = d(2); i64 s = 2 * W; mesh(x, rm(k, W)[d(rm(k, W).size())], f, how, deg, box({-1, -1}, {s, s})); x.state(mc::H(i, k, W)); }
MC_SPACE("triangles", "meshes of one triangle of a 3x3 grid, in 6 orders, with and without degenerate triangles, all points at half steps, 6 frames", 6ull * 12 * rm(3, 3).size(), [](u64 i, Ctx& x) { mcase(i, x, 3, 3, 6); });
MC_SPACE("quads", "all triangulations of all quadrilaterals of a 3x3 grid", 6ull * 12 * rm(4, 3).size(), [](u64 i, Ctx& x) { mcase(i, x, 4, 3, 6); });
MC_SPACE("pentagons", "all triangulations of all pentagons of a 3x3 grid, 3 frames", 3ull * 12 * rm(5, 3).size(), [](u64 i, Ctx& x) { mcase(i, x, 5, 3, 3); });
MC_SPACE("hexagons", "all triangulations of all hexagons of a 3x3 grid, 1 frame", 0, 12ull * rm(6, 3).size(), [](u64 i, Ctx& x) { mcase(i, x, 6, 3, 1); });
MC_SPACE("lattices", "all sets of triangles of a 2x2 square lattice (all diagonals, all subsets, holes and touching parts), all points at half steps, 2 frames", 2ull * 16 * 256, [](u64 i, Ctx& x) { Dec d(i); const Frame& f = FR[d(2) * 5]; int dg = d(16), kp = d(256); if (!kp) return x.skip(); mesh(x, lattice(2, 2, dg, kp), f, (dg + kp) % 6, false, box({-1, -1}, {5, 5})); x.state(mc::H(i, 22)); });
MC_SPACE("lattices3", "all sets of triangles of a 3x2 square lattice", 0, 64ull * 4096, [](u64 i, Ctx& x) { Dec d(i); int dg = d(64), kp = d(4096); if (!kp) return x.skip(); mesh(x, lattice(3, 2, dg, kp), FR[0], (dg + kp) % 6, false, box({-1, -1}, {7, 5})); x.state(mc::H(i, 32)); });
// ---- visible vertices
static void visible(Ctx& x, const Mesh& m, const Frame& f, int how, I2 o) {
    x.in("mesh %s, order %d, origin " PF ", %s", ms(m).c_str(), how, PA(o), f.name); AbsCmp cmp(1e-9); M g(pts(m, f), indices(m.tri, how, false), cmp); auto st = g.find_triangle(f(o), cmp); bool in = false; for (auto& t : m.tri) in = in || tri_side(m, t, Q2(o)) >= 0; if (!in) return x.skip(); if (!x.check(bool(st), "origin not located")) return;
    visible_vertices_mesh_search<visible_vertices_mesh_search_traits<double, M, AbsCmp>> s(f(o), *st, g); g.search(s); std::vector<bool> got(m.pts.size(), false); for (auto v : s.get_vertices()) got[v] = true;
    for (size_t v = 0; v < m.pts.size(); ++v) { bool used = false; for (auto& t : m.tri) used = used || std::count(t.begin(), t.end(), (int)v); if (!used) continue; // closed visibility: the parameters covered by the triangles
        std::vector<Q> cut = {Q(0), Q(1)}; Q2 A(o), B(m.pts[v]), D = B - A; for (auto& t : m.tri) for (int e = 0; e < 3; ++e) { Q2 c(m.pts[t[e]]), d(m.pts[t[(e + 1) % 3]]); Q den = cross(D, d - c); if (den.sg() == 0) { Q l = dot(D, D); if (l.sg()) { cut.push_back(dot(c - A, D) / l); cut.push_back(dot(d - A, D) / l); } continue; } cut.push_back(cross(c - A, d - c) / den); } std::sort(cut.begin(), cut.end());
        bool vis = true; for (size_t q = 0; q + 1 < cut.size(); ++q) { if (cut[q] == cut[q + 1] || cut[q] < Q(0) || cut[q + 1] > Q(1)) continue; Q mid = (cut[q] + cut[q + 1]) * Q(1, 2); Q2 p = A + mid * D; bool c = false; for (auto& t : m.tri) c = c || tri_side(m, t, p) >= 0; vis = vis && c; }
        x.check(got[v] == vis, "vertex " PF " %s", PA(m.pts[v]), vis ? "visible, not reported" : "reported, not visible"); x.outcome(vis ? "visible" : "hidden"); }
}
static void vcase(u64 i, Ctx& x, int k, int W) { Dec d(i); const Frame& f = FR[d(2) * 2]; int how = d(2) * 4; int s = 2 * W - 1; I2 o = gp(d(s * s), s); const Mesh& m = rm(k, W)[d(rm(k, W).size())]; visible(x, m, f, how, o); x.state(mc::H(i, k, W, 7)); }
MC_SPACE("visible34", "all triangulations of all triangles and quadrilaterals of a 3x3 grid, all origins at half steps in the polygon", 4ull * 25 * (rm(3, 3).size() + rm(4, 3).size()), [](u64 i, Ctx& x) { u64 a = 100 * rm(3, 3).size(); if (i < a) vcase(i, x, 3, 3); else vcase(i - a, x, 4, 3); });
MC_SPACE("visible5", "all triangulations of all pentagons of a 3x3 grid, all origins at half steps", 100ull * rm(5, 3).size(), [](u64 i, Ctx& x) { vcase(i, x, 5, 3); });
MC_SPACE("visible6", "all triangulations of all hexagons of a 3x3 grid, all origins at half steps", 100ull * rm(6, 3).size(), [](u64 i, Ctx& x) { vcase(i, x, 6, 3); });
MC_SPACE("visible7", "all triangulations of all heptagons of a 3x3 grid, all origins at half steps", 0, 100ull * rm(7, 3).size(), [](u64 i, Ctx& x) { vcase(i, x, 7, 3); });
static void lcase(u64 i, Ctx& x, int W, int H, int hole) { Dec d(i); int how = d(2) * 4; int sx = 2 * W + 1, sy = 2 * H + 1; int ox = d(sx), oy = d(sy); u64 keep = ~u64(0); if (hole >= 0) keep &= ~(u64(3) << 2 * hole); visible(x, lattice(W, H, d.v, keep), FR[0], how, {ox, oy}); x.state(mc::H(i, W, H, 8)); }
MC_SPACE("visible-lattice", "2x2 and 3x2 square lattices with all diagonals, all origins at half steps", 2ull * (25 * 16 + 35 * 64), [](u64 i, Ctx& x) { if (i < 800) lcase(i, x, 2, 2, -1); else lcase(i - 800, x, 3, 2, -1); });
MC_SPACE("visible-hole", "3x3 square lattice without its middle square, all diagonals, all origins at half steps", 2ull * 49 * 512, [](u64 i, Ctx& x) { lcase(i, x, 3, 3, 4); });
MC_SPACE("visible-lattice3", "3x3 square lattice, all diagonals, all origins at half steps", 0, 2ull * 49 * 512, [](u64 i, Ctx& x) { lcase(i, x, 3, 3, -1); });
// meshes of many triangles: the first ear from a varying place is cut off again and again
static Mesh ears(const R& r, int st) { Mesh m; m.pts = r; std::vector<int> id; for (int i = 0; i < (int)r.size(); ++i) id.push_back(i); int ori = sgn(area2(r)), at = st;
    while (id.size() > 3) { bool cut = false; int n = id.size(); for (int k = 0; k < n && !cut; ++k) { int j = (at + k) % n, a = id[(j + n - 1) % n], b = id[j], c = id[(j + 1) % n]; if (sgn(orient(r[a], r[b], r[c])) != ori) continue; bool empty = true; for (int q : id) if (q != a && q != b && q != c && sgn(orient(r[a], r[b], r[q])) * ori >= 0 && sgn(orient(r[b], r[c], r[q])) * ori >= 0 && sgn(orient(r[c], r[a], r[q])) * ori >= 0) { empty = false; break; } if (!empty) continue; m.tri.push_back({a, b, c}); id.erase(id.begin() + j); at = j + st; cut = true; } if (!cut) return {}; }
    if (orient(r[id[0]], r[id[1]], r[id[2]]) == 0) return {}; m.tri.push_back({id[0], id[1], id[2]}); return m; }
static Mesh bigmesh(Dec& d) { int st = d(3), kind = d(6), n = big_n(d.v); if (!big_ok(kind, n) || (kind == 3 && n > 200)) return {}; R r = big_ring(kind, n); for (auto& p : r) p = 2 * p; return ears(r, st); }
MC_SIZES("sizes", "triangulated combs, convex rings, stars, stairs, ribbons, parabolas of 6..25 (thorough: 45) vertices, ears cut in 3 orders, in 2 orders of indices, points next to and between all vertices, 2 frames", 2ull * 2 * 18, 20, 40, [](u64 i, Ctx& x) { Dec d(i); const Frame& f = FR[d(2) * 2]; int how = d(2) * 4; Mesh m = bigmesh(d); if (m.tri.empty()) return x.skip(); auto q = around(m.pts, true); if (m.pts.size() > 45) { R h; for (size_t k = i % 7; k < q.size(); k += 7) h.push_back(q[k]); q = h; } mesh(x, m, f, how, how == 4, q); x.state(mc::H(i)); });
MC_SPACE("visible-sizes", "triangulated combs, convex rings, stars, stairs, ribbons, parabolas of 6..17 (thorough: 30) vertices, ears cut in 3 orders, all points next to and between the vertices as origins, every ninth of them to a case", 9ull * 18 * 12, 9ull * 18 * 25, [](u64 i, Ctx& x) { Dec d(i); int part = d(9); Mesh m = bigmesh(d); if (m.tri.empty()) return x.skip(); auto q = around(m.pts, true); for (size_t k = part; k < q.size(); k += 9) { bool in = false; for (auto& t : m.tri) in = in || tri_side(m, t, Q2(q[k])) >= 0; if (!in) continue; visible(x, m, FR[0], 0, q[k]); if (x.failed) return; } x.state(mc::H(i)); });
