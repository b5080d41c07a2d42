// C03: a polygon or polyline lies inside a polygon (border included).
#include "geo.hpp"
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/point_sequence/polygon_polygon_containment.hpp>
#include <geometrix/algorithm/point_sequence/polygon_polyline_containment.hpp>
using namespace gx;
typedef std::vector<std::vector<I2>> Rings;
static Rings cat(std::initializer_list<Rings> l) { Rings r; for (auto& a : l) r.insert(r.end(), a.begin(), a.end()); return r; }
static const Rings& small() { static Rings r = cat({simple_rings(3, 3, 4), simple_rings(4, 3, 4)}); return r; }
static const Rings& tri() { static Rings r = simple_rings(3, 4, 4); return r; }
static const Rings& quad() { static Rings r = simple_rings(4, 4, 4); return r; }
static const Rings& penta() { static Rings r = simple_rings(5, 3, 4); return r; }
static const Rings& penta4() { static Rings r = simple_rings(5, 4, 4); return r; }
static const Rings& hexa() { static Rings r = simple_rings(6, 3, 3); return r; }
static const int FI[] = {0, 5, 9, 1};

static bool inside(const std::vector<I2>& in, const std::vector<I2>& out, bool closed) {
    int n = in.size();
    for (int i = 0; i + (closed ? 0 : 1) < n; ++i) if (!seg_in_ring(out, in[i], in[(i + 1) % n])) return false;
    return true;
}
static void pair(u64 i, Ctx& x, const Rings& A, const Rings& B, int nf) {
    Dec d(i); int fi = FI[d(nf)]; auto& a = A[d(A.size())]; auto& b = B[d(B.size())];
    x.in("inner %s outer %s frame %s", str(a).c_str(), str(b).c_str(), FR[fi].name);
    AbsCmp cmp(1e-9); if (NM && !FR[fi].exact) return x.skip();
    bool w = inside(a, b, true);
    bool r = polygon_polygon_containment(mk<G2>(a, FR[fi]), mk<G2>(b, FR[fi]), cmp);
    x.check(r == w, "containment reported %d, exact %d", r, w);
    x.outcome(w);
    x.state(mc::H(u64(i / nf)));
}
MC_SPACE("small-small", "all pairs of simple triangles/quadrilaterals of a 3x4 grid, 3 frames", 3ull * small().size() * small().size(), [](u64 i, Ctx& x) { pair(i, x, small(), small(), 3); });
MC_SPACE("tri-penta", "all triangles of a 3x4 grid in all simple pentagons of a 3x4 grid", 1ull * small().size() * penta().size(), [](u64 i, Ctx& x) { pair(i, x, small(), penta(), 1); });
MC_SPACE("small-hexa", "all triangles/quadrilaterals of a 3x4 grid in all simple hexagons of a 3x3 grid, 3 frames", 3ull * small().size() * hexa().size(), [](u64 i, Ctx& x) { pair(i, x, small(), hexa(), 3); });
MC_SPACE("tri-quad4", "all triangles in all simple quadrilaterals of a 4x4 grid, 4 frames", 0, 4ull * tri().size() * quad().size(), [](u64 i, Ctx& x) { pair(i, x, tri(), quad(), 4); });
MC_SPACE("quad-quad4", "all pairs of simple quadrilaterals of a 4x4 grid", 0, 1ull * quad().size() * quad().size(), [](u64 i, Ctx& x) { pair(i, x, quad(), quad(), 1); });

static void line(u64 i, Ctx& x, const Rings& B, int k, int W, int H, int nf) {
    Dec d(i); int fi = FI[d(nf)]; std::vector<I2> a; for (int j = 0; j < k; ++j) a.push_back(gp(d(W * H), W));
    auto& b = B[d(B.size())];
    for (int j = 0; j + 1 < k; ++j) if (a[j] == a[j + 1]) return x.skip();
    x.in("polyline %s polygon %s frame %s", str(a).c_str(), str(b).c_str(), FR[fi].name);
    AbsCmp cmp(1e-9); if (NM && !FR[fi].exact) return x.skip();
    bool w = inside(a, b, false);
    bool r = polygon_polyline_containment(mk<L2>(a, FR[fi]), mk<G2>(b, FR[fi]), cmp);
    x.check(r == w, "containment reported %d, exact %d", r, w);
    x.outcome(w);
    x.state(mc::H(u64(i / nf)));
}
MC_SPACE("segment-small", "all one-segment polylines against all triangles/quadrilaterals, 3x4 grid, 4 frames", 4ull * 144 * small().size(), [](u64 i, Ctx& x) { line(i, x, small(), 2, 3, 4, 4); });
MC_SPACE("segment-penta", "all one-segment polylines against all pentagons, 3x4 grid, 4 frames", 4ull * 144 * penta().size(), [](u64 i, Ctx& x) { line(i, x, penta(), 2, 3, 4, 4); });
MC_SPACE("polyline3-hexa", "all 3-vertex polylines against all hexagons, 3x3 grid, 3 frames", 3ull * 729 * hexa().size(), [](u64 i, Ctx& x) { line(i, x, hexa(), 3, 3, 3, 3); });
MC_SPACE("polyline3-penta", "all 3-vertex polylines against all pentagons, 3x4 grid, 3 frames", 0, 3ull * 1728 * penta().size(), [](u64 i, Ctx& x) { line(i, x, penta(), 3, 3, 4, 3); });
MC_SPACE("polyline4-hexa", "all 4-vertex polylines against all hexagons, 3x3 grid", 0, 6561ull * hexa().size(), [](u64 i, Ctx& x) { line(i, x, hexa(), 4, 3, 3, 1); });

// large polygons, against pieces of themselves: ears, diagonals, sub chains, themselves less or with a moved vertex
MC_SIZES("sizes", BIG " (rings only), against themselves with one vertex left out or moved, triangles and quadrilaterals of their vertices, small triangles at vertices, chains of their vertices and middles, 3 frames", 3 * BIGQ / 20, 20, 40, [](u64 i, Ctx& x) {
    Dec d(i); const Frame& f = FR[d(3) * 2]; bool ch; auto b = big_any(d, &ch); if (b.empty() || ch) return x.skip(); for (auto& p : b) p = 2 * p; int n = b.size(); AbsCmp cmp(1e-9 * (f.scale > 100 ? 1e3 : 1)); G2 B = mk<G2>(b, f); x.state(mc::H(i));
    auto pg = [&](const std::vector<I2>& a) { if (x.failed || !ring_simple(a)) return; x.in("inner %s outer %s frame %s", x.verbose ? str(a).c_str() : "", x.verbose ? str(b).c_str() : "", f.name); bool w = inside(a, b, true), r = polygon_polygon_containment(mk<G2>(a, f), B, cmp); x.check(r == w, "containment reported %d, exact %d", r, w); x.outcome(w); };
    auto pl = [&](const std::vector<I2>& a) { for (size_t k = 0; k + 1 < a.size(); ++k) if (a[k] == a[k + 1]) return; if (x.failed) return; x.in("polyline %s polygon %s frame %s", x.verbose ? str(a).c_str() : "", x.verbose ? str(b).c_str() : "", f.name); bool w = inside(a, b, false), r = polygon_polyline_containment(mk<L2>(a, f), B, cmp); x.check(r == w, "containment reported %d, exact %d", r, w); x.outcome(w); };
    auto V = [&](int k) { return b[(k % n + n) % n]; }; auto M = [&](int k) { I2 e = V(k) + V(k + 1); return I2{e.x / 2, e.y / 2}; };
    pg(b); for (int k = 0; k < n; k += 1 + n / 12) {
        auto a = b; a.erase(a.begin() + k); pg(a); for (I2 v : {I2{1, 0}, I2{-1, 0}, I2{0, 1}, I2{0, -1}}) { a = b; a[k] = a[k] + v; pg(a); pg({b[k], b[k] + v, b[k] + I2{v.y, v.x}}); pg({M(k), M(k) + v, M(k) + I2{v.y, v.x}}); pl({b[k], b[k] + v}); }
        pg({V(k), V(k + 1), V(k + 2)}); pg({V(k), V(k + 2), V(k + 4)}); pg({M(k), M(k + 1), M(k + 2), M(k + 3)}); pg({V(k), V(k + n / 3), V(k + 2 * n / 3)}); pg({V(k), V(k + n / 4), V(k + n / 2), V(k + 3 * n / 4)});
        pl({V(k), V(k + 2)}); pl({V(k), V(k + n / 2)}); pl({M(k), M(k + 2), M(k + 1)}); pl({V(k), V(k + 1), V(k + 2), V(k + 3)}); a.clear(); for (int j = 0; j < n / 2; ++j) a.push_back(V(k + j)); pl(a); a.push_back(V(k)); pl(a); } });
static const Rings& nsmall() { static Rings r = [] { Near m(256); return cat({simple_rings(3, 3, 4), simple_rings(4, 3, 3)}); }(); return r; }
MC_SPACE("small-near", "all pairs of simple triangles of a 3x4 and quadrilaterals of a 3x3 grid of near coincidences (columns and rows in pairs one step apart, 256 steps between pairs; exact frames)", 4ull * nsmall().size() * nsmall().size(), [](u64 i, Ctx& x) { Near m(256); pair(i, x, nsmall(), nsmall(), 4); });
MC_SPACE("segment-near", "all one-segment polylines of a 3x4 grid of near coincidences against these rings", 4ull * 144 * nsmall().size(), [](u64 i, Ctx& x) { Near m(256); line(i, x, nsmall(), 2, 3, 4, 4); });
