// B06: intersection of two convex polygons.
#include "geo.hpp"
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp>
#include <set>
using namespace gx;
typedef std::vector<std::vector<I2>> Rings;
static Rings conv(int k, int W, int H) { Rings o; for (auto& r : simple_rings(k, W, H, false)) if (ring_convex_ccw(r)) o.push_back(r); return o; }
static Rings cat(std::initializer_list<Rings> l) { Rings r; for (auto& a : l) r.insert(r.end(), a.begin(), a.end()); return r; }
static const Rings& c33() { static Rings r = cat({conv(3, 3, 3), conv(4, 3, 3)}); return r; }
static const Rings& c44() { static Rings r = cat({conv(3, 4, 4), conv(4, 4, 4)}); return r; }

// Sutherland-Hodgman on rationals
static std::vector<Q2> clip(const std::vector<I2>& a, const std::vector<I2>& b) {
    std::vector<Q2> s(a.begin(), a.end());
    int n = b.size();
    for (int i = 0; i < n && !s.empty(); ++i) {
        Q2 u = b[i], v = b[(i + 1) % n]; std::vector<Q2> o; int m = s.size();
        for (int j = 0; j < m; ++j) {
            Q2 p = s[j], q = s[(j + 1) % m]; Q sp = cross(v - u, p - u), sq = cross(v - u, q - u);
            if (sp.sg() >= 0) o.push_back(p);
            if (sp.sg() * sq.sg() < 0) o.push_back(p + (sp / (sp - sq)) * (q - p));
        }
        s.clear(); for (auto& p : o) if (s.empty() || !(s.back() == p)) s.push_back(p);
        while (s.size() > 1 && s.back() == s.front()) s.pop_back();
    }
    return s;
}
static void pairof(Ctx& x, const std::vector<I2>& a, const std::vector<I2>& b, const Frame& f) {
    x.in("%s and %s frame %s", x.verbose ? str(a).c_str() : "", x.verbose ? str(b).c_str() : "", f.name);
    AbsCmp cmp(1e-9);
    auto w = clip(a, b);
    Q ar(0); for (std::size_t j = 0; j < w.size(); ++j) ar = ar + cross(w[j], w[(j + 1) % w.size()]);
    std::vector<Q2> uniq = w; std::sort(uniq.begin(), uniq.end()); uniq.erase(std::unique(uniq.begin(), uniq.end()), uniq.end());
    int dim = uniq.empty() ? -1 : uniq.size() == 1 ? 0 : ar.sg() == 0 ? 1 : 2;
    std::vector<P2> got;
    auto t = convex_polygon_polygon_intersection(mk<G2>(a, f), mk<G2>(b, f), [&](const P2& p) { got.push_back(p); }, cmp);
    static const char* N[] = {"apart", "point", "edge", "area"};
    x.outcome(N[dim + 1]);
    for (auto& p : got) x.note("visited (%g,%g)", X(p), Y(p));
    if (dim == -1) { x.check(t == polygon_intersection_type::none, "%s polygons reported as %d", N[dim + 1], int(t)); return; }
    if (dim == 1) { x.check(t == polygon_intersection_type::face, "%s polygons reported as %d", N[dim + 1], int(t)); }
    if (dim == 0 || dim == 2) x.check(t == polygon_intersection_type::overlapping || (dim == 0 && t == polygon_intersection_type::vertex), "%s polygons reported as %d", N[dim + 1], int(t));
    // every visited point is in the intersection; every vertex of the intersection is visited
    auto vis = [&](const Q2& q) { for (auto& p : got) if (same(p, f(q), 1e-7)) return true; return false; };
    int n = w.size();
    if (dim == 1) { x.check(vis(uniq.front()) && vis(uniq.back()), "ends of the common edge are not visited"); return; }
    for (int j = 0; j < n; ++j) {
        if (dim == 2 && cross(w[j] - w[(j + n - 1) % n], w[(j + 1) % n] - w[j]).sg() == 0) continue;
        x.check(vis(w[j]), "vertex (%g,%g) of the intersection is not visited", w[j].x.dbl(), w[j].y.dbl());
    }
    for (auto& p : got) { bool ok = false;  // on the border of the intersection
        for (int j = 0; j < n && !ok; ++j) { P2 u = f(w[j]), v = f(w[(j + 1) % n]); ok = std::fabs(dist(p, u) + dist(p, v) - dist(u, v)) < 1e-7; }
        x.check(ok, "visited (%g,%g) is not on the border of the intersection", X(p), Y(p)); }
}
static void pair(u64 i, Ctx& x, const Rings& A, const Rings& B, int nf) {
    static const int FI[] = {0, 5, 9};
    Dec d(i); const Frame& f = FR[FI[d(nf)]]; auto& a = A[d(A.size())]; auto& b = B[d(B.size())];
    pairof(x, a, b, f); x.state(mc::H(u64(i / nf)));
}
MC_SPACE("c33", "all pairs of strictly convex ccw triangles/quadrilaterals (any start) of a 3x3 grid, 3 frames", 3ull * c33().size() * c33().size(), [](u64 i, Ctx& x) { pair(i, x, c33(), c33(), 3); });
MC_SPACE("c44", "all pairs of strictly convex ccw triangles/quadrilaterals (any start) of a 4x4 grid", 0, 1ull * c44().size() * c44().size(), [](u64 i, Ctx& x) { pair(i, x, c44(), c44(), 1); });
static const Rings& c5() { static Rings r = conv(5, 4, 4); return r; }
static const Rings& c3() { static Rings r = conv(3, 4, 4); return r; }
static const Rings& c6() { static Rings r = cat({conv(6, 4, 4), conv(7, 4, 4), conv(8, 4, 4)}); return r; }
MC_SPACE("pentagons-triangles", "all strictly convex pentagons x triangles (any start) of a 4x4 grid", 1ull * c3().size() * c5().size(), [](u64 i, Ctx& x) { pair(i, x, c5(), c3(), 1); });
MC_SPACE("hexagons-triangles", "all strictly convex hexagons, heptagons, octagons x triangles (any start) of a 4x4 grid", 1ull * c3().size() * c6().size(), [](u64 i, Ctx& x) { pair(i, x, c3(), c6(), 1); });
// many vertices
static const Rings& large() { static Rings r; if (r.empty()) for (int n = 5; n < 39; ++n) for (int kind : {1, 5}) { auto v = big_ring(kind, n); if (ring_convex_ccw(v)) { r.push_back(v); } } return r; }
MC_SPACE("sizes", "pairs of convex polygons of 5..38 vertices (round or parabolas), 3 first vertices each, 30 offsets, turned or not, 2 frames", 2ull * 9 * 30 * 2 * large().size() * large().size() / 8, 2ull * 9 * 30 * 2 * large().size() * large().size(), [](u64 i, Ctx& x) {
    Dec d(i); const Frame& f = FR[d(2) * 9]; int s0 = d(3), s1 = d(3), o = d(30), tu = d(2); u64 L = large().size(), k = d.v * 5 % (L * L); auto a = large()[k % L], b = large()[k / L]; a = turned(a, s0 * a.size() / 3, false); b = turned(b, s1 * b.size() / 3, false); if (tu) for (auto& p : b) p = {-p.x, -p.y};
    static const int S[] = {0, 1, 7, 30, 61, 121}; I2 off{S[o % 6] * (o / 12 % 2 ? -1 : 1), S[o / 6] - 20}; for (auto& p : b) p = p + off; pairof(x, a, b, f); x.state(mc::H(i / 2)); });
