// F04: uniform grids: the cell of a point, cell geometry, dense and hashed cell storage.
#include "geo.hpp"
#include <geometrix/algorithm/grid_traits.hpp>
#include <geometrix/algorithm/grid_2d.hpp>
#include <geometrix/algorithm/hash_grid_2d.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <map>
using namespace gx;
using GT = grid_traits<double>;
struct Map { const char* name; double s, tx, ty; bool exact; }; // coordinate = s * (cells) + t
static const Map MP[] = {{"id", 1, 0, 0, true}, {"shift", 2, -8, 5, true}, {"fine", .125, -1, -3, true}, {"big", 1024, 50000, -30000, true}, {"tenth", .1, -.3, 7.7, false}, {"third", 1. / 3, -1. / 7, 100. / 3, false}};
static const int NMAP = 6;
static bool nr(double a, double b, double s) { return std::fabs(a - b) <= 1e-6 * s; }
// bounds (in quarters of a cell) BX x BY, all points at quarter steps
MC_SPACE("cells", "all extents from 1/4 to 5 cells in x and y, all points at quarter steps of the extent, 6 maps", 6ull * 400, [](u64 i, Ctx& x) {
    Dec d(i); const Map& m = MP[d(NMAP)]; int BX = 1 + d(20), BY = 1 + d(20); double s = m.s; auto cx = [&](double q) { return m.tx + s * q / 4; }; auto cy = [&](double q) { return m.ty + s * q / 4; };
    x.in("extent %g x %g cells, %s", BX / 4., BY / 4., m.name);
    GT g(cx(0), cx(BX), cy(0), cy(BY), s), h(std::make_tuple(cx(0), cx(BX), cy(0), cy(BY)), s);
    for (const GT* p : {&g, &h}) {
        auto size = [&](u64 w, int B) { return w == u64(B / 4 + 1) || (!m.exact && B % 4 == 0 && w == u64(B / 4)); };
        x.check(size(p->get_width(), BX) && size(p->get_height(), BY), "%u x %u cells", p->get_width(), p->get_height());
        x.check(p->get_min_x() == cx(0) && p->get_max_x() == cx(BX) && p->get_min_y() == cy(0) && p->get_max_y() == cy(BY) && p->get_cell_size() == s, "bounds");
        x.check(same(p->get_origin(), P2(cx(0), cy(0))), "origin");
    }
    for (int a = 0; a <= BX; ++a) for (int b = 0; b <= BY; ++b) {
        P2 p(cx(a), cy(b)); u64 I = g.get_x_index(cx(a)), J = g.get_y_index(cy(b));
        auto ok = [&](u64 k, int q) { return k == u64(q / 4) || (!m.exact && q % 4 == 0 && k + 1 == u64(q / 4)); };
        if (!x.check(ok(I, a) && ok(J, b), "point (%g,%g): cell %llu %llu", a / 4., b / 4., (unsigned long long)I, (unsigned long long)J)) return;
        if (!x.check(I < g.get_width() && J < g.get_height(), "point (%g,%g): cell %llu %llu outside the grid", a / 4., b / 4., (unsigned long long)I, (unsigned long long)J)) return;
        x.check(g.is_contained(p), "is_contained(%g,%g)", a / 4., b / 4.);
        x.check(nr(g.get_scaled_grid_coordinate_x(cx(a)), a / 4., 1) && nr(g.get_scaled_grid_coordinate_y(cy(b)), b / 4., 1), "scaled coordinate");
        auto box = g.get_cell_aabb(I, J); x.check(X(box.get_lower_bound()) <= cx(a) + 1e-9 * s && cx(a) <= X(box.get_upper_bound()) + 1e-9 * s && Y(box.get_lower_bound()) <= cy(b) + 1e-9 * s && cy(b) <= Y(box.get_upper_bound()) + 1e-9 * s, "cell box does not hold the point");
    }
    for (int a = -2; a <= BX + 2; ++a) for (int b = -2; b <= BY + 2; ++b) { bool e = a >= 0 && a <= BX && b >= 0 && b <= BY; if (!x.check(g.is_contained(P2(cx(a), cy(b))) == e, "is_contained(%g,%g) not %d", a / 4., b / 4., e)) return; }
    for (unsigned I = 0; I < g.get_width(); ++I) for (unsigned J = 0; J < g.get_height(); ++J) {
        P2 c[4] = {P2(m.tx + s * I, m.ty + s * J), P2(m.tx + s * (I + 1), m.ty + s * J), P2(m.tx + s * (I + 1), m.ty + s * (J + 1)), P2(m.tx + s * I, m.ty + s * (J + 1))};
        x.check(same(g.get_cell_corner0(I, J), c[0]) && same(g.get_cell_corner1(I, J), c[1]) && same(g.get_cell_corner2(I, J), c[2]) && same(g.get_cell_corner3(I, J), c[3]), "corners of %u %u", I, J);
        auto pg = g.get_cell_polygon(I, J); x.check(pg.size() == 4 && same(pg[0], c[0]) && same(pg[1], c[1]) && same(pg[2], c[2]) && same(pg[3], c[3]), "polygon of %u %u", I, J);
        auto bx = g.get_cell_aabb(I, J); x.check(same(bx.get_lower_bound(), c[0]) && same(bx.get_upper_bound(), c[2]), "box of %u %u", I, J);
        x.check(same(g.get_cell_centroid(I, J), P2(m.tx + s * (I + .5), m.ty + s * (J + .5))), "centroid of %u %u", I, J);
    }
    x.outcome(BX % 4 == 0 ? "whole cells" : "part cells"); x.state(mc::H(i / NMAP)); });

// all operation sequences against a map
static void hashops(u64 i, Ctx& x, int depth) {
    GT t(-1, 1, 5, 8, 1); // 3 x 4 cells
    hash_grid_2d<int, GT> g(t); std::map<std::pair<int, int>, int> m; const hash_grid_2d<int, GT>& cg = g; char log[256] = ""; int n = 0;
    static const int CI[] = {0, 2, 1}, CJ[] = {0, 1, 3}; Dec d(i);
    for (int k = 0; k < depth; ++k) {
        int op = d(14), c = op % 3, v = k + 1; P2 p(-1 + CI[c], 5 + CJ[c]); int I = CI[c], J = CJ[c]; auto key = std::make_pair(I, J);
        if (op < 3) { n += snprintf(log + n, sizeof log - n, " get(%d,%d)=%d", I, J, v); x.in("%s", log); auto& r = g.get_cell(I, J); int e = m[key]; x.check(r == e, "get_cell(%d,%d) holds %d, model %d", I, J, r, e); r = v; m[key] = v; }
        else if (op < 6) { n += snprintf(log + n, sizeof log - n, " getp(%d,%d)=%d", I, J, v); x.in("%s", log); auto& r = g.get_cell(p); int e = m[key]; x.check(r == e, "get_cell(point in %d,%d) holds %d, model %d", I, J, r, e); r = v; m[key] = v; }
        else if (op < 9) { n += snprintf(log + n, sizeof log - n, " erase(%d,%d)", I, J); x.in("%s", log); g.erase(I, J); m.erase(key); }
        else if (op < 12) { n += snprintf(log + n, sizeof log - n, " set(%d,%d)=%d", I, J, v); x.in("%s", log); if (int* r = g.find_cell(p)) { x.check(m.count(key), "find_cell finds an absent cell"); *r = v; m[key] = v; } }
        else if (op == 12) { n += snprintf(log + n, sizeof log - n, " clear"); x.in("%s", log); g.clear(); m.clear(); }
        else { n += snprintf(log + n, sizeof log - n, " move"); x.in("%s", log); hash_grid_2d<int, GT> o(std::move(g)); hash_grid_2d<int, GT> q(t); q.get_cell(1, 1) = 77; q = std::move(o); g = std::move(q); }
        for (int a = 0; a < 3; ++a) for (int b = 0; b < 4; ++b) {
            auto it = m.find({a, b}); P2 q(-1 + a + .5, 5 + b + .5); if (a == 2) q = P2(1, Y(q)); if (b == 3) q = P2(X(q), 8);
            const int* r[4] = {g.find_cell(a, b), cg.find_cell(a, b), g.find_cell(q), cg.find_cell(q)};
            for (auto* w : r) if (!x.check((w != nullptr) == (it != m.end()) && (!w || *w == it->second), "cell (%d,%d): %s, model %s", a, b, w ? "present or other value" : "absent", it != m.end() ? "present" : "absent")) return;
        }
    }
    x.outcome(m.empty() ? "empty" : "filled"); x.state(mc::H(i));
}
MC_SPACE("hashops", "all sequences of 4 operations (14 kinds) on a hash_grid_2d", 14ull * 14 * 14 * 14, [](u64 i, Ctx& x) { hashops(i, x, 4); });
MC_SPACE("hashops6", "all sequences of 6 operations (14 kinds) on a hash_grid_2d", 0, 7529536, [](u64 i, Ctx& x) { hashops(i, x, 6); });
MC_SPACE("wide", "grids of 1..3 by 33, 66, 131, 259 or 300 cells, either way round, of 40x40 and of 66001 by 1..2: the cell of the middle, corner and sides of every cell, stored densely and hashed and read back, 6 maps", 6ull * 2 * 18, [](u64 i, Ctx& x) {
    static const int L[] = {33, 66, 131, 259, 300}; Dec d(i); const Map& m = MP[d(NMAP)]; bool tall = d(2); int k = d(18), W = k > 15 ? 66001 : k == 15 ? 40 : L[k % 5], H = k > 15 ? k - 15 : k == 15 ? 40 : 1 + k / 5; if (tall) std::swap(W, H); double s = m.s;
    x.in("%d x %d cells, %s", W, H, m.name); GT t(m.tx, m.tx + s * (W - .5), m.ty, m.ty + s * (H - .5), s); x.check(t.get_width() == unsigned(W) && t.get_height() == unsigned(H), "%u x %u cells", t.get_width(), t.get_height()); if (x.failed) return;
    grid_2d<int, GT> g(t); hash_grid_2d<int, GT> h(t);
    auto at = [&](double a, double b) { return P2(m.tx + s * a, m.ty + s * b); };
    for (int a = 0; a < W; ++a) for (int b = 0; b < H; ++b) { if (a + 1 < W && b + 1 < H) { P2 c = at(a + .5, b + .5); x.check(t.get_x_index(X(c)) == unsigned(a) && t.get_y_index(Y(c)) == unsigned(b), "cell of the middle of (%d,%d)", a, b); } P2 c = at(a + .25, b + .25); x.check(t.get_x_index(X(c)) == unsigned(a) && t.get_y_index(Y(c)) == unsigned(b) && t.is_contained(c), "cell of a point of (%d,%d)", a, b); auto box = t.get_cell_aabb(a, b); x.check(same(box.get_lower_bound(), at(a, b)) && same(box.get_upper_bound(), at(a + 1, b + 1)) && same(t.get_cell_centroid(a, b), at(a + .5, b + .5)), "box of cell (%d,%d)", a, b); if (x.failed) return;
        g.get_cell(a, b) = 1000 * a + b; if ((a + b) % 3) h.get_cell(a, b) = 1000 * a + b; }
    for (int a = 0; a < W; ++a) for (int b = 0; b < H; ++b) { int* p = h.find_cell(a, b); if (!x.check(g.get_cell(at(a + .25, b + .25)) == 1000 * a + b, "dense cell (%d,%d) holds %d", a, b, g.get_cell(at(a + .25, b + .25))) || !x.check((a + b) % 3 ? p && *p == 1000 * a + b && h.get_cell(at(a + .25, b + .25)) == *p : !p, "hashed cell (%d,%d)", a, b)) return; }
    x.state(mc::H(i)); });
MC_SPACE("dense", "grid_2d of every extent 1/4..5 cells: every cell written, by index or by every point at quarter steps, and read back both ways", 400, [](u64 i, Ctx& x) {
    Dec d(i); int BX = 1 + d(20), BY = 1 + d(20); x.in("extent %g x %g cells", BX / 4., BY / 4.); GT t(-2, -2 + BX / 4., 10, 10 + BY / 4., 1); grid_2d<int, GT> g(t); const grid_2d<int, GT>& cg = g; int W = t.get_width(), H = t.get_height();
    x.check(g.get_traits().get_width() == t.get_width() && g.get_traits().get_height() == t.get_height(), "traits");
    for (int a = 0; a < W; ++a) for (int b = 0; b < H; ++b) x.check(g.get_cell(a, b) == 0, "initial value");
    for (int a = 0; a < W; ++a) for (int b = 0; b < H; ++b) g.get_cell(a, b) = 100 * a + b + 1;
    for (int a = 0; a <= BX; ++a) for (int b = 0; b <= BY; ++b) { P2 p(-2 + a / 4., 10 + b / 4.); int e = 100 * (a / 4) + b / 4 + 1; if (!x.check(g.get_cell(p) == e && cg.get_cell(p) == e && cg.get_cell(a / 4, b / 4) == e, "cell of (%g,%g) holds %d, exact %d", a / 4., b / 4., g.get_cell(p), e)) return; x.check(g.is_contained(p), "is_contained"); }
    for (int a = 0; a <= BX; a += 4) for (int b = 0; b <= BY; b += 4) g.get_cell(P2(-2 + a / 4., 10 + b / 4.)) = -(100 * (a / 4) + b / 4 + 1);
    for (int a = 0; a < W; ++a) for (int b = 0; b < H; ++b) x.check(cg.get_cell(a, b) == -(100 * a + b + 1), "value of %d %d", a, b);
    x.check(!g.is_contained(P2(-2.25, 10)) && !g.is_contained(P2(-2, 9.75)), "is_contained outside"); x.state(mc::H(i)); });
