// H09: geometric objects hold the values they were given, through every history of construction, copies, moves and assignments.
#include "geo.hpp"
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/primitive/capsule.hpp>
#include <geometrix/primitive/plane.hpp>
#include <geometrix/primitive/rectangle.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/polygon_with_holes_as_segment_range.hpp>
using namespace gx;
typedef std::vector<I2> R; typedef sphere<2, P2> C2;
static const R TAB[] = {{}, {{3, 1}}, {{0, 0}, {2, 1}}, {{1, 1}, {4, 1}, {2, 5}}, {{0, 0}, {3, 0}, {3, 2}, {1, 2}, {0, 1}}};
static P2 pt(I2 a) { return P2(a.x, a.y); }
static bool is(const P2& p, I2 a) { return get<0>(p) == a.x && get<1>(p) == a.y; }
static std::vector<P2> vec(const R& r) { std::vector<P2> v; for (auto p : r) v.push_back(pt(p)); return v; }
template <class T> static bool holds(const T& t, const R& r) {
    typedef point_sequence_traits<T> A; if (A::size(t) != r.size() || A::empty(t) != r.empty()) return false;
    for (size_t i = 0; i < r.size(); ++i) if (!is(A::get_point(t, i), r[i])) return false; size_t k = 0; for (auto i = A::begin(t); i != A::end(t); ++i) if (k >= r.size() || !is(*i, r[k++])) return false; if (k != r.size()) return false; for (auto i = A::rbegin(t); i != A::rend(t); ++i) if (!is(*i, r[--k])) return false;
    if (k || (!r.empty() && !(is(A::front(t), r.front()) && is(A::back(t), r.back())))) return false; return point_sequences_equal(t, vec(r), direct_comparison_policy()); }
template <class T> static void seqs(u64 i, Ctx& x, int K, const char* nm) {
    typedef point_sequence_traits<T> A; Dec d(i); R m[2] = {TAB[d(5)], TAB[d(5)]}; T o[2] = {T(vec(m[0])), T(vec(m[1]))}; if (x.verbose) x.in("%ss %s %s,", nm, str(m[0]).c_str(), str(m[1]).c_str());
    static const char* N[] = {"copy assign", "move assign", "assign a vector", "assign a moved vector", "assign a list", "construct a copy", "construct by a move", "construct from iterators", "construct from a vector", "construct from a moved vector", "construct from a list", "construct of a size", "construct()", "push_back", "emplace_back", "pop_back", "self assign", "swap", "set the last point", "reverse", "construct<>(iterators)"};
    const int NO = sizeof N / sizeof *N;
    for (int k = 0; k < K; ++k) { int op = d(NO), s = d(2); T &a = o[s], &b = o[1 - s]; R &p = m[s], &q = m[1 - s]; const R& t = TAB[(i / 7 + k) % 5]; if (x.verbose) x.in(" %s %c", N[op], "ab"[s]); I2 w{k + 7, i64(i % 3) - 1};
        switch (op) {
        case 0: a = b; p = q; break; case 1: a = std::move(b); p = q; b = T(); q.clear(); break; case 2: { const auto v = vec(t); a = v; p = t; break; } case 3: a = vec(t); p = t; break; case 4: a = {pt(w), pt({1, 2}), pt({w.y, w.x})}; p = {w, {1, 2}, {w.y, w.x}}; break;
        case 5: { T c(b); a = c; p = q; break; } case 6: { T c(std::move(b)); a = std::move(c); p = q; b = T(); q.clear(); break; } case 7: { auto v = vec(t); T c(v.begin(), v.end()); a = c; p = t; break; } case 8: { const auto v = vec(t); T c(v); a = c; p = t; break; } case 9: { T c(vec(t)); a = c; p = t; break; } case 10: { T c{pt({5, 5}), pt(w)}; a = c; p = {{5, 5}, w}; break; }
        case 11: { T c(std::size_t(3)); if (!x.check(A::size(c) == 3, "size %zu of a %s of 3", A::size(c), nm)) return; for (int j = 0; j < 3; ++j) A::get_point(c, j) = pt({j, w.x}); a = c; p = {{0, w.x}, {1, w.x}, {2, w.x}}; break; } case 12: a = construct<T>(vec(t)); p = t; break;
        case 13: A::push_back(a, pt(w)); p.push_back(w); break; case 14: A::emplace_back(a, pt(w)); p.push_back(w); break; case 15: if (p.empty()) return x.skip(); A::pop_back(a); p.pop_back(); break; case 16: { T& c = a; a = c; break; } case 17: std::swap(a, b); std::swap(p, q); break;
        case 18: if (p.empty()) return x.skip(); A::back(a) = pt(w); p.back() = w; break; case 19: a = geometrix::reverse(a); std::reverse(p.begin(), p.end()); break; case 20: { auto v = vec(t); a = construct<T>(v.begin(), v.end()); p = t; break; } }
        if (!x.check(holds(a, p) && holds(b, q), "after %s: %zu and %zu points, true %s and %s", N[op], A::size(a), A::size(b), str(p).c_str(), str(q).c_str())) return; x.step(); u64 h = mc::H(op); for (auto* r : {&m[0], &m[1]}) { h = mc::H(h, r->size()); for (auto e : *r) h = mc::H(h, e.x, e.y); } x.state(h); x.outcome(op); } }
MC_SPACE("polylines", "all sequences of 3 of 21 constructions, copies, moves, assignments and edits over two polylines of 0..5 points", 25ull * 42 * 42 * 42, [](u64 i, Ctx& x) { seqs<L2>(i, x, 3, "polyline"); });
MC_SPACE("polygons", "the same over two polygons", 25ull * 42 * 42 * 42, [](u64 i, Ctx& x) { seqs<G2>(i, x, 3, "polygon"); });
MC_SPACE("polylines4", "all sequences of 4 of them over two polylines", 0, 25ull * 42 * 42 * 42 * 42, [](u64 i, Ctx& x) { seqs<L2>(i, x, 4, "polyline"); });
MC_SPACE("polygons4", "all sequences of 4 of them over two polygons", 0, 25ull * 42 * 42 * 42 * 42, [](u64 i, Ctx& x) { seqs<G2>(i, x, 4, "polygon"); });
// polygons with holes
struct WH { R o; std::vector<R> h; };
static bool holds(const polygon_with_holes<P2>& w, const WH& m) { if (!holds(w.get_outer(), m.o) || w.get_holes().size() != m.h.size()) return false; for (size_t k = 0; k < m.h.size(); ++k) if (!holds(w.get_holes()[k], m.h[k])) return false;
    auto s = polygon_with_holes_as_segment_range<S2>(w); size_t k = 0; std::vector<const R*> rs{&m.o}; for (auto& e : m.h) rs.push_back(&e); for (auto* r : rs) for (size_t j = 0; j < r->size(); ++j) { if (r->size() < 2) return true; if (k >= s.size() || !is(get_start(s[k]), (*r)[j]) || !is(get_end(s[k]), (*r)[(j + 1) % r->size()])) return false; ++k; } return k == s.size(); }
static void holed(u64 i, Ctx& x, int K) {
    typedef polygon_with_holes<P2> W; Dec d(i); WH m[2] = {{TAB[3], {}}, {TAB[4], {TAB[3], TAB[2]}}}; auto mk = [](const WH& w) { std::vector<G2> h; for (auto& r : w.h) h.push_back(G2(vec(r))); return h; }; const G2 o0(vec(m[0].o)), o1(vec(m[1].o)); const std::vector<G2> h1 = mk(m[1]); W o[2] = {W(o0), W(o1, h1)}; x.in("%s", "");
    static const char* N[] = {"copy assign", "move assign", "copy construct", "move construct", "add a hole", "add a moved hole", "set the outer", "set the moved outer", "from (const, const)", "from (moved, moved)", "from (const, moved)", "from (moved, const)", "from a moved outer", "drop the last hole", "move the first point of the last hole", "swap", "self assign"}; const int NO = sizeof N / sizeof *N;
    for (int k = 0; k < K; ++k) { int op = d(NO), s = d(2); W &a = o[s], &b = o[1 - s]; WH &p = m[s], &q = m[1 - s]; const R& t = TAB[2 + (i / 3 + k) % 3]; const G2 g(vec(t)); std::vector<G2> hs{g, G2(vec(TAB[3]))}; const std::vector<G2> ch = hs; G2 gm(g), om(vec(TAB[4])); const G2 oc = om; WH f{TAB[4], {t, TAB[3]}}; if (x.verbose) x.in(" %s %c", N[op], "ab"[s]);
        switch (op) { case 0: a = b; p = q; break; case 1: a = std::move(b); p = q; b = W(oc); q = {TAB[4], {}}; break; case 2: { W c(b); a = c; p = q; break; } case 3: { W c(std::move(b)); if (!x.check(holds(c, q), "constructed by a move")) return; a = c; p = q; b = W(oc); q = {TAB[4], {}}; break; }
        case 4: a.add_hole(g); p.h.push_back(t); break; case 5: a.add_hole(std::move(gm)); p.h.push_back(t); break; case 6: a.set_outer(g); p.o = t; break; case 7: a.set_outer(std::move(gm)); p.o = t; break; case 8: a = W(oc, ch); p = f; break; case 9: a = W(std::move(om), std::move(hs)); p = f; break; case 10: a = W(oc, std::move(hs)); p = f; break; case 11: a = W(std::move(om), ch); p = f; break; case 12: a = W(std::move(gm)); p = {t, {}}; break;
        case 13: if (p.h.empty()) return x.skip(); a.get_holes().pop_back(); p.h.pop_back(); break; case 14: if (p.h.empty()) return x.skip(); a.get_holes().back()[0] = pt({9, k}); p.h.back()[0] = {9, k}; break; case 15: std::swap(a, b); std::swap(p, q); break; case 16: { W& c = a; a = c; break; } }
        if (!x.check(holds(a, p) && holds(b, q), "after %s: outer of %zu and %zu holes, true %zu and %zu", N[op], a.get_outer().size(), a.get_holes().size(), p.o.size(), p.h.size())) return; x.step(); x.state(mc::H(op, p.o.size(), p.h.size(), q.o.size(), q.h.size(), k)); x.outcome(op); } }
MC_SPACE("holed", "all sequences of 4 of 17 constructions, copies, moves, assignments and edits over two polygons with holes", 34ull * 34 * 34 * 34, [](u64 i, Ctx& x) { holed(i, x, 4); });
MC_SPACE("holed5", "all sequences of 5 of them", 0, 34ull * 34 * 34 * 34 * 34, [](u64 i, Ctx& x) { holed(i, x, 5); });
// segments, circles, capsules, boxes, triangles, rectangles, lines and planes
static void objs(u64 i, Ctx& x, int K) {
    Dec d(i); I2 s[2][2] = {{{0, 1}, {2, 5}}, {{-3, 4}, {1, 1}}}; I2 c[2] = {{1, 2}, {3, -1}}; i64 r[2] = {2, 5}; S2 S[2] = {S2(pt(s[0][0]), pt(s[0][1])), S2(pt(s[1][0]), pt(s[1][1]))}; C2 C[2] = {C2(pt(c[0]), r[0]), C2(pt(c[1]), r[1])}; x.in("%s", "");
    static const char* N[] = {"set_start", "set_end", "access set_start", "access set_end", "reverse", "copy segment", "make_segment", "construct segment", "segment of 4 numbers", "segment of two points in a sequence", "set_center", "set_radius", "copy circle", "make_sphere", "construct circle"}; const int NO = sizeof N / sizeof *N;
    for (int k = 0; k < K; ++k) { int op = d(NO), a = d(2), b = 1 - a; I2 w{k + 4, 3 - 2 * k}; if (x.verbose) x.in(" %s %d", N[op], a);
        switch (op) { case 0: S[a].set_start(pt(w)); s[a][0] = w; break; case 1: S[a].set_end(pt(w)); s[a][1] = w; break; case 2: segment_access_traits<S2>::set_start(S[a], pt(w)); s[a][0] = w; break; case 3: segment_access_traits<S2>::set_end(S[a], pt(w)); s[a][1] = w; break; case 4: S[a] = S[b].reverse(); s[a][0] = s[b][1]; if (true) s[a][1] = s[b][0]; break; case 5: S[a] = S[b]; s[a][0] = s[b][0]; s[a][1] = s[b][1]; break; case 6: S[a] = make_segment(pt(w), pt(s[b][0])); s[a][0] = w; s[a][1] = s[b][0]; break; case 7: S[a] = construct<S2>(pt(s[b][1]), pt(w)); s[a][0] = s[b][1]; s[a][1] = w; break; case 8: S[a] = S2(w.x, 2., w.y, 7.); s[a][0] = {w.x, 2}; s[a][1] = {w.y, 7}; break; case 9: S[a] = construct<S2>(std::vector<P2>{pt(w), pt({8, 8})}); s[a][0] = w; s[a][1] = {8, 8}; break;
        case 10: C[a].set_center(pt(w)); c[a] = w; break; case 11: C[a].set_radius(k + 3); r[a] = k + 3; break; case 12: C[a] = C[b]; c[a] = c[b]; r[a] = r[b]; break; case 13: C[a] = make_sphere<2>(pt(w), 6.); c[a] = w; r[a] = 6; break; case 14: C[a] = construct<C2>(pt(w), k + 1.); c[a] = w; r[a] = k + 1; break; }
        for (int j = 0; j < 2; ++j) { const S2& g = S[j]; bool ok = is(g.get_start(), s[j][0]) && is(g.get_end(), s[j][1]) && is(get_start(g), s[j][0]) && is(get_end(g), s[j][1]) && is(g.reverse().get_start(), s[j][1]) && is(g.reverse().get_end(), s[j][0]); if (!x.check(ok, "segment %d after %s", j, N[op])) return; ok = is(C[j].get_center(), c[j]) && C[j].get_radius() == r[j] && is(sphere_access_traits<C2>::get_center(C[j]), c[j]) && sphere_access_traits<C2>::get_radius(C[j]) == r[j]; if (!x.check(ok, "circle %d after %s", j, N[op])) return; } x.step(); x.state(mc::H(s[0][0].x, s[0][0].y, s[0][1].x, s[0][1].y, s[1][0].x, s[1][1].x, c[0].x, c[1].x, r[0], r[1])); x.outcome(op); } }
MC_SPACE("objects", "all sequences of 3 of 15 constructions, assignments and edits over two segments and two circles", 30ull * 30 * 30, [](u64 i, Ctx& x) { objs(i, x, 3); });
MC_SPACE("objects4", "all sequences of 4 of them", 30ull * 30 * 30 * 30, [](u64 i, Ctx& x) { objs(i, x, 4); });
MC_SPACE("shapes", "capsules, rectangles and lines of all triples of points of a 4x4 grid", 4096, [](u64 i, Ctx& x) {
    Dec d(i); I2 a = gp(d(16), 4), b = gp(d(16), 4), c = gp(d(16), 4); x.in(PF PF PF, PA(a), PA(b), PA(c)); P2 A = pt(a), B = pt(b), C = pt(c);
    capsule<P2> k(A, B, 2.5), k2(S2(B, C), 1.5); x.check(is(k.get_segment().get_start(), a) && is(k.get_segment().get_end(), b) && k.get_radius() == 2.5 && is(get_start(k2.get_segment()), b) && is(get_end(k2.get_segment()), c) && k2.get_radius() == 1.5, "capsule"); capsule<P2> k3 = construct<capsule<P2>>(A, C, 3.), k4 = construct<capsule<P2>>(S2(C, A), 4.); x.check(is(k3.get_segment().get_end(), c) && k3.get_radius() == 3 && is(k4.get_segment().get_start(), c) && k4.get_radius() == 4, "construct<capsule>");
    rectangle<P2> q(A, B, C, pt({7, 7})), q2(std::array<P2, 4>{{C, B, A, A}}); x.check(is(q[0], a) && is(q[1], b) && is(q[2], c) && is(q[3], {7, 7}) && is(q2[0], c) && is(q2[1], b) && is(q2[2], a), "rectangle");
    if (a != b) { I2 v = b - a; double n = std::sqrt((double)dot(v, v)); for (const line<P2>& l : {line<P2>(A, B), line<P2>(S2(A, B)), line<P2>(A, V2(3 * v.x, 3 * v.y)), make_line(A, B), make_line(A, V2(v.x, v.y)), construct<line<P2>>(A, B)}) { auto &u = l.get_parallel_vector(), &w = l.get_normal_vector(); x.check(is(l.get_reference_point(), a) && std::fabs(u[0] - v.x / n) < 1e-12 && std::fabs(u[1] - v.y / n) < 1e-12 && std::fabs(w[0] + v.y / n) < 1e-12 && std::fabs(w[1] - v.x / n) < 1e-12 && std::fabs(l.get_distance_to_origin() - cross(v, a) / n) < 1e-12, "line: direction (%g,%g) normal (%g,%g) distance %g", u[0], u[1], w[0], w[1], l.get_distance_to_origin()); } }
    x.state(mc::H(i)); });
MC_SPACE("planes", "planes of all triples of points of a 3x3x2 grid", 18ull * 18 * 18, [](u64 i, Ctx& x) {
    Dec d(i); auto g = [&] { int k = d(18); return I3{k % 3, k / 3 % 3, k / 9}; }; I3 a = g(), b = g(), c = g(), n = cross(b - a, c - a); if (n == I3{0, 0, 0}) return x.skip(); x.in("(%lld,%lld,%lld) (%lld,%lld,%lld) (%lld,%lld,%lld)", a.x, a.y, a.z, b.x, b.y, b.z, c.x, c.y, c.z); P3 A(a.x, a.y, a.z), B(b.x, b.y, b.z), C(c.x, c.y, c.z); double N = std::sqrt((double)dot(n, n));
    auto chk = [&](const plane<P3>& p) { auto& w = p.get_normal_vector(); auto &r = p.get_reference_point(); I3 u = b - a, v = c - a; double U = std::sqrt((double)dot(u, u)), W = std::sqrt((double)dot(v, v)); x.check(r[0] == a.x && r[1] == a.y && r[2] == a.z && std::fabs(w[0] - n.x / N) < 1e-12 && std::fabs(w[1] - n.y / N) < 1e-12 && std::fabs(w[2] - n.z / N) < 1e-12 && std::fabs(p.get_distance_to_origin() - dot(a, n) / N) < 1e-12, "plane: normal (%g,%g,%g), distance %g", w[0], w[1], w[2], p.get_distance_to_origin()); auto &pu = p.get_u(), &pv = p.get_parallel_vector(); x.check(std::fabs(pu[0] - u.x / U) + std::fabs(pu[1] - u.y / U) + std::fabs(pu[2] - u.z / U) < 1e-12 && std::fabs(pv[0] - v.x / W) + std::fabs(pv[1] - v.y / W) + std::fabs(pv[2] - v.z / W) < 1e-12, "plane: directions"); };
    chk(plane<P3>(A, B, C)); chk(plane<P3>(A, V3(B - A), V3(C - A))); x.state(mc::H(i)); });
