// E02: separating axis tests: convex polygons and oriented boxes, at rest and moving.
#include "geo.hpp"
#include <geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp>
#include <geometrix/algorithm/intersection/moving_separating_axis_convex_polygons.hpp>
#include <geometrix/algorithm/intersection/obb_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_obb_obb_intersection.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
using namespace gx;
using OB = oriented_bounding_box<P2, V2>;
using Ring = std::vector<I2>;

static void proj(const Ring& r, I2 d, i64& lo, i64& hi) { lo = hi = dot(r[0], d); for (auto p : r) { lo = std::min(lo, dot(p, d)); hi = std::max(hi, dot(p, d)); } }
// -1 apart, 0 touch, 1 interiors meet
static int overlap(const Ring& a, const Ring& b) {
    int res = 1;
    for (auto* r : {&a, &b}) for (std::size_t k = 0; k < r->size(); ++k) {
        I2 e = (*r)[(k + 1) % r->size()] - (*r)[k], d{-e.y, e.x}; i64 l1, h1, l2, h2; proj(a, d, l1, h1); proj(b, d, l2, h2);
        if (h1 < l2 || h2 < l1) return -1;
        if (h1 == l2 || h2 == l1) res = 0;
    }
    return res;
}
// motion of b relative to a with velocity v: first and last time of contact at or after 0
struct Toi { bool hit, forever, clear; Q first, last; bool pow2 = true; }; // pow2: dividing by the speeds is exact
static Toi toi(const Ring& a, const Ring& b, I2 v) {
    Toi t{true, true, true, Q(0), Q(0)}; for (auto* r : {&a, &b}) for (std::size_t k = 0; k < r->size(); ++k) { I2 e = (*r)[(k + 1) % r->size()] - (*r)[k]; i64 s = std::abs(dot(I2{-e.y, e.x}, v)); if (s & (s - 1)) t.pow2 = false; }
    for (auto* r : {&a, &b}) for (std::size_t k = 0; k < r->size(); ++k) {
        I2 e = (*r)[(k + 1) % r->size()] - (*r)[k], d{-e.y, e.x}; i64 l1, h1, l2, h2, s = dot(d, v); proj(a, d, l1, h1); proj(b, d, l2, h2);
        if (!s) { if (h1 < l2 || h2 < l1) { t.hit = false; return t; } if (h1 == l2 || h2 == l1) t.clear = false; continue; }
        Q u(h1 - l2, s), w(l1 - h2, s); if (w < u) std::swap(u, w); // in contact during [u, w]
        if (w.sg() < 0) { t.hit = false; return t; }
        if (w.sg() == 0) t.clear = false;
        if (u > t.first) t.first = u;
        if (t.forever || w < t.last) { t.last = w; t.forever = false; }
    }
    if (!t.forever && t.last < t.first) t.hit = false;
    if (!t.forever && t.last == t.first) t.clear = false;
    return t;
}
static std::vector<Ring> convex(int k, int W, int H) { std::vector<Ring> o; for (auto& r : simple_rings(k, W, H)) if (ring_convex_ccw(r)) o.push_back(r); return o; }
static std::vector<Ring>& small() { static std::vector<Ring> v = [] { std::vector<Ring> r; for (int k : {3, 4}) for (auto& q : convex(k, 3, 3)) r.push_back(q); for (int k : {5, 6}) for (auto& q : convex(k, 3, 3)) r.push_back(q); return r; }(); return v; }
// larger convex polygons (8, 12, 16 and 7 vertices)
static std::vector<Ring>& large() {
    static std::vector<Ring> v = [] { std::vector<Ring> o; std::vector<std::vector<I2>> es = {
        {{1, 0}, {1, 1}, {0, 1}, {-1, 1}, {-1, 0}, {-1, -1}, {0, -1}, {1, -1}},
        {{1, 0}, {2, 1}, {1, 1}, {1, 2}, {0, 1}, {-1, 2}, {-1, 1}, {-2, 1}, {-1, 0}, {-2, -1}, {-1, -1}, {-1, -2}, {0, -1}, {1, -2}, {1, -1}, {2, -1}},
        {{3, 0}, {1, 1}, {0, 1}, {-1, 2}, {-3, 1}, {-2, -1}, {2, -4}},
        {{5, 0}, {1, 1}, {1, 2}, {0, 3}, {-1, 1}, {-5, 0}, {-1, -1}, {0, -6}},
        {{1, 0}, {2, 1}, {1, 2}, {0, 4}, {-2, 1}, {-2, -8}}, {{2, 0}, {-1, 3}, {-1, -3}}, {{4, 0}, {0, 4}, {-4, 0}, {0, -4}}, {{1, -2}, {1, 2}, {-1, 2}, {-1, -2}},
        {{1, 0}, {3, 1}, {2, 1}, {1, 1}, {1, 2}, {1, 3}, {0, 1}, {-9, -9}}};
        for (auto& e : es) { Ring r; I2 p{0, 0}; for (auto d : e) { r.push_back(p); p = p + d; } if (p != I2{0, 0} || !ring_convex_ccw(r)) abort(); o.push_back(r); }
        return o; }();
    return v;
}
static Ring rot(Ring r, int k, bool rev) { std::rotate(r.begin(), r.begin() + k, r.end()); if (rev) std::reverse(r.begin(), r.end()); return r; }

static void pair_(Ctx& x, const Ring& a, const Ring& b, const Frame& f) {
    x.in("%s and %s frame %s", str(a).c_str(), str(b).c_str(), f.name);
    AbsCmp cmp(1e-7 * f.scale * f.scale); int o = overlap(a, b);
    G2 p = mk<G2>(a, f), q = mk<G2>(b, f); P2 arr[1]; (void)arr; L2 pl = mk<L2>(a, f);
    x.check(convex_polygons_intersection(p, q, cmp) == (o > 0), "convex_polygons_intersection %d, exact %d", convex_polygons_intersection(p, q, cmp), o);
    x.outcome(o < 0 ? "apart" : o ? "overlap" : "touch");
}
static void move(Ctx& x, const Ring& a, const Ring& b, const Frame& f, I2 va, I2 vb) {
    if (va == vb && overlap(a, b) == 0 && !f.exact) return;
    x.in("%s and %s velocities " PF " " PF " frame %s", str(a).c_str(), str(b).c_str(), PA(va), PA(vb), f.name);
    AbsCmp cmp(1e-7 * f.scale * f.scale); Toi t = toi(a, b, vb - va);
    bool ex = f.exact && t.pow2; // every operation is exact: contact at a single moment, along a side, or exactly at the time limit is decided too
    if (!t.clear && !ex) return x.outcome("graze");
    G2 p = mk<G2>(a, f), q = mk<G2>(b, f); V2 u = f.vec(va), w = f.vec(vb);
    double inf = std::numeric_limits<double>::infinity();
    double first = -5, last = -5; bool got = moving_convex_polygons_intersection(p, u, q, w, inf, first, last, cmp);
    x.check(got == t.hit, "moving_convex_polygons_intersection %d, exact %d", got, t.hit);
    if (got && t.hit) x.check(mc::close(first, t.first.dbl(), 1e-7) && (t.forever ? std::isinf(last) : mc::close(last, t.last.dbl(), 1e-7)), "times [%.17g,%.17g], exact [%.17g,%.17g]", first, last, t.first.dbl(), t.last.dbl());
    if (t.hit) for (double fac : {.5, .999, 1.001, 2.}) {
        double tm = t.first.sg() ? t.first.dbl() * fac : fac; first = last = -5;
        got = moving_convex_polygons_intersection(p, u, q, w, tm, first, last, cmp); bool e = t.first.sg() == 0 || fac > 1;
        x.check(got == e, "moving_convex_polygons_intersection within %.17g: %d, exact %d (contact at %.17g)", tm, got, e, t.first.dbl());
        if (got && e) x.check(mc::close(first, t.first.dbl(), 1e-7), "first contact %.17g, exact %.17g", first, t.first.dbl());
    }
    if (t.hit && ex) { got = moving_convex_polygons_intersection(p, u, q, w, t.first.dbl(), first, last, cmp); x.check(got && first == t.first.dbl(), "within exactly the time of the first contact %.17g: %d at %.17g", t.first.dbl(), got, first); }
    x.outcome(!t.clear ? t.hit ? "touching contact" : "passes by touching" : !t.hit ? "no contact" : t.first.sg() ? "contact later" : "in contact");
}
static Ring shift(Ring r, I2 v) { for (auto& p : r) p = p + v; return r; }

MC_SPACE("pairs3", "all pairs of strictly convex polygons of a 3x3 grid, the second shifted by -1..3 in x and 0..2 in y, both windings, 10 frames", 20ull * 15 * small().size() * small().size(), [](u64 i, Ctx& x) {
    Dec d(i); const Frame& f = FR[d(10)]; bool rev = d(2); int sx = d(5) - 1, sy = d(3); auto& S = small(); Ring a = rot(S[d(S.size())], 0, rev), b = rot(shift(S[d(S.size())], {sx, sy}), 0, rev);
    pair_(x, a, b, f); x.state(mc::H(i / 20)); });
static std::vector<Ring>& nearr() { static std::vector<Ring> v = [] { Near n(256); std::vector<Ring> r = convex(3, 4, 4); for (auto& q : convex(4, 3, 3)) r.push_back(q); return r; }(); return v; }
MC_SPACE("pairs-near", "all pairs of triangles of a 4x4 grid of near coincidences (columns and rows 0, 1, 256, 257) and of convex quadrilaterals of the 3x3 one, both windings, 6 frames", 12ull * nearr().size() * nearr().size(), [](u64 i, Ctx& x) {
    static const int FI[] = {0, 1, 2, 3, 8, 9}; Dec d(i); const Frame& f = FR[FI[d(6)]]; bool rev = d(2); auto& S = nearr(); Ring a = rot(S[d(S.size())], 0, rev), b = rot(S[d(S.size())], 1, rev); pair_(x, a, b, f); x.state(mc::H(i / 12)); });
MC_SPACE("starts", "all pairs of 8 convex polygons of 3..16 vertices from every starting vertex (second: 4 of them), shifted over a 9x9 range, 2 frames, both windings", [] { u64 n = 0; for (auto& r : large()) n += r.size(); return 4 * n * large().size() * 4 * 81; }(), [](u64 i, Ctx& x) {
    Dec d(i); const Frame& f = FR[d(2) * 5]; bool rev = d(2); I2 s{(d(9) - 4) * 2 + 1, (d(9) - 4) * 2}; int st = d(4); auto& B = large()[d(large().size())]; u64 k = d.v; std::size_t j = 0; while (k >= large()[j].size()) { k -= large()[j].size(); ++j; }
    pair_(x, rot(large()[j], k, rev), rot(shift(B, s), st * B.size() / 4, rev), f); x.state(mc::H(i / 2)); });
MC_SPACE("large", "a convex ring of 40, 131 or 259 vertices on a parabola from 12 starting vertices against 8 convex polygons of 3..16 vertices at and next to 12 of its vertices, at rest and moving, 3 frames", 3ull * 12 * 3 * 12 * 3 * large().size(), [](u64 i, Ctx& x) {
    static const int N[] = {40, 131, 259}; Dec d(i); const Frame& f = FR[d(3)]; int st = d(12), n = N[d(3)]; Ring a = turned(big_ring(5, n), st * n / 12, false); I2 at = a[(d(12) * 23 + 5) % n] + I2{d(3) - 1, 0}; Ring b = large()[d(large().size())]; I2 t{st - 5, st % 3 - 1}; b = shift(b, at);
    pair_(x, a, b, f); if (std::abs(area2(a)) < 1000000000000ll) move(x, a, b, f, {0, 0}, t); x.state(mc::H(i / 3)); });
static void mv(u64 i, Ctx& x, int R) {
    Dec d(i); const Frame& f = FR[d(3) * 2 + d(1)]; I2 va{d(2), -d(2)}, vb{d(2 * R + 1) - R, d(2 * R + 1) - R}; I2 s{d(5) - 2, d(3)}; auto& S = small(); std::size_t n = S.size();
    Ring a = S[(d(n) * 7) % n], b = shift(S[d(n)], {2 * s.x, 2 * s.y});
    move(x, a, b, f, va, vb); x.state(mc::H(i / 3));
}
MC_SPACE("moving", "all pairs of strictly convex polygons of a 3x3 grid, second shifted by even offsets, 4 x 9 velocities, 3 frames", 3ull * 4 * 9 * 15 * small().size() * small().size(), [](u64 i, Ctx& x) { mv(i, x, 1); });
MC_SPACE("moving5", "the same with 4 x 25 velocities", 0, 3ull * 4 * 25 * 15 * small().size() * small().size(), [](u64 i, Ctx& x) { mv(i, x, 2); });
MC_SPACE("movingstarts", "all pairs of 8 convex polygons of 3..16 vertices from every starting vertex, 25 offsets, 16 velocities", [] { u64 n = 0; for (auto& r : large()) n += r.size(); return n * large().size() * 25 * 16; }(), [](u64 i, Ctx& x) {
    static const I2 VS[] = {{0, 0}, {1, 0}, {-1, 0}, {0, 1}, {0, -1}, {1, 1}, {-1, 1}, {1, -1}, {-1, -1}, {2, 1}, {1, 2}, {-2, 1}, {-1, 2}, {3, -1}, {-2, -3}, {1, -5}};
    Dec d(i); I2 v = VS[d(16)]; I2 s{(d(5) - 2) * 7, (d(5) - 2) * 7 + 1}; auto& B = large()[d(large().size())]; u64 k = d.v; std::size_t j = 0; while (k >= large()[j].size()) { k -= large()[j].size(); ++j; }
    move(x, rot(large()[j], k, false), shift(B, s), FR[0], {1, -2}, v + I2{1, -2}); x.state(mc::H(i)); });

// oriented boxes: axes from Pythagorean triples, coordinates scaled so that corners are integers
struct Ori { i64 c, s, h; };
static const Ori OR[] = {{1, 0, 1}, {3, 4, 5}, {4, 3, 5}, {0, 1, 1}, {-4, 3, 5}, {-3, -4, 5}, {-1, 0, 1}, {5, -12, 13}, {0, -1, 1}};
static Ring obring(I2 c, Ori o, i64 hu, i64 hv, i64 K) { // in units of 1/K
    I2 u{o.c * (K / o.h), o.s * (K / o.h)}, v{-u.y, u.x}; c = K * c; Ring r;
    r = {c - hu * u - hv * v, c + hu * u - hv * v, c + hu * u + hv * v, c - hu * u + hv * v}; return r;
}
static OB mkob(I2 c, Ori o, i64 hu, i64 hv, bool left, const Frame& f) {
    V2 u = f.vec({o.c, o.s}), v = f.vec({-o.s, o.c}); double k = f.scale * o.h; u = V2(u[0] / k, u[1] / k); v = V2(v[0] / k, v[1] / k); if (!left) v = V2(-v[0], -v[1]);
    return OB(f(c), u, v, hu * f.scale, hv * f.scale);
}
MC_SPACE("obb", "all pairs of oriented boxes: 9 x 9 orientations, half widths 1..3 x 1..2 and 1..2 x 1..2, second axis left or right, centres 9x7 apart, 4 frames", 4ull * 81 * 6 * 4 * 2 * 63, [](u64 i, Ctx& x) {
    static const int FI[] = {0, 3, 5, 6}; Dec d(i); const Frame& f = FR[FI[d(4)]]; Ori o1 = OR[d(9)], o2 = OR[d(9)]; i64 u1 = 1 + d(3), v1 = 1 + d(2), u2 = 1 + d(2), v2 = 1 + d(2); bool l = d(2); I2 c{d(9) - 4, d(7) - 3}; c = {c.x * 2 + (c.x > 1), c.y * 2 + (c.y > 0)};
    const i64 K = 65; Ring a = obring({1, -1}, o1, u1, v1, K), b = obring(c, o2, u2, v2, K);
    x.in("box centre (1,-1) axis %lld/%lld,%lld/%lld half widths %lld %lld; centre " PF " axis %lld/%lld,%lld/%lld half widths %lld %lld frame %s", (long long)o1.c, (long long)o1.h, (long long)o1.s, (long long)o1.h, (long long)u1, (long long)v1, PA(c), (long long)o2.c, (long long)o2.h, (long long)o2.s, (long long)o2.h, (long long)u2, (long long)v2, f.name);
    int e = overlap(a, b); OB p = mkob({1, -1}, o1, u1, v1, l, f), q = mkob(c, o2, u2, v2, true, f); AbsCmp cmp(1e-7 * f.scale);
    x.check(obb_obb_intersection(p, q, cmp) == (e >= 0) && obb_obb_intersection(q, p, cmp) == (e >= 0), "obb_obb_intersection %d %d, exact %d", obb_obb_intersection(p, q, cmp), obb_obb_intersection(q, p, cmp), e);
    x.outcome(e < 0 ? "apart" : e ? "overlap" : "touch"); x.state(mc::H(i / 4)); });
// nearly parallel boxes: the second turned against the first by 0, +-11.4, +-1.15 or +-0.1 degrees, also past a quarter turn
static double gap(const Ring& a, const Ring& b) { double g = -1e300; for (auto* r : {&a, &b}) for (std::size_t k = 0; k < 2; ++k) { I2 e = (*r)[k + 1] - (*r)[k], d{-e.y, e.x}; i64 l1, h1, l2, h2; proj(a, d, l1, h1); proj(b, d, l2, h2); g = std::max(g, double(std::max(l1 - h2, l2 - h1)) / std::sqrt(double(dot(d, d)))); } return g; }
MC_SPACE("obbtilted", "all pairs of oriented boxes turned against each other by 0, +-20/101, +-200/10001, +-40/40001 (sine) and these plus a quarter turn, 4 base orientations, half widths 1..3 x 1 and 1..2 x 2, centres in a 17x17 range and an eighth off, 3 frames", 3ull * 4 * 14 * 6 * 289 * 3, [](u64 i, Ctx& x) {
    static const int FI[] = {0, 3, 5}; static const Ori BO[] = {{1, 0, 1}, {3, 4, 5}, {-4, 3, 5}, {0, -1, 1}}; static const Ori TI[] = {{1, 0, 1}, {99, 20, 101}, {99, -20, 101}, {9999, 200, 10001}, {9999, -200, 10001}, {39999, 400, 40001}, {39999, -400, 40001}};
    Dec d(i); const Frame& f = FR[FI[d(3)]]; Ori o1 = BO[d(4)]; int ti = d(14); Ori t = TI[ti % 7]; if (ti >= 7) t = Ori{-t.s, t.c, t.h}; Ori o2{o1.c * t.c - o1.s * t.s, o1.s * t.c + o1.c * t.s, o1.h * t.h};
    i64 u1 = 1 + d(3), v1 = 1, u2 = 1 + d(2), v2 = 2; I2 c{d(17) - 8, d(17) - 8}; int off = d(3) - 1;
    const i64 K = 8 * o2.h; Ring a = obring({0, 0}, o1, u1, v1, K), b = obring(c, o2, u2, v2, K); for (auto& p : b) p = p + I2{off * (K / 8), 0};
    x.in("box centre (0,0) axis %lld/%lld,%lld/%lld half widths %lld %lld; centre " PF "+%g axis %lld/%lld,%lld/%lld half widths %lld %lld frame %s", (long long)o1.c, (long long)o1.h, (long long)o1.s, (long long)o1.h, (long long)u1, (long long)v1, PA(c), off / 8., (long long)o2.c, (long long)o2.h, (long long)o2.s, (long long)o2.h, (long long)u2, (long long)v2, f.name);
    int e = overlap(a, b); double g = gap(a, b) / K; if (g != 0 && std::fabs(g) < 1e-6) return x.outcome("within tolerance");
    OB p = mkob({0, 0}, o1, u1, v1, true, f); V2 au = f.vec({o2.c, o2.s}), av = f.vec({-o2.s, o2.c}); double k = f.scale * o2.h; OB q(f(c.x + off / 8., c.y), V2(au[0] / k, au[1] / k), V2(av[0] / k, av[1] / k), u2 * f.scale, v2 * f.scale); AbsCmp cmp(1e-7 * f.scale);
    x.check(obb_obb_intersection(p, q, cmp) == (e >= 0) && obb_obb_intersection(q, p, cmp) == (e >= 0), "obb_obb_intersection %d %d, exact %d", obb_obb_intersection(p, q, cmp), obb_obb_intersection(q, p, cmp), e);
    if (f.exact && !off) { Toi m = toi(a, b, {0, 0}); double first = -5, last = -5; if (m.clear) x.check(moving_obb_obb_intersection(p, V2(1, 2), q, V2(1, 2), 1., first, last) == m.hit, "moving_obb_obb_intersection at equal velocities, exact %d", m.hit); }
    x.outcome(e < 0 ? "apart" : e ? "overlap" : "touch"); x.state(mc::H(i / 3)); });
static void mob(u64 i, Ctx& x, int R) {
    static const int FI[] = {0, 5}; Dec d(i); const Frame& f = FR[FI[d(2)]]; Ori o1 = OR[d(9)], o2 = OR[d(9)]; i64 u1 = 1 + d(3), v1 = 1, u2 = 1 + d(2), v2 = 2; bool l = d(2); I2 c{d(4) * 3 - 4, d(3) * 4 - 4}, w{d(2 * R + 1) - R, d(2 * R + 1) - R}, va{d(2), d(2)};
    const i64 K = 65; Ring a = obring({0, 0}, o1, u1, v1, K), b = obring(c, o2, u2, v2, K); Toi t = toi(a, b, K * w);
    x.in("box centre (0,0) axis %lld/%lld,%lld/%lld half widths %lld %lld; centre " PF " axis %lld/%lld,%lld/%lld half widths %lld %lld relative velocity " PF " frame %s", (long long)o1.c, (long long)o1.h, (long long)o1.s, (long long)o1.h, (long long)u1, (long long)v1, PA(c), (long long)o2.c, (long long)o2.h, (long long)o2.s, (long long)o2.h, (long long)u2, (long long)v2, PA(w), f.name);
    bool ex = f.exact && o1.h == 1 && o2.h == 1 && !(w.x & (std::abs(w.x) - 1)) && !(w.y & (std::abs(w.y) - 1)); // all axes and divisions exact
    if (!t.clear && !ex) return x.outcome("graze");
    OB p = mkob({0, 0}, o1, u1, v1, l, f), q = mkob(c, o2, u2, v2, true, f);
    double inf = std::numeric_limits<double>::infinity(), first = -5, last = -5; V2 A = f.vec(va), B = f.vec(va + w);
    bool got = moving_obb_obb_intersection(p, A, q, B, inf, first, last);
    x.check(got == t.hit, "moving_obb_obb_intersection %d, exact %d", got, t.hit);
    if (got && t.hit) x.check(mc::close(first, t.first.dbl(), 1e-7) && (t.forever ? last > 1e9 : mc::close(last, t.last.dbl(), 1e-7)), "times [%.17g,%.17g], exact [%.17g,%.17g]", first, last, t.first.dbl(), t.last.dbl());
    if (t.hit) for (double fac : {.5, .999, 1.001, 2.}) { double tm = t.first.sg() ? t.first.dbl() * fac : fac; got = moving_obb_obb_intersection(p, A, q, B, tm, first, last); bool e = t.first.sg() == 0 || fac > 1;
        x.check(got == e, "moving_obb_obb_intersection within %.17g: %d, exact %d", tm, got, e); }
    x.outcome(!t.hit ? "no contact" : t.first.sg() ? "contact later" : "in contact"); x.state(mc::H(i / 2));
}
MC_SPACE("movingobb", "oriented boxes: 9 x 9 orientations, half widths, 12 offsets, 25 relative velocities, 4 base velocities, 2 frames", 2ull * 81 * 6 * 2 * 12 * 25 * 4, [](u64 i, Ctx& x) { mob(i, x, 2); });
