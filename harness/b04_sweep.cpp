// B04: all intersections of a set of segments (sweep), of a polyline with itself, simplicity of rings,
// against brute force in exact arithmetic.
#include "geo.hpp"
#include <boost/lambda/lambda.hpp>
#include <boost/algorithm/minmax.hpp>
#include <geometrix/algorithm/bentley_ottmann_sweep.hpp>
#include <geometrix/algorithm/bentley_ottmann_segment_intersection.hpp>
#include <geometrix/algorithm/point_sequence/is_polygon_simple.hpp>
#include <geometrix/algorithm/point_sequence/self_intersection.hpp>
#include <set>
using namespace gx;

static double FT(const Frame& f) { return f.scale > 100 ? 1e-5 : 1e-10; }
struct E2 { I2 a, b; };
static bool on_line_seg(I2 a, I2 b, Q2 p) { return cross(Q2(b) - Q2(a), p - Q2(a)).sg() == 0 && dot(Q2(a) - p, Q2(b) - p) <= Q(0); }

struct Vis {
    std::vector<std::pair<P2, std::vector<std::pair<P2, P2>>>>* out;
    template <class P, class It> void operator()(const P& e, It b, It en) const {
        out->push_back({e, {}});
        for (; b != en; ++b) out->back().second.push_back({get_start(**b), get_end(**b)});
    }
};
// the same with integer coordinates, K times those of the grid, chosen so that all intersections are integral
static void sweep_ints(const std::vector<E2>& s, i64 K, const std::map<Q2, std::set<int>>& want, Ctx& x) {
    typedef point<long long, 2> PI; typedef segment<PI> SI; std::vector<SI> segs; std::map<std::pair<i64, i64>, std::set<int>> w, g;
    for (auto& e : s) segs.push_back(SI(PI(K * e.a.x, K * e.a.y), PI(K * e.b.x, K * e.b.y)));
    for (auto& e : want) { Q a = Q(K) * e.first.x, b = Q(K) * e.first.y; if (a.d != 1 || b.d != 1) return x.skip(); w[{i64(a.n), i64(b.n)}] = e.second; }
    bool twice = false; std::vector<SI>* base = &segs;
    auto vis = [&](const PI& e, auto b, auto en) { auto& t = g[{get<0>(e), get<1>(e)}]; twice |= !t.empty(); for (; b != en; ++b) for (int i = 0; i < int(s.size()); ++i) { auto same2 = [&](const PI& p, const PI& q) { return get<0>(p) == get<0>(q) && get<1>(p) == get<1>(q); }; auto &A = (*base)[i].get_start(), &B = (*base)[i].get_end(); auto S = get_start(**b), E = get_end(**b); if ((same2(S, A) && same2(E, B)) || (same2(S, B) && same2(E, A))) t.insert(i); } };
    bentley_ottmann_segment_intersection(segs, vis, direct_comparison_policy());
    x.check(!twice && g == w, "integer coordinates: %d intersection points reported, there are %d", int(g.size()), int(w.size())); x.outcome(int(std::min<size_t>(want.size(), 30)));
}
static void sweep(const std::vector<E2>& s, const Frame& f, Ctx& x, i64 K = 0) {
    int n = s.size();
    for (int i = 0; i < n; ++i) if (s[i].a == s[i].b) return x.skip();
    // precondition: no two segments share more than one point
    std::map<Q2, std::set<int>> want;
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) {
        I2 a = s[i].a, b = s[i].b, c = s[j].a, d = s[j].b;
        i64 den = cross(b - a, d - c);
        if (den == 0) {
            if (orient(a, b, c) != 0) continue;
            I2 lo = std::max(std::min(a, b), std::min(c, d)), hi = std::min(std::max(a, b), std::max(c, d));
            if (hi < lo) continue;
            if (lo != hi) return x.skip();
            want[Q2(lo)].insert(i); want[Q2(lo)].insert(j);
        } else {
            Q S(cross(c - a, d - c), den), T(cross(c - a, b - a), den);
            if (S < Q(0) || S > Q(1) || T < Q(0) || T > Q(1)) continue;
            Q2 p = Q2(a) + S * Q2(b - a);
            want[p].insert(i); want[p].insert(j);
        }
    }
    if (K) return sweep_ints(s, K, want, x);
    std::vector<S2> segs;
    for (auto& e : s) segs.push_back(S2(f(e.a), f(e.b)));
    std::vector<std::pair<P2, std::vector<std::pair<P2, P2>>>> got;
    bentley_ottmann_segment_intersection(segs, Vis{&got}, AbsCmp(FT(f)));
    x.check(got.size() == want.size(), "%d intersection points reported, there are %d", int(got.size()), int(want.size()));
    std::set<Q2> used;
    for (auto& g : got) {
        auto it = want.begin();
        for (; it != want.end(); ++it) if (same(f(it->first), g.first, NM ? 2e-10 : 1e-8) && !used.count(it->first)) break;
        if (!x.check(it != want.end(), "reported (%.17g,%.17g), not an intersection point or reported twice", X(g.first), Y(g.first))) return;
        used.insert(it->first);
        std::set<int> who;
        for (auto& e : g.second) for (int i = 0; i < n; ++i)
            if ((same(e.first, f(s[i].a)) && same(e.second, f(s[i].b))) || (same(e.first, f(s[i].b)) && same(e.second, f(s[i].a)))) who.insert(i);
        x.check(who == it->second && g.second.size() == who.size(), "%d segments reported at (%g,%g), %d pass through it", int(g.second.size()), it->first.x.dbl(), it->first.y.dbl(), int(it->second.size()));
    }
    x.outcome(int(std::min<size_t>(want.size(), 30)));
}
static std::vector<E2> pairs_of(int W, int H) { std::vector<E2> v; for (int i = 0; i < W * H; ++i) for (int j = i + 1; j < W * H; ++j) v.push_back({gp(i, W), gp(j, W)}); return v; }
static void sets(u64 i, Ctx& x, const std::vector<E2>& all, int k) {
    Dec d(i);
    int fi = d(NAF); const Frame& f = FR[fi];
    std::vector<E2> s; int prev = -1; if (NM && !f.exact) return x.skip();
    std::string t;
    for (int j = 0; j < k; ++j) { int c = d(all.size()); if (c <= prev) return x.skip(); prev = c; E2 e = all[c]; if ((c + j) & 1) std::swap(e.a, e.b); s.push_back(e); }
    if (x.verbose) { x.in("%s", FR[fi].name); for (auto& e : s) x.in(" " PF PF, PA(e.a), PA(e.b)); }
    x.state(mc::H(i));
    sweep(s, FR[fi], x);
}
static const std::vector<E2> S33 = pairs_of(3, 3), S43 = pairs_of(4, 3), S44 = pairs_of(4, 4);
static u64 pw(u64 b, int e) { u64 r = 1; while (e--) r *= b; return r; }
MC_SPACE("sweep3of4x3", "all sets of 3 segments on a 4x3 grid no two of which overlap, 10 frames", 10 * pw(66, 3), [](u64 i, Ctx& c) { sets(i, c, S43, 3); });
MC_SPACE("sweep4of3x3", "all sets of 4 segments on a 3x3 grid no two of which overlap, 10 frames", 10 * pw(36, 4), [](u64 i, Ctx& c) { sets(i, c, S33, 4); });
static void isets(u64 i, Ctx& x, const std::vector<E2>& all, int k, i64 K) {
    Dec d(i); std::vector<E2> s; int prev = -1; for (int j = 0; j < k; ++j) { int c = d(all.size()); if (c <= prev) return x.skip(); prev = c; E2 e = all[c]; if ((c + j) & 1) std::swap(e.a, e.b); s.push_back(e); }
    if (x.verbose) for (auto& e : s) x.in(" " PF PF, PA(e.a), PA(e.b)); x.state(mc::H(i)); sweep(s, FR[0], x, K);
}
MC_SPACE("sweep-few", "all sets of 0, 1 and 2 segments on a 4x4 grid no two of which overlap, 10 frames", 10 * (1 + 120 + 120 * 120), [](u64 i, Ctx& c) { int k = i < 10 ? 0 : i < 1210 ? 1 : 2; sets(i - (k == 0 ? 0 : k == 1 ? 10 : 1210), c, S44, k); });
MC_SPACE("sweep-integers3", "all sets of 3 segments on a 4x3 grid no two of which overlap, integer coordinates in units of 1/27720 (all intersections integral)", pw(66, 3), [](u64 i, Ctx& c) { isets(i, c, S43, 3, 27720); });
MC_SPACE("sweep-integers4", "all sets of 4 segments on a 3x3 grid no two of which overlap, integer coordinates in units of 1/840", pw(36, 4), [](u64 i, Ctx& c) { isets(i, c, S33, 4, 840); });
MC_SPACE("sweep5of3x3", "all sets of 5 segments on a 3x3 grid no two of which overlap, 10 frames", 0, 10 * pw(36, 5), [](u64 i, Ctx& c) { sets(i, c, S33, 5); });
MC_SPACE("sweep3of4x4", "all sets of 3 segments on a 4x4 grid no two of which overlap, 10 frames", 0, 10 * pw(120, 3), [](u64 i, Ctx& c) { sets(i, c, S44, 3); });
// many pairwise crossings pending at once: n segments joining two vertical lines in the order of a permutation
static void perm_sweep(u64 i, Ctx& x, int n) {
    Dec d(i);
    int fi = d(NAF); const Frame& f = FR[fi];
    std::vector<int> left(n), p; for (int k = 0; k < n; ++k) left[k] = k;
    for (int k = 0; k < n; ++k) { int j = d(n - k); p.push_back(left[j]); left.erase(left.begin() + j); }
    std::vector<E2> s;
    for (int k = 0; k < n; ++k) s.push_back({{0, k * k + k}, {11, p[k] * p[k] + 3}});
    if (x.verbose) { x.in("%s", FR[fi].name); for (auto& e : s) x.in(" " PF PF, PA(e.a), PA(e.b)); }
    x.state(mc::H(i, n));
    sweep(s, FR[fi], x);
}
MC_SPACE("sweep_permutations6", "6 segments joining two vertical lines, every permutation of the ends, 10 frames", 10 * 720, [](u64 i, Ctx& c) { perm_sweep(i, c, 6); });
MC_SPACE("sweep_permutations8", "8 segments joining two vertical lines, every permutation of the ends, 10 frames", 0, 10 * 40320, [](u64 i, Ctx& c) { perm_sweep(i, c, 8); });

// ---- rings --------------------------------------------------------------------------------------
static void ringof(Ctx& x, const std::vector<I2>& r, const Frame& f) {
    int n = r.size(); x.in("%s %s", f.name, x.verbose ? str(r).c_str() : "");
    bool want = true;
    for (int a = 0; a < n && want; ++a) {
        I2 p = r[a], q = r[(a + 1) % n], s = r[(a + 2) % n];
        if (orient(p, q, s) == 0 && dot(p - q, s - q) > 0) want = false;
        for (int b = a + 2; b < n && want; ++b) if (!(a == 0 && b == n - 1) && segs_meet(p, q, r[b], r[(b + 1) % n])) want = false;
    }
    if (n == 3 && area2(r) == 0) want = false;
    G2 g = mk<G2>(r, f);
    bool s1 = is_polygon_simple(g, AbsCmp(FT(f)));
    x.check(s1 == want, "reported simple=%d, the ring is %ssimple", s1, want ? "" : "not ");
    if (n > 3) { bool s2 = is_polygon_simple_memoized(g, AbsCmp(FT(f))); x.check(s2 == want, "memoized test reported simple=%d, the ring is %ssimple", s2, want ? "" : "not "); }
    x.outcome(want ? "simple" : "not simple");
}
static void ring(u64 i, Ctx& x, int n, int W, int H) {
    Dec d(i);
    int fi = d(NAF); const Frame& f = FR[fi];
    std::vector<I2> r;
    for (int k = 0; k < n; ++k) r.push_back(gp(d(W * H), W));
    if (NM && !f.exact) return x.skip();
    for (int k = 0; k < n; ++k) if (r[k] == r[(k + 1) % n]) return x.skip();
    x.state(mc::H(i, n));
    ringof(x, r, f);
}
MC_SPACE("rings3", "all rings of 3 distinct-neighbour points of a 4x4 grid, 10 frames", 10 * pw(16, 3), [](u64 i, Ctx& c) { ring(i, c, 3, 4, 4); });
MC_SPACE("rings4", "all rings of 4 points of a 4x3 grid, 10 frames", 10 * pw(12, 4), [](u64 i, Ctx& c) { ring(i, c, 4, 4, 3); });
MC_SPACE("rings5", "all rings of 5 points of a 3x3 grid, 10 frames", 10 * pw(9, 5), [](u64 i, Ctx& c) { ring(i, c, 5, 3, 3); });
MC_SPACE("rings6", "all rings of 6 points of a 3x3 grid, 10 frames", 10 * pw(9, 6), [](u64 i, Ctx& c) { ring(i, c, 6, 3, 3); });
MC_SPACE("rings7", "all rings of 7 points of a 3x3 grid, 10 frames", 0, 10 * pw(9, 7), [](u64 i, Ctx& c) { ring(i, c, 7, 3, 3); });

// ---- polyline with itself -------------------------------------------------------------------------
static void selfof(Ctx& x, const std::vector<I2>& r, const Frame& f) {
    int n = r.size(); x.in("%s %s", f.name, x.verbose ? str(r).c_str() : "");
    struct W_ { Q2 p, q; bool over; };
    std::map<std::pair<int, int>, W_> want;
    for (int a = 0; a + 1 < n; ++a) for (int b = a + 1; b + 1 < n; ++b) {
        I2 p = r[a], q = r[a + 1], s = r[b], t = r[b + 1];
        i64 den = cross(q - p, t - s);
        if (den == 0) {
            if (orient(p, q, s)) continue;
            I2 lo = std::max(std::min(p, q), std::min(s, t)), hi = std::min(std::max(p, q), std::max(s, t));
            if (hi < lo || (b == a + 1 && lo == hi)) continue;
            want[{a, b}] = {lo, hi, lo != hi};
        } else {
            if (b == a + 1) continue;
            Q S(cross(s - p, t - s), den), T(cross(s - p, q - p), den);
            if (S < Q(0) || S > Q(1) || T < Q(0) || T > Q(1)) continue;
            Q2 e = Q2(p) + S * Q2(q - p);
            want[{a, b}] = {e, e, false};
        }
    }
    L2 l = mk<L2>(r, f);
    size_t cnt = 0;
    bool res = polyline_self_intersection(l, [&](size_t a, size_t b, intersection_type t, P2 p, P2 q) {
        ++cnt;
        auto it = want.find({int(a), int(b)});
        if (!x.check(it != want.end(), "edges %d and %d reported, they do not meet", int(a), int(b))) return;
        P2 A = f(it->second.p), B = f(it->second.q);
        x.check((t == e_overlapping) == it->second.over, "edges %d and %d reported with type %d", int(a), int(b), int(t));
        if (it->second.over) x.check((same(p, A) && same(q, B)) || (same(p, B) && same(q, A)), "overlap of edges %d and %d", int(a), int(b));
        else x.check(same(p, A), "intersection of edges %d and %d at (%g,%g)", int(a), int(b), X(p), Y(p));
    }, AbsCmp(FT(f)));
    x.check(cnt == want.size(), "%d intersections reported, there are %d", int(cnt), int(want.size()));
    x.check(res == !want.empty(), "result %d", res);
    x.outcome(int(want.size()));
}
static void self(u64 i, Ctx& x, int n, int W, int H) {
    Dec d(i);
    int fi = d(NAF); const Frame& f = FR[fi];

    std::vector<I2> r; if (NM && !f.exact) return x.skip();
    for (int k = 0; k < n; ++k) r.push_back(gp(d(W * H), W));
    for (int k = 0; k + 1 < n; ++k) if (r[k] == r[k + 1]) return x.skip();
    x.state(mc::H(i, n));
    selfof(x, r, f);
}
MC_SPACE("self-short", "all polylines of 0, 1 and 2 points of a 4x4 grid, 10 frames", 10 * 3 * 256, [](u64 i, Ctx& c) { self(i % (10 * 256), c, i / (10 * 256), 4, 4); });
MC_SPACE("self3", "all polylines of 3 points of a 4x4 grid, 10 frames", 10 * pw(16, 3), [](u64 i, Ctx& c) { self(i, c, 3, 4, 4); });
MC_SPACE("self4", "all polylines of 4 points of a 4x3 grid, 10 frames", 10 * pw(12, 4), [](u64 i, Ctx& c) { self(i, c, 4, 4, 3); });
MC_SPACE("self5", "all polylines of 5 points of a 3x3 grid, 10 frames", 10 * pw(9, 5), [](u64 i, Ctx& c) { self(i, c, 5, 3, 3); });
MC_SPACE("self6", "all polylines of 6 points of a 3x3 grid, 10 frames", 0, 10 * pw(9, 6), [](u64 i, Ctx& c) { self(i, c, 6, 3, 3); });

// large rings and chains, as they are and with one vertex moved (next to it, onto another vertex or onto an edge)
static std::vector<I2> moved(std::vector<I2> r, int m, int at) { int n = r.size(); for (auto& p : r) p = 2 * p; I2& p = r[at * n / 5 % n]; if (m && m < 5) p = p + 3 * I2{m & 1 ? m - 2 : 0, m & 1 ? 0 : m - 3}; else if (m) { int j = (at * n / 5 + (m - 4) * n / 5) % n, k = (j + 1) % n; I2 e = r[j] + r[k]; p = m & 1 ? r[j] : I2{e.x / 2, e.y / 2}; } return r; }
static bool dup(const std::vector<I2>& r, bool closed) { int n = r.size(); for (int k = 0; k + !closed < n; ++k) if (r[k] == r[(k + 1) % n]) return true; return false; }
MC_SIZES("ringsizes", "combs, convex rings, stars, stairs, ribbons and parabolas of 6..25 (thorough: 45) vertices, 5 starting vertices, both windings, as they are and with one of 5 vertices moved to 9 places, 2 frames", 2ull * 2 * 5 * 6 * 46, 20, 40, [](u64 i, Ctx& x) {
    Dec d(i); const Frame& f = FR[d(2) * 5]; bool rev = d(2); int st = d(5), kind = d(6), m = d(46), n = big_n(d.v); if (!big_ok(kind, n)) return x.skip(); auto r = turned(moved(big_ring(kind, n), m ? 1 + (m - 1) / 5 : 0, m % 5), st * n / 5, rev); if (dup(r, true)) return x.skip(); ringof(x, r, f); x.state(mc::H(i / 2)); });
MC_SIZES("selfsizes", "zigzags, spirals, stairs, arcs, straight chains and saws of 6..25 (thorough: 45) vertices, both directions, as they are and with one of 5 vertices moved to 9 places, 4 exact frames", 4ull * 2 * 6 * 46, 20, 40, [](u64 i, Ctx& x) {
    Dec d(i); const Frame& f = FR[d(4)]; bool rev = d(2); int kind = d(6), m = d(46), n = big_n(d.v); if (!big_ok(kind + 6, n)) return x.skip(); auto r = moved(big_chain(kind, n), m ? 1 + (m - 1) / 5 : 0, m % 5); if (rev) std::reverse(r.begin(), r.end()); if (dup(r, false)) return x.skip(); selfof(x, r, f); x.state(mc::H(i / 4)); });
// arrangements of many segments: lattices, pencils through one point, ladders touching at ends, stars of ends
MC_SPACE("sweepsizes", "lattices of k by l segments, pencils, ladders and fans of 4..23 (thorough: 43) segments, straight or slanted, 5 exact frames", 5ull * 5 * 4 * 20, 5ull * 5 * 4 * 40, [](u64 i, Ctx& x) {
    Dec d(i); const Frame& f = FR[d(5)]; int kind = d(5), slant = d(4), n = 4 + d(40); std::vector<E2> s;
    for (int k = 0; k < n; ++k) { int h = k / 2; switch (kind) {
        case 0: s.push_back(k & 1 ? E2{{3 * h, -2}, {3 * h, 3 * n}} : E2{{-2, 3 * h}, {3 * n, 3 * h}}); break;
        case 1: { I2 v{k + 1, n - k}; s.push_back({I2{0, 0} - v, v}); break; }
        case 2: s.push_back(k & 1 ? E2{{3 * h, 0}, {3 * h + 1, 7}} : k < n / 2 ? E2{{-5, k == 0 ? 0 : k == 2 ? 7 : 20 + k}, {3 * n, k == 0 ? 0 : k == 2 ? 7 : 20 + k}} : E2{{3 * h, 0}, {3 * h + 4, 7 + k % 3}}); break;
        case 3: s.push_back({{0, 0}, {k - n / 2, 7 + k % 4}}); break;
        default: s.push_back({{k, k * k % 7}, {2 * n - k, k * k * k % 11 + 9}}); } }
    for (auto& e : s) for (auto* p : {&e.a, &e.b}) { I2 q = *p; *p = slant == 0 ? q : slant == 1 ? I2{2 * q.x - q.y, q.x + 2 * q.y} : slant == 2 ? I2{q.x + q.y, q.y} : I2{-q.y, 3 * q.x}; }
    if (x.verbose) { x.in("%s", f.name); for (auto& e : s) x.in(" " PF PF, PA(e.a), PA(e.b)); }
    x.state(mc::H(i)); sweep(s, f, x); });

// ---- polygons with holes: every ring simple and no two of them touching ------------------------------
#include <geometrix/primitive/polygon_with_holes.hpp>
static bool simp(const std::vector<I2>& r) { int n = r.size(); for (int a = 0; a < n; ++a) { I2 p = r[a], q = r[(a + 1) % n], s = r[(a + 2) % n]; if (orient(p, q, s) == 0 && dot(p - q, s - q) > 0) return false; for (int b = a + 2; b < n; ++b) if (!(a == 0 && b == n - 1) && segs_meet(p, q, r[b], r[(b + 1) % n])) return false; } return n > 3 || area2(r) != 0; }
static bool apart(const std::vector<I2>& a, const std::vector<I2>& b) { for (unsigned i = 0; i < a.size(); ++i) for (unsigned j = 0; j < b.size(); ++j) if (segs_meet(a[i], a[(i + 1) % a.size()], b[j], b[(j + 1) % b.size()])) return false; return true; }
static void holed(Ctx& x, const Frame& f, const std::vector<std::vector<I2>>& r) {
    bool want = true; for (unsigned k = 0; k < r.size(); ++k) { for (unsigned i = 0; i < r[k].size(); ++i) if (r[k][i] == r[k][(i + 1) % r[k].size()]) return x.skip(); want = want && simp(r[k]); for (unsigned m = 0; want && m < k; ++m) want = apart(r[k], r[m]); }
    if (x.verbose) { std::string s = f.name; for (auto& k : r) s += " | " + str(k); x.in("%s", s.c_str()); } else x.in("%s", f.name);
    std::vector<G2> h; for (unsigned k = 1; k < r.size(); ++k) h.push_back(mk<G2>(r[k], f)); polygon_with_holes<P2> p(mk<G2>(r[0], f), h); bool g = is_polygon_with_holes_simple(p, AbsCmp(FT(f))); x.check(g == want, "reported simple=%d, it is %d", g, want); x.outcome(want ? "simple" : "not simple"); }
MC_SPACE("holes1", "all pairs of triangles and squares of 3 or 4 points of a 4x4 grid with all triangles, 2 frames", 2 * pw(16, 3) * (64 + 256), [](u64 i, Ctx& x) { Dec d(i); const Frame& f = FR[d(2) * 5]; std::vector<std::vector<I2>> r(2); for (int k = 0; k < 3; ++k) r[1].push_back(gp(d(16), 4)); u64 m = d(320); if (m < 256) { static const I2 B[4] = {{-1, -1}, {4, -1}, {4, 4}, {-1, 4}}; for (int k = 0; k < 4; ++k) { int c = m >> 2 * k & 3; r[0].push_back(B[k] + I2{c & 1 ? (k == 0 || k == 3) ? 1 : -1 : 0, c & 2 ? k < 2 ? 1 : -1 : 0}); } } else { static const I2 C[4] = {{0, 0}, {3, 0}, {1, 3}, {3, 2}}; m -= 256; for (int k = 0; k < 3; ++k) r[0].push_back(C[m >> 2 * k & 3]); } holed(x, f, r); x.state(mc::H(i)); });
MC_SPACE("holes2", "a square, a notched or a self-touching ring with all pairs of small triangles of a 5x5 grid, 2 frames", 2ull * 3 * 200 * 200, [](u64 i, Ctx& x) { Dec d(i); const Frame& f = FR[d(2) * 5]; static const std::vector<I2> O[3] = {{{-1, -1}, {5, -1}, {5, 5}, {-1, 5}}, {{-1, -1}, {5, -1}, {5, 5}, {2, 2}, {-1, 5}}, {{-1, -1}, {5, -1}, {5, 5}, {2, -1}, {-1, 5}}}; std::vector<std::vector<I2>> r{O[d(3)]}; for (int k = 0; k < 2; ++k) { int c = d(25), o = d(8); I2 p = gp(c, 5); static const I2 T[8][2] = {{{1, 0}, {0, 1}}, {{-1, 0}, {0, -1}}, {{1, 0}, {1, 1}}, {{0, 1}, {1, 1}}, {{2, 0}, {0, 1}}, {{2, 1}, {1, 2}}, {{-1, 1}, {-2, 2}}, {{2, 2}, {-1, 1}}}; r.push_back({p, p + T[o][0], p + T[o][1]}); } holed(x, f, r); x.state(mc::H(i)); });
static I2 wide(I2 p) { return {p.x * 3 - 2, p.y * 4 - 1}; }
MC_SPACE("holes3", "all pairs of triangles of a 3x3 grid in all triangles of a wider grid", 0, pw(6, 3) * pw(9, 6), [](u64 i, Ctx& x) { Dec d(i); std::vector<std::vector<I2>> r(3); for (int k = 0; k < 3; ++k) for (int m = 0; m < 3; ++m) r[k].push_back(k ? gp(d(9), 3) : wide(gp(d(6), 3))); holed(x, FR[0], r); x.state(mc::H(i)); });
static const std::vector<E2>& N33() { static const std::vector<E2> v = [] { Near m(256); return pairs_of(4, 2); }(); return v; }
MC_SPACE("sweep-near", "all sets of 3 segments on a 4x2 grid of near coincidences (columns and rows in pairs one step apart, 256 steps between pairs; exact frames)", 10 * pw(28, 3), [](u64 i, Ctx& x) { Near m(256); sets(i, x, N33(), 3); });
MC_SPACE("rings-near", "all rings of 4 points of a 4x3 grid of near coincidences, exact frames", 10 * pw(12, 4), [](u64 i, Ctx& x) { Near m(256); ring(i, x, 4, 4, 3); });
MC_SPACE("self-near", "all polylines of 4 points of a 4x3 grid of near coincidences, exact frames", 10 * pw(12, 4), [](u64 i, Ctx& x) { Near m(256); self(i, x, 4, 4, 3); });
