// G01: chains and loops assembled from directed segments (doubly_connected_edge_list).
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/tensor/vector.hpp>
#include <geometrix/algebra/expression.hpp>
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/doubly_connected_edge_list.hpp>
#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/doubly_connected_edge_list.hpp>
using namespace gx;
typedef doubly_connected_edge_list<P2, AbsCmp> D; typedef std::vector<I2> R6; typedef std::vector<int> E; // E: successor of each point or -1
static const R6 SIX = {{1, 1}, {0, 2}, {1, 0}, {2, 1}, {0, 0}, {3, 2}}; static R6 PT = SIX; // PT: the points of the case at hand
static const std::vector<E>& maps(int n) { static std::map<int, std::vector<E>> m; auto& v = m[n]; if (v.empty()) { E e(n, -1); std::function<void(int, int)> go = [&](int i, int used) { if (i == n) { v.push_back(e); return; } e[i] = -1; go(i + 1, used); for (int j = 0; j < n; ++j) if (j != i && !(used >> j & 1)) { e[i] = j; go(i + 1, used | 1 << j); e[i] = -1; } }; go(0, 0); } return v; }
typedef std::vector<std::vector<int>> Seqs; static std::map<I2, int> AT; // AT: the places of very many points
static void model(const std::vector<std::pair<int, int>>& es, int n, Seqs& chains, Seqs& loops) { E nx(n, -1), pv(n, -1); for (auto& e : es) { nx[e.first] = e.second; pv[e.second] = e.first; } std::vector<bool> seen(n, false);
    for (int i = 0; i < n; ++i) if (nx[i] >= 0 && pv[i] < 0) { chains.push_back({}); for (int j = i; j >= 0; j = nx[j]) { chains.back().push_back(j); seen[j] = true; } }
    for (int i = 0; i < n; ++i) if (nx[i] >= 0 && !seen[i]) { loops.push_back({}); for (int j = i; !seen[j]; j = nx[j]) { loops.back().push_back(j); seen[j] = true; } } std::sort(chains.begin(), chains.end()); std::sort(loops.begin(), loops.end()); }
template <class C> static Seqs read(const C& c, const Frame& f, int n, bool loop, bool& bad) { Seqs r; for (auto& s : c) { std::vector<int> v; for (auto& p : s) { int k = -1; if (n > 1000) { auto it = AT.find({i64(std::llround(X(p))), i64(std::llround(Y(p)))}); k = it == AT.end() ? -1 : it->second; } else for (int i = 0; i < n; ++i) if (same(p, f(PT[i]))) k = i; if (k < 0) bad = true; v.push_back(k); } if (loop && !v.empty()) std::rotate(v.begin(), std::min_element(v.begin(), v.end()), v.end()); r.push_back(v); } std::sort(r.begin(), r.end()); return r; }
static std::string SS(const Seqs& s) { std::string t; for (auto& v : s) { if (v.size() > 1000 || s.size() > 1000) { t = std::to_string(s.size()) + " of " + std::to_string(s[0].size()) + " ... points"; break; } t += "["; for (int i : v) t += char('a' + i); t += "]"; } return t; }
static void cmpd(Ctx& x, const D& d, const std::vector<std::pair<int, int>>& es, const Frame& f, int n, const char* what) { Seqs c, l; model(es, n, c, l); bool bad = false; Seqs gc = read(d.get_polylines(), f, n, false, bad), gl = read(d.get_polygons(), f, n, true, bad); x.check(!bad && gc == c && gl == l, "%s: polylines %s polygons %s, true %s and %s", what, SS(gc).c_str(), SS(gl).c_str(), SS(c).c_str(), SS(l).c_str()); }
static void build(Ctx& x, std::vector<std::pair<int, int>> in, int n, int mode, const Frame& f);
static void cs(u64 i, Ctx& x, int n, int nm) {
    PT = SIX; Dec d(i); int mode = d(nm); const Frame& f = FR[d(2) * 6]; E e = maps(n)[d(maps(n).size())]; std::vector<std::pair<int, int>> es; for (int j = 0; j < n; ++j) if (e[j] >= 0) es.push_back({j, e[j]}); std::vector<std::pair<int, int>> in; for (int k = es.size(); k > 0; --k) { int c = d(k); in.push_back(es[c]); es.erase(es.begin() + c); } if (d.v) return x.skip(); build(x, in, n, mode, f); x.state(mc::H(i, n)); }
static void build(Ctx& x, std::vector<std::pair<int, int>> in, int n, int mode, const Frame& f) {
    std::string s; if (n < 1000) for (auto& q : in) { s += char('a' + q.first); s += char('a' + q.second); s += ' '; } x.in("edges %s, mode %d, %s", s.c_str(), mode, f.name); AbsCmp cmp(1e-8); auto P = [&](int k, int end = 0) { P2 p = f(PT[k]); return k & 1 ? p : P2(X(p) + (end ? 3e-10 : -2e-10), Y(p) + (end ? -2e-10 : 3e-10)); }; /* every other shared point comes in two shapes within the tolerance */ size_t h = in.size() / 2; std::vector<std::pair<int, int>> a(in.begin(), in.begin() + h);
    auto add = [&](D& g, size_t lo, size_t hi) { for (size_t k = lo; k < hi; ++k) if (k & 1) g.add_edge(P(in[k].first), P(in[k].second, 1)); else g.add_edge(S2(P(in[k].first), P(in[k].second, 1))); };
    if (mode == 0) { std::vector<S2> v; for (auto& q : in) v.push_back(S2(P(q.first), P(q.second, 1))); auto g = make_dcel<P2>(v, cmp); cmpd(x, g, in, f, n, "built from the segments"); }
    else if (mode == 1) { D g(cmp); cmpd(x, g, {}, f, n, "empty"); std::vector<std::pair<int, int>> cur; for (size_t k = 0; k < in.size(); ++k) { add(g, k, k + 1); cur.push_back(in[k]); g.calculate_point_sequences(); cmpd(x, g, cur, f, n, "edge by edge"); } g.calculate_point_sequences(); cmpd(x, g, in, f, n, "calculated again"); }
    else { D g(cmp); add(g, 0, h); g.calculate_point_sequences(); D c(cmp); if (mode == 5 || mode == 7) add(c, h, in.size());
        if (mode == 2) { D t(g); cmpd(x, t, a, f, n, "copied"); add(t, h, in.size()); t.calculate_point_sequences(); cmpd(x, t, in, f, n, "copied and continued"); cmpd(x, g, a, f, n, "the original"); }
        if (mode == 3) { D t(std::move(g)); cmpd(x, t, a, f, n, "moved"); add(t, h, in.size()); t.calculate_point_sequences(); cmpd(x, t, in, f, n, "moved and continued"); }
        if (mode == 4 || mode == 5) { c = g; cmpd(x, c, a, f, n, "assigned"); add(c, h, in.size()); c.calculate_point_sequences(); cmpd(x, c, in, f, n, "assigned and continued"); add(g, h, in.size()); g.calculate_point_sequences(); cmpd(x, g, in, f, n, "the original continued"); }
        if (mode == 6 || mode == 7) { c = std::move(g); cmpd(x, c, a, f, n, "move assigned"); add(c, h, in.size()); c.calculate_point_sequences(); cmpd(x, c, in, f, n, "move assigned and continued"); } }
    Seqs c, l; model(in, n, c, l); x.outcome(l.empty() ? "chains" : c.empty() ? "loops" : "chains and loops"); }
MC_SPACE("four", "all sets of directed segments on 4 points which form disjoint chains and loops, all orders of insertion, 8 ways to build", 8ull * 2 * 24 * maps(4).size(), [](u64 i, Ctx& x) { cs(i, x, 4, 8); });
MC_SPACE("five", "the same on 5 points, built in 8 ways", 8ull * 2 * 120 * maps(5).size(), [](u64 i, Ctx& x) { cs(i, x, 5, 8); });
MC_SPACE("six", "the same on 6 points, built in 2 ways", 0, 2ull * 2 * 720 * maps(6).size(), [](u64 i, Ctx& x) { cs(i, x, 6, 2); });
static void longs(u64 i, Ctx& x, bool huge) {
    Dec d(i); int mode = std::array<int, 3>{0, 1, 4}[d(3)], rev = d(2), st = d(3), step = 1 + d(11), shape = d(5), kind = std::array<int, 3>{5, 0, 1}[d(3)], n = huge ? 66 + 65 * d.v : 6 + d.v; PT = big_chain(kind, n); std::vector<std::pair<int, int>> es, in;
    for (int k = 0, b = 0; k < n; ++k) { int len = shape < 2 ? n : shape == 2 ? 3 + b % 4 : 2 + b % 5; bool last = k - b + 1 == len || k + 1 == n, loop = shape == 1 || shape == 2 || (shape == 4 && b % 2); if (!last) es.push_back({k, k + 1}); else { if (loop && k - b >= 2) es.push_back({k, b}); b = k + 1; } }
    int m = es.size(); if (std::__gcd(step, m) != 1) return x.skip(); for (int k = 0; k < m; ++k) in.push_back(es[(st * m / 3 + k * step) % m]); if (rev) std::reverse(in.begin(), in.end());
    build(x, in, n, mode, FR[0]); x.state(mc::H(i));
}
MC_SPACE("long", "6..30 (thorough: 50) points in one chain, one loop, loops of 3 and more, chains of 2 and more, or both, on a saw, a zigzag or a spiral; inserted in steps of 1..11 edges from 3 starts, both ways, 3 ways to build", 3ull * 2 * 3 * 11 * 5 * 3 * 25, 3ull * 2 * 3 * 11 * 5 * 3 * 45, [](u64 i, Ctx& x) { longs(i, x, false); });
MC_SPACE("long-huge", "the same with 66, 131, 196 and 261 points, steps 1, 4, 7, 10", 3ull * 2 * 3 * 11 * 5 * 3 * 4, [](u64 i, Ctx& x) { if (i / 18 % 11 % 3) return x.skip(); longs(i, x, true); });
MC_SPACE("giant", "66001 points in one chain, one loop, loops of 22000, chains of 2 and 3, or both, on a saw; inserted in order, backwards or in steps of 7 or 32771, 2 ways to build", 5ull * 4 * 2, [](u64 i, Ctx& x) {
    Dec d(i); int shape = d(5), step = std::array<int, 4>{1, -1, 7, 32771}[d(4)], mode = d(2) * 4, n = GIANT; PT = big_chain(0, n); AT.clear(); for (int k = 0; k < n; ++k) AT[PT[k]] = k; std::vector<std::pair<int, int>> es, in;
    for (int k = 0, b = 0; k < n; ++k) { int len = shape < 2 ? n : shape == 2 ? 22000 : 2 + b % 2; bool last = k - b + 1 == len || k + 1 == n, loop = shape == 1 || shape == 2 || (shape == 4 && b % 2); if (!last) es.push_back({k, k + 1}); else { if (loop && k - b >= 2) es.push_back({k, b}); b = k + 1; } }
    i64 m = es.size(); if (m % 7 == 0 && step == 7) return x.skip(); for (i64 k = 0; k < m; ++k) in.push_back(es[((m + 5 + k * step) % m + m) % m]); build(x, in, n, mode, FR[0]); x.state(mc::H(i)); });
