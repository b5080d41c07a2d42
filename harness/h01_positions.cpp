// H01: lengths of point sequences, positions along polylines: midpoints, points at a position, splitting, clipping.
#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/algorithm/point_sequence/length.hpp>
#include <geometrix/algorithm/point_sequence/polyline_mid_point.hpp>
#include <geometrix/algorithm/point_sequence/polyline_split.hpp>
#include <geometrix/algorithm/point_sequence/clip_polyline_ends.hpp>
#include <geometrix/algorithm/split_segment.hpp>
using namespace gx;
static std::string S(const P2& p) { char b[80]; snprintf(b, sizeof b, "(%.12g,%.12g)", X(p), Y(p)); return b; }
static std::string S(const P3& p) { char b[120]; snprintf(b, sizeof b, "(%.12g,%.12g,%.12g)", X(p), Y(p), Z(p)); return b; }
template <class C> static std::string SS(const C& c) { std::string s; if (c.size() > 1000) return std::to_string(c.size()) + " points"; for (auto& p : c) s += S(p); return s; }
static P2 at(const P2& a, const P2& b, double t) { return P2(X(a) + t * (X(b) - X(a)), Y(a) + t * (Y(b) - Y(a))); }
static P3 at(const P3& a, const P3& b, double t) { return P3(X(a) + t * (X(b) - X(a)), Y(a) + t * (Y(b) - Y(a)), Z(a) + t * (Z(b) - Z(a))); }
template <class P> static double max_coord(const std::vector<P>& v) { double m = 1; for (auto& p : v) for (auto& q : v) m = std::max(m, dist(p, q)); return m; }
template <class P> struct Ref {
    std::vector<P> v; std::vector<double> cum; double eps;
    Ref(const std::vector<P>& w, double scale) : v(w) { cum.push_back(0); for (size_t i = 1; i < v.size(); ++i) cum.push_back(cum.back() + dist(v[i - 1], v[i])); eps = 1e-8 * scale; }
    double total() const { return cum.back(); }
    P pos(double l) const { for (size_t i = 1; i < v.size(); ++i) if (l <= cum[i] + eps && cum[i] > cum[i - 1] + eps) return at(v[i - 1], v[i], std::min(1., std::max(0., (l - cum[i - 1]) / (cum[i] - cum[i - 1])))); return v.back(); }
    // the part between two positions, without repeated points
    std::vector<P> part(double a, double b) const { std::vector<P> r; auto add = [&](const P& p) { if (r.empty() || dist(r.back(), p) > eps) r.push_back(p); }; if (!(a < b - eps)) return r; add(pos(a)); for (size_t i = 0; i < v.size(); ++i) if (cum[i] > a + eps && cum[i] < b - eps) add(v[i]); add(pos(b)); return r; }
    template <class C> bool is(const C& c, const std::vector<P>& e) const { std::vector<P> r; for (auto& p : c) if (r.empty() || dist(r.back(), p) > eps) r.push_back(p); if (r.size() == 1 && e.empty()) return true; if (r.size() != e.size()) return false; for (size_t i = 0; i < r.size(); ++i) if (dist(r[i], e[i]) > 2 * eps) return false; return true; }
};
template <class PL, class P> static void run(Ctx& x, const std::vector<P>& v, double scale, bool far = false) {
    AbsCmp cmp(1e-10); Ref<P> r(v, scale); PL pl(v.begin(), v.end()); double T = r.total(), e = r.eps;
    if (!x.check(std::fabs(polyline_length(pl) - T) <= e, "length %.12g, expected %.12g", polyline_length(pl), T)) return;
    polygon<P> pg(v.begin(), v.end()); x.check(std::fabs(polygon_length(pg) - T - dist(v.back(), v.front())) <= e, "perimeter %.12g", polygon_length(pg));
    if (T <= e) return;
    int ex_; bool whole = std::frexp(scale, &ex_) == .5; for (size_t i = 1; i < v.size(); ++i) whole = whole && r.cum[i] / scale == std::floor(r.cum[i] / scale) && dist(v[i - 1], v[i]) > 0; for (auto& p : v) whole = whole && std::floor(get<0>(p) * 4096) == get<0>(p) * 4096 && std::floor(get<1>(p) * 4096) == get<1>(p) * 4096; // all lengths exact, no point repeated in the input
    { P m = polyline_mid_point(pl); x.check(dist(m, r.pos(T / 2)) <= 4 * e, "midpoint %s", S(m).c_str()); }
    { auto sl = polyline_segment_lengths(pl); bool ok = sl.size() == v.size() - 1; for (size_t i = 0; ok && i < sl.size(); ++i) ok = std::fabs(sl[i] - r.cum[i + 1]) <= e; x.check(ok, "cumulative segment lengths"); }
    { PL rv(v.rbegin(), v.rend()), f = clip_polyline_front(pl, polyline_segment_lengths(pl).back(), cmp), b = clip_polyline_back(pl, polyline_segment_lengths(rv).back(), cmp); x.check((r.cum[v.size() - 2] > T - e || f.size() == 0) && (r.cum[1] < e || b.size() == 0), "clipping exactly the whole length leaves %zu and %zu points", (size_t)f.size(), (size_t)b.size()); }
    std::vector<double> ps{0, T / 7, T / 2, T, T * 1.25}; auto fp = far ? far_places(v.size()) : std::vector<int>(); for (size_t k = 1; k < (far ? fp.size() : v.size()); ++k) { size_t i = far ? fp[k] : k; double d = r.cum[i] - r.cum[i - 1]; for (double t : {0., .25, .5, .75}) ps.push_back(r.cum[i - 1] + t * d); }
    for (double l : ps) {
        if (l < T - e) { // a position before the end
            auto q = polyline_point_at_position(pl, l); size_t i = std::get<0>(q); auto o = std::get<1>(q); P ex = r.pos(l);
            if (x.check(i + 1 < v.size(), "position %.12g: segment %zu", l, i)) { x.check(r.cum[i] <= l + e && r.cum[i + 1] >= l - e, "position %.12g: segment %zu spans %.12g to %.12g", l, i, r.cum[i], r.cum[i + 1]); P g = o ? P(*o) : v[i]; x.check(dist(g, ex) <= 4 * e, "position %.12g: %s instead of %s", l, S(g).c_str(), S(ex).c_str()); x.outcome(o ? "inner position" : "vertex position"); }
        }
        if (l <= T) {
            PL a, b; std::tie(a, b) = polyline_split(pl, l); auto ea = r.part(0, l), eb = r.part(l, T);
            x.check(r.is(a, ea) && r.is(b, eb), "split at %.12g of %.12g: %s and %s", l, T, SS(a).c_str(), SS(b).c_str());
            x.check(a.size() && b.size() && dist(a.back(), b.front()) <= e, "split at %.12g: the parts do not share the split point", l);
            if (whole) { bool rep = false; for (auto* c : {&a, &b}) for (size_t k = 1; k < c->size(); ++k) rep |= dist((*c)[k - 1], (*c)[k]) == 0; x.check(!rep, "split at %.12g of %.12g repeats a point: %s and %s", l, T, SS(a).c_str(), SS(b).c_str()); }
            x.check(a.empty() || b.empty() || (dist(a.front(), v.front()) <= e && dist(b.back(), v.back()) <= e), "split at %.12g of %.12g: %s and %s lose an end", l, T, SS(a).c_str(), SS(b).c_str());
        }
        PL f = clip_polyline_front(pl, l, cmp), b = clip_polyline_back(pl, l, cmp), z = clip_polyline_ends(pl, l, cmp);
        x.check(r.is(f, r.part(l, T)), "front clipped by %.12g of %.12g: %s", l, T, SS(f).c_str());
        x.check(r.is(b, r.part(0, T - l)), "back clipped by %.12g of %.12g: %s", l, T, SS(b).c_str());
        x.check(r.is(z, r.part(l, T - l)), "ends clipped by %.12g of %.12g: %s", l, T, SS(z).c_str());
        x.outcome(l < T ? "clipped" : "clipped away");
    }
}
static void p2(u64 i, Ctx& x, int k, int W, bool rep) {
    Dec d(i); const Frame& f = FR[d(NFR)]; std::vector<I2> r; for (int j = 0; j < k; ++j) r.push_back(gp(d(W * W), W));
    bool dup = false; for (int j = 1; j < k; ++j) dup |= r[j] == r[j - 1]; if (dup != rep) return x.skip();
    x.in("%s, %s", str(r).c_str(), f.name); std::vector<P2> v; for (auto p : r) v.push_back(f(p)); run<L2>(x, v, f.scale); x.state(mc::H(i, k, W));
}
MC_SPACE("three", "all polylines of 3 points of a 4x4 grid, consecutive points distinct, positions at quarters of every segment, 8 frames", 8ull * 4096, [](u64 i, Ctx& x) { p2(i, x, 3, 4, false); });
MC_SPACE("four", "all polylines of 4 points of a 3x3 grid, consecutive points distinct", 8ull * 6561, [](u64 i, Ctx& x) { p2(i, x, 4, 3, false); });
MC_SPACE("repeated", "all polylines of up to 4 points of a 3x3 grid with repeated consecutive points", 8ull * (729 + 6561), [](u64 i, Ctx& x) { if (i < 8 * 729) p2(i, x, 3, 3, true); else p2(i - 8 * 729, x, 4, 3, true); });
MC_SPACE("five", "all polylines of 5 points of a 3x3 grid, consecutive points distinct", 8ull * 5000, 8ull * 59049, [](u64 i, Ctx& x) { p2(i, x, 5, 3, false); });
MC_SPACE("two", "all segments of a 5x5 grid as polylines", 8ull * 625, [](u64 i, Ctx& x) { p2(i, x, 2, 5, false); });
MC_SIZES("sizes", BIG ", as polylines, 4 frames", 4 * BIGQ / 20, 20, 40, [](u64 i, Ctx& x) { Dec d(i); const Frame& f = FR[d(4) * 2 + 1]; auto r = big_any(d); if (r.empty()) return x.skip(); x.in("%s, %s", x.verbose ? str(r).c_str() : "", f.name); std::vector<P2> v; for (auto p : r) v.push_back(f(p)); run<L2>(x, v, 10 * f.scale); x.state(mc::H(i)); });
MC_SPACE("giant", "stairs of 66001 points (all lengths exact), both ways, 3 frames, positions around the segments where 8, 16 bits and the sequence end", 3ull * 2, [](u64 i, Ctx& x) { static const int FI[] = {0, 1, 3}; Dec d(i); const Frame& f = FR[FI[d(3)]]; auto r = turned(big_chain(2, GIANT), 0, d(2)); x.in("stairs of %d points, %s", GIANT, f.name); std::vector<P2> v; for (auto p : r) v.push_back(f(p)); run<L2>(x, v, f.scale, true); x.state(mc::H(i)); });
MC_SPACE("space", "all polylines of 3 points of a 3x3x3 grid, 4 frames", 4ull * 27 * 27 * 27, [](u64 i, Ctx& x) { Dec d(i); const Frame3& f = FR3[d(4)]; std::vector<I3> r; for (int j = 0; j < 3; ++j) r.push_back(gp3(d(27), 3)); if (r[0] == r[1] || r[1] == r[2]) return x.skip(); x.in("%s, %s", str(r).c_str(), f.name); std::vector<P3> v; for (auto p : r) v.push_back(f(p)); run<L3>(x, v, f.scale); x.state(mc::H(i, 33)); });
// where a point lies on a polyline
MC_SPACE("characteristics", "all polylines of 3 points of a 3x3 grid and of 4 points of a 3x2 grid, all points of the fourfold finer grid, exact frames", 5ull * (729 + 1296), [](u64 i, Ctx& x) {
    Dec d(i); const Frame& f = FR[d(5)]; int k = 3, W = 3, n = 9; u64 q = d.v; std::vector<I2> r; if (q >= 729) { q -= 729; k = 4; n = 6; } Dec c(q); for (int j = 0; j < k; ++j) r.push_back(4 * gp(c(n), W));
    for (int j = 1; j < k; ++j) if (r[j] == r[j - 1]) return x.skip(); x.in("%s, %s", str(r).c_str(), f.name); L2 pl = mk<L2>(r, f); AbsCmp cmp(1e-10); std::vector<P2> v; for (auto p : r) v.push_back(f(p)); Ref<P2> ref(v, f.scale);
    for (int a = -1; a <= 9; ++a) for (int b = -1; b <= 9; ++b) { I2 p{a, b}; int seg = -1; for (int j = 0; j + 1 < k && seg < 0; ++j) if (on_seg(r[j], r[j + 1], p)) seg = j;
        auto t = point_on_polyline_length_characteristics(pl, f(p), cmp); double pre = std::get<0>(t).value(), post = std::get<1>(t).value(); size_t ix = std::get<2>(t).value();
        double E = seg < 0 ? ref.total() : ref.cum[seg] + dist(v[seg], f(p)), Po = seg < 0 ? 0 : ref.total() - E;
        x.check(std::fabs(pre - E) <= ref.eps && std::fabs(post - Po) <= ref.eps && ix == (seg < 0 ? size_t(-1) : size_t(seg)), "point (%d,%d): %.12g before, %.12g after, segment %zd; expected %.12g, %.12g, %d", a, b, pre, post, ix, E, Po, seg); x.outcome(seg < 0 ? "off the polyline" : "on the polyline"); }
    x.state(mc::H(i, 44)); });
template <class SG, class P> static void pieces(Ctx& x, const P& a, const P& b, double sc) {
    double L = dist(a, b); SG s(a, b);
    for (double m : {L * 3, L * 1.01, L * .75, L * .49, L * .3, L / 7, L / 30}) {
        if (m <= 0) m = sc; auto v = split_segment(s, m); size_t n = 1; while (L / n > m * (1 + 1e-12)) n *= 2;
        if (!x.check(v.size() == n, "segment of length %.12g split to pieces of at most %.12g: %zu pieces, expected %zu", L, m, v.size(), n)) return;
        bool ok = true; for (size_t i = 0; i < n; ++i) ok = ok && dist(get_start(v[i]), at(a, b, double(i) / n)) <= 1e-8 * sc && dist(get_end(v[i]), at(a, b, double(i + 1) / n)) <= 1e-8 * sc; x.check(ok, "the pieces of at most %.12g do not tile the segment", m); x.outcome(n > 1 ? "split" : "kept"); }
}
MC_SPACE("pieces", "all segments of a 4x4 grid (8 frames) and of a 3x3x3 grid (4 frames), 7 maximum lengths", 8ull * 256 + 4ull * 729, [](u64 i, Ctx& x) { if (i < 2048) { Dec d(i); const Frame& f = FR[d(8)]; I2 a = gp(d(16), 4), b = gp(d(16), 4); x.in(PF PF " %s", PA(a), PA(b), f.name); pieces<S2>(x, f(a), f(b), f.scale); } else { Dec d(i - 2048); const Frame3& f = FR3[d(4)]; I3 a = gp3(d(27), 3), b = gp3(d(27), 3); x.in(PF3 PF3 " %s", PA3(a), PA3(b), f.name); pieces<S3>(x, f(a), f(b), f.scale); } x.state(mc::H(i, 55)); });
