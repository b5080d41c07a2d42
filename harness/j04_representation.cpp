// J04: the same results for points and vectors of any representation
#include "reps.hpp"
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/segment_mid_point.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/distance/point_line_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_distance.hpp>
#include <geometrix/algorithm/distance/point_polygon_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/point_sequence/is_polygon_simple.hpp>
#include <geometrix/algorithm/point_sequence/length.hpp>
#include <geometrix/algorithm/point_sequence/polyline_mid_point.hpp>
#include <geometrix/algorithm/point_sequence/remove_collinear_points.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
using namespace mc;
using namespace geometrix;
typedef long double LD;
static thread_local double EPS = 1e-12; // to which results are compared at least
static bool near_(double a, double b, double tol = 1e-9) { return mc::close(a, b, std::max(tol, EPS)); }
// M: scale of the integer model to coordinates (exact in float)
static const double SC[] = {1, -2.5, .125};
template <class P> static double x0(const P& p) { return double(gx::get<0>(p)); }
template <class P> static double x1(const P& p) { return double(gx::get<1>(p)); }
template <class P> static double x2(const P& p) { return double(gx::get<2>(p)); }
template <class P> static bool is(const P& p, double a, double b) { return near_(x0(p), a, EPS) && near_(x1(p), b, EPS); }
template <class P> static bool is(const P& p, double a, double b, double c) { return is(p, a, b) && near_(x2(p), c, EPS); }

// what a representation does not support at compile time
template <class P> struct can { static const bool set = true, segdist = true, cmp = true, line = true; };
template <> struct can<MemP2> { static const bool set = false, segdist = false, cmp = true, line = true; };
template <> struct can<MemP3> : can<MemP2> {};
template <> struct can<IdxP2> { static const bool set = false, segdist = true, cmp = true, line = true; };
template <> struct can<IdxP3> : can<IdxP2> {};
template <> struct can<MixP2> { static const bool set = true, segdist = false, cmp = false, line = false; };
template <> struct can<MixP3> : can<MixP2> {};
typedef gx::point<float, 2> FltP2; typedef gx::vector<float, 2> FltV2; typedef gx::point<float, 3> FltP3; typedef gx::vector<float, 3> FltV3;
template <> struct can<FltP2> { static const bool set = true, segdist = true, cmp = false, line = true; };
template <> struct can<FltP3> : can<FltP2> {};
template <bool> struct If { template <class F> static void run(F f) { f(0); } };
template <> struct If<false> { template <class F> static void run(F) {} };

template <class P> static void set_(P& p, Ctx& x, std::true_type) { gx::set<0>(p, 7.5); x.check(is(p, 7.5, x1(p)) && x0(p) == 7.5, "set<0>"); double keep = x0(p); gx::set<1>(p, -3.25); x.check(x0(p) == keep && x1(p) == -3.25, "set<1>"); }
template <class P> static void set_(P&, Ctx&, std::false_type) {}
template <class P> static void cmp_(const P& a, const P& b, const P2& nb, bool eq, Ctx& x, std::true_type) { AbsCmp c(1e-9); x.check(numeric_sequence_equals(a, b, c) == eq && numeric_sequence_equals(a, nb, c) == eq && numeric_sequence_equals(nb, a, c) == eq, "numeric_sequence_equals"); }
template <class P> static void cmp_(const P&, const P&, const P2&, bool, Ctx&, std::false_type) {}
template <class P> static void mixed_type(const P& p, const P2& nq, Ctx& x, std::true_type) { typedef typename geometric_traits<typename std::decay<decltype(p - nq)>::type>::arithmetic_type A; typedef typename geometric_traits<typename std::decay<decltype(nq - p)>::type>::arithmetic_type B; x.check(std::is_same<A, double>::value && std::is_same<B, double>::value, "differences with a library point are computed in less than double"); }
template <class P> static void mixed_type(const P&, const P2&, Ctx&, std::false_type) {}
// 2d: expressions and construction on a pair of points and a vector
template <class P, class V> static void algebra2(u64 idx, Ctx& x) {
    Dec d(idx); I2 a = {d(4) - 1, d(4) - 1}, b = {d(4) - 1, d(4) - 1}, v = {d(3) - 1, d(3) - 1}; double s = SC[d(3)];
    x.in("a = " PF ", b = " PF ", v = " PF ", times %g", PA(a), PA(b), PA(v), s);
    const P p(a.x * s, a.y * s), q(b.x * s, b.y * s); const V w(v.x * s, v.y * s); const P2 nq(b.x * s, b.y * s); const V2 nw(v.x * s, v.y * s);
    x.check(is(p, a.x * s, a.y * s) && is(w, v.x * s, v.y * s), "get");
    P r(1, 2), r2(3, 4); r <<= p + w; x.check(is(r, (a.x + v.x) * s, (a.y + v.y) * s), "p + v = (%g, %g)", x0(r), x1(r));
    r2 <<= p - 2.0 * w; x.check(is(r2, (a.x - 2 * v.x) * s, (a.y - 2 * v.y) * s), "p - 2 v = (%g, %g)", x0(r2), x1(r2));
    r <<= r + w; x.check(is(r, (a.x + 2 * v.x) * s, (a.y + 2 * v.y) * s), "p <<= p + v gives (%g, %g)", x0(r), x1(r));
    V u(9, 9); u <<= q - p; x.check(is(u, (b.x - a.x) * s, (b.y - a.y) * s), "q - p = (%g, %g)", x0(u), x1(u));
    u <<= 3.0 * (q - p) + w / 2.0 - w; x.check(is(u, (3 * (b.x - a.x) - .5 * v.x) * s, (3 * (b.y - a.y) - .5 * v.y) * s), "3(q - p) + v/2 - v = (%g, %g)", x0(u), x1(u));
    u <<= -w; x.check(is(u, -v.x * s, -v.y * s), "-v = (%g, %g)", x0(u), x1(u));
    // together with points of the library
    mixed_type(p, nq, x, std::integral_constant<bool, !std::is_same<P, MixP2>::value>());
    { P2 n; n <<= p + nw; x.check(is(n, (a.x + v.x) * s, (a.y + v.y) * s), "p + library vector"); V2 m; m <<= nq - p; x.check(is(m, (b.x - a.x) * s, (b.y - a.y) * s), "library point - p"); r <<= nq + w; x.check(is(r, (b.x + v.x) * s, (b.y + v.y) * s), "library point + v"); }
    { P k = gx::construct<P>(nq); x.check(is(k, b.x * s, b.y * s), "construct from a library point"); P2 n = gx::construct<P2>(p); x.check(is(n, a.x * s, a.y * s), "library point constructed"); P k2 = gx::construct<P>(b.x * s, a.y * s); x.check(is(k2, b.x * s, a.y * s), "construct of coordinates"); P2 n2; gx::assign(n2, p); x.check(is(n2, a.x * s, a.y * s), "library point assigned"); P k3(5, 5); gx::assign(k3, nq); x.check(is(k3, b.x * s, b.y * s), "assigned from a library point"); P2 n3 = gx::construct<P2>(as_vector(p)); x.check(is(n3, a.x * s, a.y * s), "as_vector"); }
    { P k = p; set_(k, x, std::integral_constant<bool, can<P>::set>()); }
    double dt = ((b.x - a.x) * v.x + (b.y - a.y) * v.y) * s * s, cr = (double)cross(b - a, v) * s * s; V pq(x0(q) - x0(p), x1(q) - x1(p));
    x.check(near_(dot_product(pq, w), dt) && near_(dot_product(pq, nw), dt), "dot product"); x.check(near_(exterior_product_area(pq, w), cr) && near_(exterior_product_area(nw, pq), -cr), "exterior product");
    x.check(near_(magnitude(w), std::sqrt((double)dot(v, v)) * std::fabs(s)) && near_(magnitude_sqrd(w), dot(v, v) * s * s), "magnitude");
    double ds = std::sqrt((double)dot(b - a, b - a)) * std::fabs(s); x.check(near_(point_point_distance(p, q), ds) && near_(point_point_distance(p, nq), ds) && near_(point_point_distance_sqrd(nq, p), ds * ds), "distance"); AbsCmp c(1e-9);
    x.check(numeric_sequence_equals_2d(p, q, c) == (a == b), "numeric_sequence_equals_2d"); cmp_(p, q, nq, a == b, x, std::integral_constant<bool, can<P>::cmp>());
    double pa = s < 0 ? -a.x : a.x; bool ll = a.x * s != b.x * s ? a.x * s < b.x * s : a.y * s < b.y * s; x.check(lexicographically_less_than(p, q, c) == ll, "lexicographically_less_than"); (void)pa;
    x.outcome(sgn(cr));
}
// 2d: predicates and measures on four points
template <class P> static void dist_(const std::vector<I2>& I, const std::vector<P>& p, double s, Ctx& x, std::true_type) {
    for (int k = 0; k < 1; ++k) { Q t; I2 a = I[0], b = I[1], c = I[2]; I2 ab = b - a; i64 l = dot(ab, ab); if (l) t = qmin(qmax(Q(dot(c - a, ab)) / Q(l), Q(0)), Q(1)); Q2 f = Q2(a) + t * Q2(ab); Q2 e = Q2(c) - f; double ds = std::sqrt(dot(e, e).dbl()) * std::fabs(s);
        segment<P> sg(p[0], p[1]); x.check(near_(point_segment_distance(p[2], sg), ds, 1e-8) && near_(point_segment_distance_sqrd(p[2], p[0], p[1]), ds * ds, 1e-8), "point_segment_distance is %.12g, not %.12g", (double)point_segment_distance(p[2], sg), ds);
        auto z = point_segment_closest_point(p[2], p[0], p[1]); x.check(is(z, f.x.dbl() * s, f.y.dbl() * s), "closest point (%g, %g)", x0(z), x1(z)); auto m = segment_mid_point(sg); x.check(is(m, (a.x + b.x) * .5 * s, (a.y + b.y) * .5 * s), "mid point"); polyline<P> pl{p[0], p[1], p[2]};
        LD l1 = std::sqrt((LD)dot(b - a, b - a)), l2 = std::sqrt((LD)dot(c - b, c - b)); if (l1 + l2 > 0) { LD h = (l1 + l2) / 2; I2 u = h <= l1 ? a : b, w = h <= l1 ? b : c; LD k = h <= l1 ? h / l1 : (h - l1) / l2; auto y = polyline_mid_point(pl); x.check(near_(x0(y), double(u.x + k * (w.x - u.x)) * s, 1e-9) && near_(x1(y), double(u.y + k * (w.y - u.y)) * s, 1e-9), "polyline_mid_point (%g, %g)", x0(y), x1(y)); } }
    if (orient(I[0], I[1], I[2])) { std::vector<I2> r(I.begin(), I.begin() + 3); polygon<P> g{p[0], p[1], p[2]}; double best = 1e9; for (int i = 0; i < 3; ++i) { I2 a = I[i], b = I[(i + 1) % 3], c = I[3]; I2 ab = b - a; Q t = qmin(qmax(Q(dot(c - a, ab)) / Q(dot(ab, ab)), Q(0)), Q(1)); Q2 e = Q2(c) - (Q2(a) + t * Q2(ab)); best = std::min(best, std::sqrt(dot(e, e).dbl()) * std::fabs(s)); } x.check(near_(point_polygon_distance(p[3], g), best, 1e-8), "point_polygon_distance"); }
}
template <class P> static void dist_(const std::vector<I2>&, const std::vector<P>&, double, Ctx&, std::false_type) {}
template <class P> static void line_(const std::vector<I2>& I, const std::vector<P>& p, double s, Ctx& x, std::true_type) { if (I[0] != I[1]) { double e = orient(I[0], I[1], I[2]) / std::sqrt((double)dot(I[1] - I[0], I[1] - I[0])) * std::fabs(s); double g = point_line_distance(p[2], line<P>(p[0], p[1])); x.check(near_(std::fabs(g), std::fabs(e), 1e-8), "point_line_distance %g, true %g", g, e); } }
template <class P> static void line_(const std::vector<I2>&, const std::vector<P>&, double, Ctx&, std::false_type) {}
template <class P, class V> static void predicates2(u64 idx, Ctx& x, int W) {
    Dec d(idx); std::vector<I2> I; for (int i = 0; i < 4; ++i) I.push_back(gp(d(W * W), W)); double s = SC[d(3)]; x.in("%s times %g", str(I).c_str(), s);
    std::vector<P> p; std::vector<P2> n; for (auto q : I) { p.push_back(P(q.x * s, q.y * s)); n.push_back(P2(q.x * s, q.y * s)); } AbsCmp c(1e-9);
    i64 o = orient(I[0], I[1], I[2]); int e = o > 0 ? oriented_left : o < 0 ? oriented_right : oriented_collinear;
    x.check(get_orientation(p[0], p[1], p[2], c) == e && get_orientation(p[0], n[1], p[2], c) == e && get_orientation(n[0], p[1], n[2], c) == e, "get_orientation"); if (I[0] != I[1]) x.check(is_between(p[0], p[1], p[2], true, c) == on_seg(I[0], I[1], I[2]), "is_between");
    if (I[0] != I[1] && I[2] != I[3]) { P ip[2]; bool meet = segs_meet(I[0], I[1], I[2], I[3]); auto t = segment_segment_intersection(p[0], p[1], p[2], p[3], ip, c); auto t2 = segment_segment_intersection(segment<P>(p[0], p[1]), segment<P>(p[2], p[3]), ip, c); x.check((t != e_non_crossing) == meet && t == t2, "segment_segment_intersection %d, %d", int(t), int(t2));
        i64 cr = cross(I[1] - I[0], I[3] - I[2]); if (meet && cr) { Q k = Q(cross(I[2] - I[0], I[3] - I[2])) / Q(cr); Q2 f = Q2(I[0]) + k * Q2(I[1] - I[0]); x.check(near_(x0(ip[0]), f.x.dbl() * s, 1e-6) && near_(x1(ip[0]), f.y.dbl() * s, 1e-6), "intersection (%g, %g)", x0(ip[0]), x1(ip[0])); } x.outcome(int(t)); }
    { polygon<P> g{p[0], p[1], p[2]}; std::vector<I2> r(I.begin(), I.begin() + 3); if (o) { int w = ring_side(r, I[3]); if (w) x.check(point_in_polygon(p[3], g) == (w > 0) && point_in_polygon(n[3], g) == (w > 0), "point_in_polygon"); x.check(near_(get_area(g), std::fabs(.5 * o * s * s)), "get_area %g", (double)get_area(g)); auto m = get_centroid(g); x.check(near_(x0(m), (I[0].x + I[1].x + I[2].x) / 3. * s, 1e-6) && near_(x1(m), (I[0].y + I[1].y + I[2].y) / 3. * s, 1e-6), "get_centroid (%g, %g)", x0(m), x1(m)); }
      LD len = 0; for (int i = 0; i < 3; ++i) { I2 u = I[(i + 1) % 3] - I[i]; len += std::sqrt((LD)dot(u, u)); } x.check(near_(polygon_length(g), double(len * std::fabs(s)), 1e-6), "polygon_length"); polyline<P> h{p[0], p[1], p[2]}; I2 u = I[0] - I[2]; x.check(near_(polyline_length(h), double((len - std::sqrt((LD)dot(u, u))) * std::fabs(s)), 1e-6), "polyline_length"); }
    { polygon<P> g{p[0], p[1], p[2], p[3]}; G2 m{n[0], n[1], n[2], n[3]}; x.check(is_polygon_simple(g, c) == is_polygon_simple(m, c), "is_polygon_simple"); if (is_polygon_simple(m, c)) { auto k = remove_collinear_points_polygon(g, c); auto k2 = remove_collinear_points_polygon(m, c); bool same = k.size() == k2.size(); for (std::size_t i = 0; same && i < k.size(); ++i) same = x0(k[i]) == X(k2[i]) && x1(k[i]) == Y(k2[i]); x.check(same, "remove_collinear_points_polygon"); } }
    { auto b = make_aabb<P>(p); double lx = 1e9, hx = -1e9, ly = 1e9, hy = -1e9; for (auto& q : n) { lx = std::min(lx, X(q)); hx = std::max(hx, X(q)); ly = std::min(ly, Y(q)); hy = std::max(hy, Y(q)); } x.check(is(b.get_lower_bound(), lx, ly) && is(b.get_upper_bound(), hx, hy), "make_aabb"); axis_aligned_bounding_box<P> t(P(std::min(X(n[0]), X(n[1])), std::min(Y(n[0]), Y(n[1]))), P(std::max(X(n[0]), X(n[1])), std::max(Y(n[0]), Y(n[1])))); x.check(t.intersects(p[2], c) == (X(n[2]) >= std::min(X(n[0]), X(n[1])) && X(n[2]) <= std::max(X(n[0]), X(n[1])) && Y(n[2]) >= std::min(Y(n[0]), Y(n[1])) && Y(n[2]) <= std::max(Y(n[0]), Y(n[1]))), "box and point"); }
    { V u(x0(p[1]) - x0(p[0]), x1(p[1]) - x1(p[0])), w(x0(p[2]) - x0(p[0]), x1(p[2]) - x1(p[0])); I2 iu = I[1] - I[0], iw = I[2] - I[0]; if (iu != iw) { double an = std::atan2((iw - iu).y * s, (iw - iu).x * s), g = angle_from_a_to_b(u, w); x.check(near_(std::cos(an), std::cos(g), 1e-6) && near_(std::sin(an), std::sin(g), 1e-6), "angle_from_a_to_b %g, true %g", g, an); } }
    dist_(I, p, s, x, std::integral_constant<bool, can<P>::segdist>()); line_(I, p, s, x, std::integral_constant<bool, can<P>::line>());
}
// 3d
template <class P, class V> static void algebra3(u64 idx, Ctx& x) {
    Dec d(idx); I3 a = {d(3) - 1, d(3) - 1, d(3) - 1}, b = {d(3) - 1, d(3) - 1, d(3) - 1}, v = {d(3) - 1, d(3) - 1, d(3) - 1}; double s = SC[d(3)];
    x.in("a = " PF3 ", b = " PF3 ", v = " PF3 ", times %g", PA3(a), PA3(b), PA3(v), s);
    const P p(a.x * s, a.y * s, a.z * s), q(b.x * s, b.y * s, b.z * s); const V w(v.x * s, v.y * s, v.z * s); const P3 nq(b.x * s, b.y * s, b.z * s); const V3 nw(v.x * s, v.y * s, v.z * s);
#define IS(e, I, what) { I3 i_ = I; x.check(is(e, i_.x * s, i_.y * s, i_.z * s), what " = (%g, %g, %g)", x0(e), x1(e), x2(e)); }
    IS(p, a, "get") P r(1, 2, 3); r <<= p + w; IS(r, a + v, "p + v") r <<= r - 2.0 * w; IS(r, a - v, "p + v - 2 v") V u(9, 9, 9); u <<= q - p; IS(u, b - a, "q - p") u <<= 3.0 * (q - p) + w - 2.0 * w; IS(u, 3 * (b - a) - v, "3 (q - p) + v - 2 v")
    { P3 n; n <<= p + nw; IS(n, a + v, "p + library vector") V3 m; m <<= nq - p; IS(m, b - a, "library point - p") r <<= nq + w; IS(r, b + v, "library point + v") P k = gx::construct<P>(nq); IS(k, b, "construct") P3 k2 = gx::construct<P3>(p); IS(k2, a, "library point constructed") P3 k3; gx::assign(k3, p); IS(k3, a, "library point assigned") P k4(7, 7, 7); gx::assign(k4, nq); IS(k4, b, "assigned") }
    V pq(x0(q) - x0(p), x1(q) - x1(p), x2(q) - x2(p)); double dt = dot(b - a, v) * s * s; x.check(near_(dot_product(pq, w), dt) && near_(dot_product(nw, pq), dt), "dot product"); I3 ci = cross(b - a, v); V3 cv; cv <<= pq ^ w; x.check(is(cv, ci.x * s * s, ci.y * s * s, ci.z * s * s), "cross product (%g, %g, %g)", x0(cv), x1(cv), x2(cv)); V uv(1, 1, 1); uv <<= pq ^ nw; x.check(is(uv, ci.x * s * s, ci.y * s * s, ci.z * s * s), "cross product with a library vector");
    x.check(near_(magnitude(w), std::sqrt((double)dot(v, v)) * std::fabs(s), 1e-6) && near_(magnitude_sqrd(pq), dot(b - a, b - a) * s * s), "magnitude"); double ds = std::sqrt((double)dot(b - a, b - a)) * std::fabs(s); x.check(near_(point_point_distance(p, q), ds, 1e-6) && near_(point_point_distance(nq, p), ds, 1e-6) && near_(point_point_distance_sqrd(p, nq), ds * ds), "distance");
    AbsCmp c(1e-9); bool ll = a.x * s != b.x * s ? a.x * s < b.x * s : a.y * s != b.y * s ? a.y * s < b.y * s : a.z * s < b.z * s; x.check(lexicographically_less_than(p, q, c) == ll, "lexicographically_less_than"); x.outcome(sgn(dt));
}

template <class P> void eps() { EPS = std::is_same<P, FltP2>::value ? 1e-6 : 1e-12; }
#define REP(R) MC_SPACE(#R "_algebra", "expressions, construction, assignment and measures, all pairs of points of 4x4 and vectors of 3x3, 3 scales", 256 * 9 * 3, [](u64 i, Ctx& x) { eps<R##P2>(); algebra2<R##P2, R##V2>(i, x); x.state(mc::H(i, 1)); }); \
  MC_SPACE(#R "_predicates", "predicates, intersections, distances and measures of all 4 points of 3x3 (thorough 4x4), 3 scales", 6561 * 3, [](u64 i, Ctx& x) { eps<R##P2>(); predicates2<R##P2, R##V2>(i, x, 3); x.state(mc::H(i, 3)); }); \
  MC_SPACE(#R "_predicates4", "the same on 4x4", 0, 65536 * 3, [](u64 i, Ctx& x) { eps<R##P2>(); predicates2<R##P2, R##V2>(i, x, 4); x.state(mc::H(i, 4)); }); \
  MC_SPACE(#R "_space", "expressions and measures in space, all pairs of points and vectors of 3x3x3, 3 scales", 19683 * 3, [](u64 i, Ctx& x) { eps<R##P2>(); algebra3<R##P3, R##V3>(i, x); x.state(mc::H(i, 5)); });
REP(Flt) REP(Mem) REP(Tup) REP(Idx) REP(Arr) REP(Mix)

// integer coordinates: exact where the result is integral, promoted to floating point where it is not
typedef gx::point<int, 2> IntP2; typedef gx::vector<int, 2> IntV2; typedef gx::point<int, 3> IntP3; typedef gx::vector<int, 3> IntV3; typedef gx::matrix<int, 2, 2> IntM2; typedef gx::matrix<int, 3, 3> IntM3;
template <class A> static bool ii(const A& a, I2 b) { return gx::get<0>(a) == b.x && gx::get<1>(a) == b.y; }
template <class A> static bool ii3(const A& a, I3 b) { return gx::get<0>(a) == b.x && gx::get<1>(a) == b.y && gx::get<2>(a) == b.z; }
static void int_algebra(u64 idx, Ctx& x) {
    Dec d(idx); I2 a = gp(d(25), 5) - I2{2, 2}, b = gp(d(25), 5) - I2{2, 2}, v = gp(d(9), 3) - I2{1, 1}; int k = int(d(3)) * 3 - 4; x.in("a = " PF ", b = " PF ", v = " PF ", k = %d", PA(a), PA(b), PA(v), k);
    IntP2 p(a.x, a.y), q(b.x, b.y), r; IntV2 u(b.x - a.x, b.y - a.y), w(v.x, v.y), t; I2 e = b - a; direct_comparison_policy c;
    r <<= p + w; x.check(ii(r, a + v), "p + v"); r <<= p - k * w; x.check(ii(r, a - k * v), "p - k v"); t <<= q - p; x.check(ii(t, e), "q - p"); t <<= k * (q - p) - w; x.check(ii(t, k * e - v), "k (q - p) - v"); t += w; t *= 3; t -= u; x.check(ii(t, (3 * k - 1) * e), "compound assignment"); t <<= -w; x.check(ii(t, I2{0, 0} - v), "-v");
    V2 h; h <<= u / 2; x.check(is(h, e.x / 2., e.y / 2.), "u / 2 = (%g, %g)", x0(h), x1(h)); h <<= .25 * u; x.check(is(h, e.x / 4., e.y / 4.), "u times .25"); h <<= u / k; x.check(is(h, double(e.x) / k, double(e.y) / k), "u / k");
    x.check(dot_product(u, w) == dot(e, v) && exterior_product_area(u, w) == cross(e, v) && magnitude_sqrd(u) == dot(e, e), "products"); x.check(near_(magnitude(u), std::sqrt((double)dot(e, e))) && near_(point_point_distance(p, q), std::sqrt((double)dot(e, e))) && point_point_distance_sqrd(p, q) == dot(e, e), "magnitude and distance");
    if (e != I2{0, 0}) { double l = std::sqrt((double)dot(e, e)); h <<= normalize(u); x.check(is(h, e.x / l, e.y / l), "normalize(u) = (%g, %g)", x0(h), x1(h)); x.check(near_(angle_from_a_to_b(p, q), std::atan2((double)e.y, (double)e.x)) && near_(vector_angle(u), std::atan2((double)e.y, (double)e.x)), "angles");
        if (e.x) { double s = double(e.y) / e.x; x.check(near_(get_slope(p, q), s), "slope %.12g", (double)get_slope(p, q)); for (int at = -2; at <= 2; ++at) x.check(near_(y_of_x(p, q, double(at)), a.y + s * (at - a.x)), "y at %d", at); } if (e.x && e.y) for (int at = -2; at <= 2; ++at) x.check(near_(x_of_y(p, q, double(at)), a.x + double(e.x) / e.y * (at - a.y)), "x at %d", at); }
    x.check(lexicographically_less_than(p, q, c) == (a < b) && numeric_sequence_equals(p, q, c) == (a == b) && numeric_sequence_equals_2d(p, q, c) == (a == b), "orders"); x.outcome(sgn(cross(e, v)));
}
static void int_predicates(u64 idx, Ctx& x, int W) {
    Dec d(idx); std::vector<I2> I; for (int i = 0; i < 4; ++i) I.push_back(gp(d(W * W), W)); x.in("%s", str(I).c_str()); std::vector<IntP2> p; for (auto q : I) p.push_back(IntP2(q.x, q.y)); direct_comparison_policy c;
    i64 o = orient(I[0], I[1], I[2]); int e = o > 0 ? oriented_left : o < 0 ? oriented_right : oriented_collinear; x.check(get_orientation(p[0], p[1], p[2], c) == e, "get_orientation"); if (I[0] != I[1]) x.check(is_between(p[0], p[1], p[2], true, c) == (o == 0 && dot(I[0] - I[2], I[1] - I[2]) <= 0), "is_between");
    if (I[0] != I[1] && I[2] != I[3]) { IntP2 ip[2]; bool meet = segs_meet(I[0], I[1], I[2], I[3]); auto t = segment_segment_intersection(p[0], p[1], p[2], p[3], ip, c); x.check((t != e_non_crossing) == meet, "segments meet: %d", (int)meet); i64 cr = cross(I[1] - I[0], I[3] - I[2]); if (meet && cr) { Q k = Q(cross(I[2] - I[0], I[3] - I[2])) / Q(cr); Q2 f = Q2(I[0]) + k * Q2(I[1] - I[0]); if (f.x.d == 1 && f.y.d == 1) x.check(ii(ip[0], I2{i64(f.x.n), i64(f.y.n)}), "crossing (%d,%d)", gx::get<0>(ip[0]), gx::get<1>(ip[0])); } }
    if (o) { polygon<IntP2> g{p[0], p[1], p[2]}; std::vector<I2> r(I.begin(), I.begin() + 3); int w = ring_side(r, I[3]); if (w) x.check(point_in_polygon(p[3], g) == (w > 0), "point_in_polygon, side %d", w); }
    { polygon<IntP2> g{p[0], p[1], p[2]}; x.check(near_(get_area(g), std::llabs(o) / 2.) && near_(get_signed_area(g), o / 2.), "area %g, signed %g", (double)get_area(g), (double)get_signed_area(g)); LD len = 0; for (int i = 0; i < 3; ++i) { I2 u = I[(i + 1) % 3] - I[i]; len += std::sqrt((LD)dot(u, u)); } x.check(near_(polygon_length(g), double(len)), "length"); }
    { polygon<IntP2> g{p[0], p[1], p[2], p[3]}; bool s = ring_simple(I); bool inv = false; for (int i = 0; i < 4; ++i) inv |= I[i] == I[(i + 1) % 4]; if (!inv) x.check(is_polygon_simple(g, c) == s, "is_polygon_simple, true %d", s); if (s) { auto k = remove_collinear_points_polygon(g, c); int n = 0; for (int i = 0; i < 4; ++i) n += orient(I[i], I[(i + 1) % 4], I[(i + 2) % 4]) != 0; x.check((int)k.size() == n, "%d corners, true %d", (int)k.size(), n); } x.outcome(s); }
    { auto b = make_aabb<IntP2>(p); I2 lo = I[0], hi = I[0]; for (auto q : I) lo = {std::min(lo.x, q.x), std::min(lo.y, q.y)}, hi = {std::max(hi.x, q.x), std::max(hi.y, q.y)}; x.check(ii(b.get_lower_bound(), lo) && ii(b.get_upper_bound(), hi), "bounds"); for (int q = 0; q < W * W; ++q) { I2 z = gp(q, W); x.check(b.intersects(IntP2(z.x, z.y)) == (z.x >= lo.x && z.x <= hi.x && z.y >= lo.y && z.y <= hi.y), "box holds " PF, PA(z)); } }
    { I2 u = I[1] - I[0], w = I[3] - I[2]; IntM2 m{(int)u.x, (int)u.y, (int)w.x, (int)w.y}; i64 dt = cross(u, w); x.check(determinant(m) == dt, "determinant %d", (int)determinant(m)); if (dt) { gx::matrix<double, 2, 2> n; n <<= inv(m); x.check(near_(gx::get<0, 0>(n), double(w.y) / dt) && near_(gx::get<0, 1>(n), -double(u.y) / dt) && near_(gx::get<1, 0>(n), -double(w.x) / dt) && near_(gx::get<1, 1>(n), double(u.x) / dt), "inverse"); } }
}
static void int_space(u64 idx, Ctx& x) {
    Dec d(idx); auto v = [&] { int a = int(d(3)) - 1, b = int(d(3)) * 2 - 2, c = int(d(3)) * 3 - 3; return I3{a, b, c}; }; I3 a = v(), b = v(), e = v(); x.in(PF3 PF3 PF3, PA3(a), PA3(b), PA3(e)); IntV3 p(a.x, a.y, a.z), q(b.x, b.y, b.z), r(e.x, e.y, e.z), t; IntP3 P(a.x, a.y, a.z), Z(b.x, b.y, b.z), R;
    t <<= p + 2 * q - r; x.check(ii3(t, a + 2 * b - e), "p + 2 q - r"); R <<= P + r; x.check(ii3(R, a + e), "P + r"); t <<= Z - P; x.check(ii3(t, b - a), "Z - P"); t <<= p ^ q; x.check(ii3(t, cross(a, b)), "cross product"); x.check(dot_product(p, q) == dot(a, b) && magnitude_sqrd(r) == dot(e, e) && near_(magnitude(r), std::sqrt((double)dot(e, e))) && point_point_distance_sqrd(P, Z) == dot(b - a, b - a), "products");
    V3 h; h <<= p / 2; x.check(is(h, a.x / 2., a.y / 2., a.z / 2.), "p / 2"); IntM3 m{(int)a.x, (int)a.y, (int)a.z, (int)b.x, (int)b.y, (int)b.z, (int)e.x, (int)e.y, (int)e.z}; i64 dt = dot(cross(a, b), e); x.check(determinant(m) == dt, "determinant"); t <<= m * r; x.check(ii3(t, I3{dot(a, e), dot(b, e), dot(e, e)}), "matrix times vector");
    if (dt) { gx::matrix<double, 3, 3> n; n <<= inv(m); I3 c0 = cross(b, e), c1 = cross(e, a), c2 = cross(a, b); x.check(near_(gx::get<0, 0>(n), double(c0.x) / dt) && near_(gx::get<0, 1>(n), double(c1.x) / dt) && near_(gx::get<0, 2>(n), double(c2.x) / dt) && near_(gx::get<1, 0>(n), double(c0.y) / dt) && near_(gx::get<1, 2>(n), double(c2.y) / dt) && near_(gx::get<2, 1>(n), double(c1.z) / dt) && near_(gx::get<2, 2>(n), double(c2.z) / dt), "inverse"); } x.outcome(dt ? "regular" : "singular"); }
MC_SPACE("Int_algebra", "integer coordinates: expressions, products, quotients, measures, all pairs of points of 5x5 and vectors of 3x3, 3 factors", 625 * 9 * 3, [](u64 i, Ctx& x) { EPS = 1e-12; int_algebra(i, x); x.state(mc::H(i, 6)); });
MC_SPACE("Int_predicates", "integer coordinates: predicates, areas, boxes, simplicity, determinants and inverses of all 4 points of 4x4", 65536, [](u64 i, Ctx& x) { EPS = 1e-12; int_predicates(i, x, 4); x.state(mc::H(i, 7)); });
MC_SPACE("Int_predicates5", "the same on 5x5", 0, 390625, [](u64 i, Ctx& x) { EPS = 1e-12; int_predicates(i, x, 5); x.state(mc::H(i, 9)); });
MC_SPACE("Int_space", "integer coordinates in space: expressions, products, determinants and inverses over all triples of 27 vectors", 19683, [](u64 i, Ctx& x) { EPS = 1e-12; int_space(i, x); x.state(mc::H(i, 8)); });
