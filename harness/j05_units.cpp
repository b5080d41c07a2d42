// J05: the same numbers for coordinates with physical units as for plain ones
#include "units.hpp"
#include <geometrix/arithmetic/vector.hpp>
#include <geometrix/algebra/vector_projection.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/line_intersection.hpp>
#include <geometrix/algorithm/segment_mid_point.hpp>
#include <geometrix/algorithm/rotation.hpp>
#include <geometrix/algorithm/grid_2d.hpp>
#include <geometrix/algorithm/hash_grid_2d.hpp>
#include <geometrix/algorithm/fast_voxel_grid_traversal.hpp>
#include <geometrix/algorithm/is_segment_in_range.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/distance/point_aabb_distance.hpp>
#include <geometrix/algorithm/distance/point_line_distance.hpp>
#include <geometrix/algorithm/distance/point_obb_distance.hpp>
#include <geometrix/algorithm/distance/point_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polygon_distance.hpp>
#include <geometrix/algorithm/distance/point_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polyline_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/point_segment_distance.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_distance.hpp>
#include <geometrix/algorithm/distance/segment_obb_distance.hpp>
#include <geometrix/algorithm/distance/segment_polygon_distance.hpp>
#include <geometrix/algorithm/distance/segment_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_segment_distance.hpp>
#include <geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/obb_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/polygon_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/polyline_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/polyline_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_polygon_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp>
#include <geometrix/algorithm/intersection/sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/point_sequence/clip_polyline_ends.hpp>
#include <geometrix/algorithm/point_sequence/curvature.hpp>
#include <geometrix/algorithm/point_sequence/is_polygon_simple.hpp>
#include <geometrix/algorithm/point_sequence/length.hpp>
#include <geometrix/algorithm/point_sequence/point_polyline_orientation.hpp>
#include <geometrix/algorithm/point_sequence/polygon_polygon_containment.hpp>
#include <geometrix/algorithm/point_sequence/polyline_mid_point.hpp>
#include <geometrix/algorithm/point_sequence/polyline_offset.hpp>
#include <geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp>
#include <geometrix/algorithm/point_sequence/remove_collinear_points.hpp>
#include <geometrix/algorithm/point_sequence/self_intersection.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
using namespace mc;
using namespace geometrix;
// results as named lists of numbers
struct Out {
    std::vector<std::pair<const char*, double>> v; const char* at = "";
    Out& operator()(const char* n) { at = n; v.push_back({at, 0.}); return *this; }
    template <class T> typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value, Out&>::type operator<<(const T& t) { v.push_back({at, double(t)}); return *this; }
    template <class U, class Y> Out& operator<<(const boost::units::quantity<U, Y>& q) { v.push_back({at, q.value()}); return *this; }
    template <class T, std::size_t D> Out& operator<<(const gx::point<T, D>& p) { for (std::size_t i = 0; i < D; ++i) *this << p[i]; return *this; }
    template <class T, std::size_t D> Out& operator<<(const gx::vector<T, D>& p) { for (std::size_t i = 0; i < D; ++i) *this << p[i]; return *this; }
    template <class P> Out& operator<<(const gx::segment<P>& s) { return *this << s.get_start() << s.get_end(); }
    template <class P> Out& operator<<(const gx::axis_aligned_bounding_box<P>& s) { return *this << s.get_lower_bound() << s.get_upper_bound(); }
    template <class P> Out& operator<<(const gx::polygon<P>& s) { return seq(s); }
    template <class P> Out& operator<<(const gx::polyline<P>& s) { return seq(s); }
    template <class T> Out& operator<<(const std::vector<T>& s) { return seq(s); }
    template <class S> Out& seq(const S& s) { *this << s.size(); for (auto& p : s) *this << p; return *this; }
    // the second point means something for an overlap only
    template <class P> void hit(intersection_type t, const P& a, const P& b) { *this << t << a; if (t == e_overlapping) *this << b; }
    auto hits() { return [this](intersection_type t, std::size_t i, std::size_t j, const auto& a, const auto& b) { *this << i << j; hit(t, a, b); return false; }; }
    auto self_hits() { return [this](std::size_t i, std::size_t j, intersection_type t, const auto& a, const auto& b) { *this << i << j; hit(t, a, b); return false; }; }
    auto pair_hits() { return [this](intersection_type t, std::size_t i, std::size_t j, std::size_t k, std::size_t l, const auto& a, const auto& b) { *this << i << j << k << l; hit(t, a, b); return false; }; }
    auto visitor(bool r) { return [this, r](auto&&... a) { int d[] = {(*this << a, 0)...}; (void)d; return r; }; }
};
static bool bits(double a, double b) { return std::memcmp(&a, &b, 8) == 0 || (a != a && b != b); }
static void same_out(Ctx& x, const Out& a, const Out& b) {
    size_t n = std::min(a.v.size(), b.v.size());
    for (size_t i = 0; i < n; ++i) if (std::strcmp(a.v[i].first, b.v[i].first) || !bits(a.v[i].second, b.v[i].second)) { x.check(false, "%s: plain %.17g, with units %.17g (%s)", a.v[i].first, a.v[i].second, b.v[i].second, b.v[i].first); return; }
    x.check(a.v.size() == b.v.size(), "%s: %zu results plain, %zu with units", n < a.v.size() ? a.v[n].first : n < b.v.size() ? b.v[n].first : "", a.v.size(), b.v.size());
    u64 h = 1469598103934665603ull; for (auto& p : a.v) { u64 w; std::memcpy(&w, &p.second, 8); h = (h ^ w) * 1099511628211ull; } x.state(h);
}
template <class F> static void both(Ctx& x, F f) { Out a, b; f(DK(), a); f(UK(), b); same_out(x, a, b); x.outcome((int)std::min<size_t>(a.v.size(), 400)); }
template <class K> static typename K::P pt(const P2& p) { return typename K::P(K::l(X(p)), K::l(Y(p))); }
template <class K> static typename K::V vc(const P2& p) { return typename K::V(K::l(X(p)), K::l(Y(p))); }
template <class K> static typename K::P3 pt3(const P3& p) { return typename K::P3(K::l(gx::get<0>(p)), K::l(gx::get<1>(p)), K::l(gx::get<2>(p))); }
static const int FS[] = {0, 2, 3, 5, 6, 7};
#define TYPES using P = typename K::P; using V = typename K::V; using U = typename K::U; using W = typename K::W; using L = typename K::L; using T = typename K::T; using D = typename K::D; auto c = K::cmp(); (void)sizeof(T); (void)sizeof(D); (void)sizeof(U); (void)sizeof(W); (void)sizeof(V); (void)sizeof(P); (void)sizeof(L);

// four points
static void four(Ctx& x, const I2* g, const Frame& f) {
    x.in(PF " " PF " " PF " " PF " %s", PA(g[0]), PA(g[1]), PA(g[2]), PA(g[3]), f.name);
    both(x, [&](auto k, Out& o) { using K = decltype(k); TYPES
        P a = pt<K>(f(g[0])), b = pt<K>(f(g[1])), d = pt<K>(f(g[2])), e = pt<K>(f(g[3])); const P z(K::l(0), K::l(0));
        V v(K::l(0), K::l(0)), w = v, r = v; v <<= b - a; w <<= e - d; segment<P> s(a, b), t(d, e);
        r <<= v + 2.0 * w - v / 3.0; o("sum") << r; r <<= -r; o("negated") << r; P q = z; q <<= a + w; o("translated") << q; q <<= q - v; o("translated") << q;
        o("dot") << dot_product(v, w); o("area") << exterior_product_area(v, w); o("length") << magnitude(v) << magnitude_sqrd(v); r <<= perp(v); o("perp") << r; r <<= left_normal(v); o("left") << r; r <<= right_normal(v); o("right") << r;
        o("orientation") << get_orientation(a, b, d, c) << get_orientation(v, w, c); o("oriented") << oriented_intersection(a, b, d, e, c);
        o("between") << is_between(a, b, d, true, c) << is_between(a, b, d, false, c); o("collinear") << is_collinear(a, b, d, c); o("equal") << numeric_sequence_equals(a, b, c); o("less") << lexicographically_less_than(a, b, c);
        o("distance") << point_point_distance(a, b) << point_point_distance_sqrd(a, b); o("mid") << segment_mid_point(s);
        o("seg seg distance") << segment_segment_distance(s, t, c) << segment_segment_distance_sqrd(s, t, c);
        o("triangle") << point_in_triangle(a, b, d, e, c);
        P h[2] = {z, z}; o("seg seg") << segment_segment_intersection(a, b, d, e, h, c); o << h[0] << h[1]; h[0] = h[1] = z; o("segment segment") << segment_segment_intersection(s, t, h, c) << h[0] << h[1];
        if (!(g[0] == g[1])) {
            o("point segment") << point_segment_distance(d, s) << point_segment_distance_sqrd(d, a, b) << point_segment_closest_point(d, a, b); o("point line") << point_line_distance(d, line<P>(a, b));
            U u = U(K::d(0), K::d(0)); u <<= normalize(v); o("unit") << u; o("projection") << scalar_projection(w, u); r <<= vector_projection(w, v); o("vector projection") << r;
            L l = K::l(-1); h[0] = h[1] = z; o("ray segment") << ray_segment_intersection(d, u, a, e, l, h, c) << ray_segment_intersection(d, u, t, c) << l << h[0] << h[1];
            o("angle") << angle_from_a_to_b(a, b) << vector_angle(v); o("rotated") << rotate_point(d, u, u, e);
            if (!(g[2] == g[3])) { P y1 = z, y2 = z; D p1 = K::d(-1), p2 = K::d(-1); o("closest") << segment_segment_closest_point(a, b, d, e, p1, p2, y1, y2, c) << p1 << p2 << y1 << y2; o("vector between") << is_vector_between(v, w, V(e - a), true, c) << is_vector_between(v, w, V(e - a), false, c); }
        }
        if (!(g[0] == g[1]) && !(g[2] == g[3])) { o("in range") << is_segment_in_range_2d(t, v, w, a); h[0] = h[1] = z; o << is_segment_in_range_2d(t, v, w, a, h, c) << h[0] << h[1]; }
    });
}
static void fcase(u64 i, Ctx& x, int W, int nf) { Dec d(i); const Frame& f = FR[FS[d(nf)]]; I2 g[4]; for (auto& p : g) p = gp(d(W * W), W); four(x, g, f); }
MC_SPACE("points", "all quadruples of points of a 3x3 grid, 6 frames", 6ull * 6561, [](u64 i, Ctx& x) { fcase(i, x, 3, 6); });
MC_SPACE("points4", "all quadruples of points of a 4x4 grid, 3 frames", 0, 3ull * 65536, [](u64 i, Ctx& x) { fcase(i, x, 4, 3); });

// polylines and a point
static void chain(Ctx& x, const std::vector<I2>& g, I2 q0, int li, const Frame& f) {
    static const double LEN[] = {.5, 1, 1.75}; double len = LEN[li] * f.scale;
    x.in("%s point " PF " length %g %s", str(g).c_str(), PA(q0), LEN[li], f.name);
    both(x, [&](auto k, Out& o) { using K = decltype(k); TYPES
        polyline<P> h; for (auto p : g) h.push_back(pt<K>(f(p))); P q = pt<K>(f(q0)); L l = K::l(len); const P z(K::l(0), K::l(0));
        o("length") << polyline_length(h); o("mid") << polyline_mid_point(h); o("lengths") << polyline_segment_lengths(h) << polyline_segment_lengths(h, l);
        o("distance") << point_polyline_distance(q, h); o("closest") << point_polyline_closest_point(q, h); o("side") << point_polyline_orientation(q, h, c);
        o("front") << clip_polyline_front(h, l, c); o("back") << clip_polyline_back(h, l, c); o("ends") << clip_polyline_ends(h, l, c);
        o("collinear") << remove_collinear_points_polyline(h, c); o("clean") << clean_polyline(h, c); o("rdp") << ramer_douglas_peucker_algorithm(h, l);
        o("curvature") << polyline_signed_curvature_at_index(h, 1) << polyline_total_curvature(h); o("inflections") << inflection_points(h) << split_polyline_by_inflection_points(h);
        o("offset") << polyline_offset(h, oriented_left, l, c) << polyline_offset(h, oriented_right, l, c);
        o("self") << polyline_self_intersection(h, o.self_hits(), c);
        segment<P> s(q, h.front()); if (!(q0 == g[0])) o("segment") << segment_polyline_intersect(s, h, o.hits(), c);
        o("bounds") << make_aabb<P>(h); auto tb = get_bounds(h, c); o << std::get<0>(tb) << std::get<1>(tb) << std::get<2>(tb) << std::get<3>(tb); o("rotated") << rotate_points(h, U(K::d(1), K::d(0)), U(K::d(.6), K::d(.8)), q);
        polyline<P> h2{q, h[1]}; if (!(q0 == g[1])) { o("polylines") << polyline_polyline_distance(h, h2, c) << polyline_polyline_intersect(h, h2, o.pair_hits(), c); }
    });
}
static bool distinct_chain(const std::vector<I2>& g) { for (size_t i = 0; i + 1 < g.size(); ++i) if (g[i] == g[i + 1]) return false; return true; }
static void ccase(u64 i, Ctx& x, int n, int nf, bool full) { Dec d(i); const Frame& f = FR[FS[d(nf)]]; int li = full ? d(3) : 1; I2 q = full ? gp(d(9), 3) : gp(d(3) * 4, 3); std::vector<I2> g; for (int j = 0; j < n; ++j) g.push_back(gp(d(9), 3)); if (!distinct_chain(g)) return x.skip(); for (int j = 0; j + 2 < n; ++j) if (orient(g[j], g[j + 1], g[j + 2]) == 0 && dot(g[j + 1] - g[j], g[j + 2] - g[j + 1]) < 0) return x.skip(); chain(x, g, q, li, f); }
MC_SPACE("polylines3", "all polylines of 3 points of a 3x3 grid without reversals, all points, 3 lengths, 6 frames", 6ull * 3 * 9 * 729, [](u64 i, Ctx& x) { ccase(i, x, 3, 6, true); });
MC_SPACE("polylines4", "all polylines of 4 points of a 3x3 grid without reversals, 3 points, 2 frames", 2ull * 3 * 6561, [](u64 i, Ctx& x) { ccase(i, x, 4, 2, false); });
MC_SPACE("polylines5", "all polylines of 5 points of a 3x3 grid without reversals, 3 points, 2 frames", 0, 2ull * 3 * 59049, [](u64 i, Ctx& x) { ccase(i, x, 5, 2, false); });

// polygons, a segment and a box
static void ring(Ctx& x, const std::vector<I2>& g, I2 p0, I2 p1, const Frame& f) {
    x.in("%s segment " PF " " PF " %s", str(g).c_str(), PA(p0), PA(p1), f.name);
    bool convex = true; int n = g.size(); for (int i = 0; i < n; ++i) convex = convex && orient(g[i], g[(i + 1) % n], g[(i + 2) % n]) > 0;
    both(x, [&](auto k, Out& o) { using K = decltype(k); TYPES
        polygon<P> h; for (auto p : g) h.push_back(pt<K>(f(p))); P a = pt<K>(f(p0)), b = pt<K>(f(p1)); segment<P> s(a, b);
        o("in") << point_in_polygon(a, h) << point_polygon_containment_or_on_border(a, h, c); o("simple") << is_polygon_simple(h, c) << is_polygon_simple_memoized(h, c);
        o("area") << get_area(h) << get_signed_area(h) << get_centroid(h); o("length") << polygon_length(h); o("distance") << point_polygon_distance(a, h); o("closest") << point_polygon_closest_point(a, h);
        o("collinear") << remove_collinear_points_polygon(h, c); o("clean") << clean_polygon(h, c); o("bounds") << make_aabb<P>(h);
        if (convex && f.orient > 0) { o("in convex") << point_in_convex_polygon(a, h, c); polygon<P> t{a, b, P(a + V(K::l(-.5), K::l(2)))}; if (get_signed_area(t) > get_signed_area(t) * 0.) { o("convex polygons") << convex_polygons_intersection(h, t, c); } }
        if (!(p0 == p1)) { o("segment") << segment_polygon_distance(s, h, c) << segment_polygon_intersection(s, h, o.visitor(false), c) << segment_polygon_border_intersect(s, h, o.hits(), c); }
        I2 lo = {std::min(p0.x, p1.x), std::min(p0.y, p1.y)}, hi = {std::max(p0.x, p1.x), std::max(p0.y, p1.y)}; axis_aligned_bounding_box<P> box(P(K::l(lo.x), K::l(lo.y)), P(K::l(hi.x), K::l(hi.y)));
        o("box") << polygon_aabb_intersection(h, box) << box.intersects(h[0], c) << box.intersects(make_aabb<P>(h)) << segment_aabb_intersection(h[0], h[1], box) << point_aabb_distance(h[0], box) << point_aabb_distance_sqrd(h[1], box) << point_aabb_closest_point(h[2], box);
        polygon<P> in; for (auto& p : h) { P q = p; q <<= a + (p - a) * 0.5; in.push_back(q); } o("containment") << polygon_polygon_containment(h, in, c) << polygon_polygon_containment(in, h, c);
    });
}
static void rcase(u64 i, Ctx& x, int n, int nf) { static std::map<int, std::vector<std::vector<I2>>> R; auto& rs = R[n]; if (rs.empty()) rs = simple_rings(n, 3, 3, true); Dec d(i); const Frame& f = FR[FS[d(nf)]]; I2 a = gp(d(16), 4), b = gp(d(16), 4); ring(x, rs[d(rs.size())], a, b, f); }
MC_SPACE("polygons3", "all triangles of a 3x3 grid and all segments and boxes of a 4x4 grid, 4 frames", 4ull * 256 * simple_rings(3, 3, 3, true).size(), [](u64 i, Ctx& x) { rcase(i, x, 3, 4); });
MC_SPACE("polygons4", "all quadrilaterals of a 3x3 grid and all segments and boxes of a 4x4 grid, 1 frame", 256ull * simple_rings(4, 3, 3, true).size(), [](u64 i, Ctx& x) { rcase(i, x, 4, 1); });
MC_SPACE("polygons5", "all pentagons of a 3x3 grid and all segments and boxes of a 4x4 grid, 2 frames", 0, 512ull * simple_rings(5, 3, 3, true).size(), [](u64 i, Ctx& x) { rcase(i, x, 5, 2); });

// circles, boxes and rays
static void circles(Ctx& x, I2 m, int r0, I2 p0, I2 p1, I2 v0, const Frame& f) {
    double rad = (r0 + 1) * .75 * f.scale; x.in("centre " PF " radius %g segment " PF " " PF " velocity " PF " %s", PA(m), rad, PA(p0), PA(p1), PA(v0), f.name);
    both(x, [&](auto k, Out& o) { using K = decltype(k); TYPES
        P ce = pt<K>(f(m)), a = pt<K>(f(p0)), b = pt<K>(f(p1)); const P z(K::l(0), K::l(0)); sphere<2, P> S(ce, K::l(rad)); W vel(K::s(v0.x), K::s(v0.y)); segment<P> s(a, b);
        I2 lo = {std::min(p0.x, p1.x), std::min(p0.y, p1.y)}, hi = {std::max(p0.x, p1.x), std::max(p0.y, p1.y)}; axis_aligned_bounding_box<P> box(P(K::l(lo.x), K::l(lo.y)), P(K::l(hi.x), K::l(hi.y)));
        P q = z; o("sphere box") << sphere_aabb_intersection(S, box) << sphere_aabb_intersection(S, box, q) << q;
        if (!(p0 == p1)) { P h[2] = {z, z}; D t[2] = {K::d(-1), K::d(-1)}; auto R = segment_sphere_intersection(a, b, S, t, h, c); o("segment sphere") << (int)R << t[0] << t[1] << h[0] << h[1];
            T u = K::t(-1); q = z; if (!(v0 == I2{0, 0})) { auto M = moving_sphere_segment_intersection(S, vel, s, u, q, c); o("moving sphere segment") << bool(M) << u << q; if (lo.x < hi.x && lo.y < hi.y) { u = K::t(-1); q = z; auto N = moving_sphere_aabb_intersection(S, vel, box, u, q, c); o("moving sphere box") << bool(N) << u << q; } } }
        if (!(v0 == I2{0, 0}) && lo.x < hi.x && lo.y < hi.y) { double n = std::sqrt(double(v0.x * v0.x + v0.y * v0.y)); U dir(K::d(v0.x / n), K::d(v0.y / n)); L t = K::l(-1), t2 = K::l(-1); P h = z, h2 = z; auto R = ray_aabb_intersection(ce, dir, box, t, h, c); o("ray box") << bool(R) << t << h; auto R2 = ray_aabb_intersection(ce, dir, box, t, h, t2, h2, c); o("ray box") << bool(R2) << t << t2 << h << h2; 
            oriented_bounding_box<P, U> B(ce, dir, U(K::d(-v0.y / n), K::d(v0.x / n)), K::l(rad), K::l(1.)), C(a, U(K::d(.6), K::d(.8)), U(K::d(-.8), K::d(.6)), K::l(1.), K::l(rad)); o("obb") << point_obb_distance(a, B) << point_obb_distance_sqrd(b, B) << obb_obb_intersection(B, C, c) << segment_obb_distance(s, B, c) << segment_obb_distance_sqrd(s, C, c); }
    });
}
static const int SF[] = {0, 5, 7, 2, 6}; // no big frame: segment_sphere_intersection asserts to a fixed tolerance
static void scase(u64 i, Ctx& x, int W, int nf) { Dec d(i); const Frame& f = FR[SF[d(nf)]]; I2 v = gp(d(9), 3) - I2{1, 1}; int r = d(2); I2 m = gp(d(9), 3), a = gp(d(W * W), W), b = gp(d(W * W), W); circles(x, m, r, a, b, v, f); }
MC_SPACE("circles", "all circles (2 radii, centres of a 3x3 grid), segments and boxes of a 3x3 grid, all velocities and directions of {-1,0,1}^2, 3 frames", 3ull * 18 * 729, [](u64 i, Ctx& x) { scase(i, x, 3, 3); });
MC_SPACE("circles4", "the same with segments and boxes of a 4x4 grid, 5 frames", 0, 5ull * 18 * 9 * 256, [](u64 i, Ctx& x) { scase(i, x, 4, 5); });

// grids
MC_SPACE("grids", "grids of 1..4 x 1..3 cells of 3 widths at 3 origins: all cells, indices of points at quarter steps, all traversed segments between half steps", 4ull * 3 * 3 * 3, [](u64 i, Ctx& x) {
    Dec d(i); int nx = 1 + d(4), ny = 1 + d(3); static const double WI[] = {1, .5, .3}; double w = WI[d(3)]; static const double OR[] = {0, -2.25, 10.1}; double or0 = OR[d(3)];
    x.in("%dx%d cells of %g from %g", nx, ny, w, or0);
    both(x, [&](auto k, Out& o) { using K = decltype(k); TYPES
        grid_traits<L> g(K::l(or0), K::l(or0 + nx * w), K::l(or0), K::l(or0 + ny * w), K::l(w)); grid_2d<int, grid_traits<L>> G(g); hash_grid_2d<int, grid_traits<L>> H(g);
        o("size") << g.get_width() << g.get_height() << g.get_min_x() << g.get_max_x() << g.get_min_y() << g.get_max_y();
        for (int a = 0; a < (int)g.get_width(); ++a) for (int b = 0; b < (int)g.get_height(); ++b) { o("cell") << g.get_cell_centroid(a, b); }
        for (int a = 0; a <= 4 * nx; ++a) for (int b = 0; b <= 4 * ny; ++b) { P p(K::l(or0 + a * w * .25), K::l(or0 + b * w * .25)); o("index") << g.is_contained(p); if (g.is_contained(p)) { o << g.get_x_index(p[0]) << g.get_y_index(p[1]); if (g.get_x_index(p[0]) < g.get_width() && g.get_y_index(p[1]) < g.get_height()) { G.get_cell(p) += 1; H.get_cell(p) += 1; o << G.get_cell(p) << H.get_cell(p); } } }
        std::vector<P> pts; for (int a = 1; a < 2 * nx; ++a) for (int b = 1; b < 2 * ny; ++b) pts.push_back(P(K::l(or0 + (a * .5 + .07) * w), K::l(or0 + (b * .5 - .11) * w)));
        for (auto& p : pts) for (auto& q : pts) { o("traversal"); if (&p != &q) fast_voxel_grid_traversal(g, segment<P>(p, q), o.visitor(true), c); }
    });
});

// scalars: functions, mixed sums, promotion, construction
static const double SV[] = {0, 1, -1, .5, -.5, 2, -2, .75, 3, -3, 1.25, 7, 10, -8.5, 100, 1e-3, -1e-3, 1e6, .1, -.3};
static const int NSV = sizeof SV / sizeof *SV;
MC_SPACE("scalars", "all pairs of 20 values and of 8 integers", 400 + 64, [](u64 i, Ctx& x) {
    if (i >= 400) { static const int IV[] = {0, 1, -1, 2, 3, -4, 5, 9}; Dec d(i - 400); int a = IV[d(8)], b = IV[d(8)]; x.in("%d, %d", a, b); long p = 1; for (int k = 0; k < b; ++k) p *= a; x.check(integral_pow<long>(a, b) == (b < 0 ? 0 : p), "integral_pow"); x.check(square(a) == a * a, "square");
        x.check(pow_function()(a, b) == std::pow(double(a), double(b)) || a == 0, "pow of integers"); x.check(atan2_function()(a, b) == std::atan2(double(a), double(b)), "atan2 of integers"); x.check(do_plus(a, 2.5) == a + 2.5 && do_minus(2.5, b) == 2.5 - b && do_multiplies(a, b) == a * b && (b == 0 || do_divides(double(a), b) == double(a) / b), "mixed arithmetic"); x.state(mc::H(a, b, 5)); return; }
    Dec d(i); double a = SV[d(NSV)], b = SV[d(NSV)]; x.in("%g, %g", a, b);
    auto eq = [&](const char* n, double g, double e) { x.check(bits(g, e), "%s: %.17g, expected %.17g", n, g, e); };
    UK::D qa(a), qb(b); UK::L la = UK::l(a), lb = UK::l(b);
    eq("abs", abs_function()(a), std::abs(a)); eq("sqrt", sqrt_function()(a), std::sqrt(a)); eq("sin", sin_function()(a), std::sin(a)); eq("asin", asin_function()(a), std::asin(a)); eq("cos", cos_function()(a), std::cos(a)); eq("acos", acos_function()(a), std::acos(a)); eq("tan", tan_function()(a), std::tan(a)); eq("atan", atan_function()(a), std::atan(a)); eq("floor", floor_function()(a), std::floor(a)); eq("ceil", ceil_function()(a), std::ceil(a)); eq("exp", exp_function()(a), std::exp(a)); eq("log", log_function()(a), std::log(a)); eq("log10", log10_function()(a), std::log10(a));
    eq("pow", pow_function()(a, b), std::pow(a, b)); eq("atan2", atan2_function()(a, b), std::atan2(a, b)); eq("pow of float and double", pow_function()(float(a), b), std::pow(double(float(a)), b));
    eq("pow of dimensionless", val(pow_function()(qa, qb)), std::pow(a, b)); eq("pow of dimensionless and number", val(pow_function()(qa, b)), std::pow(a, b)); eq("pow of number and dimensionless", val(pow_function()(a, qb)), std::pow(a, b));
    eq("abs of a length", abs_function()(la).value(), std::abs(a)); eq("sqrt of an area", sqrt_function()(UK::Ar::from_value(a)).value(), std::sqrt(a)); eq("atan2 of lengths", val(atan2_function()(la, lb)), std::atan2(a, b)); eq("floor of a length", floor_function()(la).value(), std::floor(a)); eq("ceil of a length", ceil_function()(la).value(), std::ceil(a));
    { using namespace boost::units; eq("dimensionless + number", val(qa + b), a + b); eq("number + dimensionless", val(a + qb), a + b); eq("dimensionless - number", val(qa - b), a - b); eq("number - dimensionless", val(a - qb), a - b); }
    eq("do_plus", do_plus(la, lb).value(), a + b); eq("do_minus", do_minus(la, lb).value(), a - b); eq("do_multiplies", do_multiplies(la, lb).value(), a * b); eq("do_multiplies", do_multiplies(a, lb).value(), a * b); if (b != 0) { eq("do_divides", val(do_divides(la, lb)), a / b); eq("do_divides", do_divides(la, b).value(), a / b); } eq("square", square(la).value(), a * a);
    eq("construct a length", construct<UK::L>(la).value(), a); eq("construct a length from a number", construct<UK::L>(a).value(), a); eq("construct a number", construct<double>(la), a); eq("construct a number", construct<double>(float(a)), double(float(a)));
    x.state(mc::H(i, 5, 6));
});

// points of space
static void space4(Ctx& x, const I3* g, const Frame3& f) {
    x.in("(%d,%d,%d) (%d,%d,%d) (%d,%d,%d) %s", (int)g[0].x, (int)g[0].y, (int)g[0].z, (int)g[1].x, (int)g[1].y, (int)g[1].z, (int)g[2].x, (int)g[2].y, (int)g[2].z, f.name);
    both(x, [&](auto k, Out& o) { using K = decltype(k); using P = typename K::P3; using V = typename K::V3;
        P a = pt3<K>(f(g[0])), b = pt3<K>(f(g[1])), d = pt3<K>(f(g[2])); V v(K::l(0), K::l(0), K::l(0)), w = v; v <<= b - a; w <<= d - a; auto r = v ^ w;
        o("cross") << get<0>(r) << get<1>(r) << get<2>(r); o("dot") << dot_product(v, w); o("length") << magnitude(v) << magnitude_sqrd(v); o("distance") << point_point_distance(a, b) << point_point_distance_sqrd(b, d); P q = a; q <<= a + v * 2.0 - w / 3.0; o("translated") << q;
        if (!(g[0] == g[1])) { o("point segment") << point_segment_distance(d, segment<P>(a, b)); }
    });
}
MC_SPACE("space", "all triples of points of a 2x3x2 grid, 4 frames", 4ull * 1728, [](u64 i, Ctx& x) { Dec d(i); const Frame3& f = FR3[d(4)]; I3 g[3]; for (auto& p : g) { p.x = d(2); p.y = d(3); p.z = d(2); } space4(x, g, f); });
