// I03: rotations, homogeneous transforms, composite matrices and Cartesian/polar frames.
#include "geo.hpp"
#include <geometrix/utility/array.hpp>
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/algebra/expression.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/tensor/homogeneous_adaptor.hpp>
#include <geometrix/tensor/vector_matrix_adaptors.hpp>
#include <geometrix/tensor/composite_matrix.hpp>
#include <geometrix/algorithm/rotation.hpp>
#include <geometrix/space/cartesian_reference_frame.hpp>
#include <geometrix/space/polar_reference_frame.hpp>
#include <geometrix/space/cartesian_polar_transformation.hpp>
#include <geometrix/space/polar_cartesian_transformation.hpp>
#include <geometrix/space/cartesian_access_traits.hpp>
#include <geometrix/space/polar_access_traits.hpp>
using namespace gx;
static bool cl(double a, double b, double s = 1) { return std::fabs(a - b) <= 1e-12 * std::max(1., s); }
// 32 directions with rational coordinates: axes, 3-4-5, 5-12-13, 8-15-17 in all octants
struct Dir { i64 x, y, n; };
static std::vector<Dir> dirs() { std::vector<Dir> r; static const i64 T[4][3] = {{1, 0, 1}, {3, 4, 5}, {5, 12, 13}, {15, 8, 17}}; for (auto& t : T) for (int o = 0; o < 8; ++o) { i64 a = t[0], b = t[1]; if (o & 1) std::swap(a, b); if (o & 2) a = -a; if (o & 4) b = -b; bool dup = false; for (auto& d : r) dup = dup || (d.x == a && d.y == b && d.n == t[2]); if (!dup) r.push_back({a, b, t[2]}); } return r; }
static const std::vector<Dir> DS = dirs();
static void rotate(u64 i, Ctx& x, int R) {
    Dec d(i); auto u = DS[d(28)], w = DS[d(28)]; int W = 2 * R + 1; I2 p = gp(d(W * W), W) - I2{R, R}, o = gp(d(25), 5); o = {o.x * 2 - 3, o.y - 2};
    V2 vu(u.x / (double)u.n, u.y / (double)u.n), vw(w.x / (double)w.n, w.y / (double)w.n); P2 pp(p.x, p.y), po(o.x, o.y); V2 t(o.y + 1, p.x - 2);
    x.in("from (%lld,%lld)/%lld to (%lld,%lld)/%lld, point (%lld,%lld) about (%lld,%lld)", u.x, u.y, u.n, w.x, w.y, w.n, p.x, p.y, o.x, o.y);
    double n = u.n * w.n, c = (u.x * w.x + u.y * w.y) / n, s = (u.x * w.y - u.y * w.x) / n; I2 q = p - o; double rx = c * q.x - s * q.y, ry = s * q.x + c * q.y;
    auto m = make_rotation_matrix(vu, vw); x.check(cl(m[0][0], c) && cl(m[1][1], c) && cl(m[1][0], s) && cl(m[0][1], -s), "make_rotation_matrix {%g %g; %g %g}, cos %g sin %g", m[0][0], m[0][1], m[1][0], m[1][1], c, s);
    auto is = [](const P2& a, double X, double Y) { return cl(a[0], X, 50) && cl(a[1], Y, 50); };
    auto a = rotate_point(pp, m, po), b = rotate_point(pp, vu, vw, po); x.check(is(a, rx + o.x, ry + o.y) && is(b, rx + o.x, ry + o.y), "rotate_point (%g,%g) (%g,%g), true (%g,%g)", a[0], a[1], b[0], b[1], rx + o.x, ry + o.y);
    V2 vq(q.x, q.y); auto v = rotate_vector(vq, m), v2 = rotate_vector(vq, vu, vw); x.check(cl(v[0], rx, 50) && cl(v[1], ry, 50) && cl(v2[0], rx, 50) && cl(v2[1], ry, 50), "rotate_vector (%g,%g), true (%g,%g)", v[0], v[1], rx, ry); v = rotate_vector(vu, vu, vw); x.check(cl(v[0], vw[0]) && cl(v[1], vw[1]), "the first direction is not carried to the second");
    I2 ring[4] = {p, {p.x + 1, p.y}, {p.x + 2, p.y + 3}, o}; G2 g; L2 l; for (auto& k : ring) { g.push_back(P2(k.x, k.y)); l.push_back(P2(k.x, k.y)); }
    auto g1 = rotate_points(g, vu, vw, po); auto g2 = rotate_translate_points(g, m, t, po); auto g3 = rotate_translate_points(g, vu, vw, t, po); auto l1 = rotate_points(l, vu, vw, po); auto l2 = rotate_translate_points(l, m, t, po);
    bool ok = g1.size() == 4 && g2.size() == 4 && g3.size() == 4 && l1.size() == 4 && l2.size() == 4; for (int k = 0; ok && k < 4; ++k) { I2 e = ring[k] - o; double X = c * e.x - s * e.y + o.x, Y = s * e.x + c * e.y + o.y; ok = is(g1[k], X, Y) && is(l1[k], X, Y) && is(g2[k], X + t[0], Y + t[1]) && is(g3[k], X + t[0], Y + t[1]) && is(l2[k], X + t[0], Y + t[1]); } x.check(ok, "rotate_points / rotate_translate_points");
    x.outcome(s == 0 ? c > 0 ? "identity" : "half turn" : s > 0 ? "left" : "right"); x.state(mc::H(i)); }
MC_SPACE("rotate", "rotations between all pairs of 28 directions of points of {-2..2}^2 about 25 centres", 28ull * 28 * 25 * 25, [](u64 i, Ctx& x) { rotate(i, x, 2); });
MC_SPACE("rotatew", "the same with points of {-7..7}^2", 28ull * 28 * 225 * 25, [](u64 i, Ctx& x) { rotate(i, x, 7); });
// homogeneous coordinates: points translate, vectors do not
MC_SPACE("affine", "all affine maps of the plane with entries of {-1..1} and translations of {-2..2}^2 and all points of {-2..2}^2", 81ull * 25 * 25, [](u64 i, Ctx& x) {
    Dec d(i); i64 a[4]; for (auto& k : a) k = i64(d(3)) - 1; I2 t = gp(d(25), 5) - I2{2, 2}, p = gp(d(25), 5) - I2{2, 2}; x.in("{%lld,%lld;%lld,%lld} + (%lld,%lld) of (%lld,%lld)", a[0], a[1], a[2], a[3], t.x, t.y, p.x, p.y);
    matrix<double, 3, 3> m = {(double)a[0], (double)a[1], (double)t.x, (double)a[2], (double)a[3], (double)t.y, 0., 0., 1.}; P2 pp(p.x, p.y); V2 pv(p.x, p.y); auto h = as_positional_homogeneous<double>(pp); auto v = as_vectoral_homogeneous<double>(pv); i64 X = a[0] * p.x + a[1] * p.y, Y = a[2] * p.x + a[3] * p.y;
    x.check(gx::get<0>(h) == p.x && gx::get<1>(h) == p.y && gx::get<2>(h) == 1 && gx::get<0>(v) == p.x && gx::get<1>(v) == p.y && gx::get<2>(v) == 0, "homogeneous coordinates");
    auto r = m * h; auto w = m * v; x.check(gx::get<0>(r) == X + t.x && gx::get<1>(r) == Y + t.y && gx::get<2>(r) == 1, "transformed point"); x.check(gx::get<0>(w) == X && gx::get<1>(w) == Y && gx::get<2>(w) == 0, "transformed vector"); P2 q = m * h; V2 wv = m * v; x.check(q[0] == X + t.x && q[1] == Y + t.y && wv[0] == X && wv[1] == Y, "stored transform");
    P2 rr = (m * m) * h; x.check(rr[0] == a[0] * (X + t.x) + a[1] * (Y + t.y) + t.x && rr[1] == a[2] * (X + t.x) + a[3] * (Y + t.y) + t.y, "composed transform"); x.state(mc::H(i)); });
MC_SPACE("affine3", "all signed axis permutations of space with translations of {-2..2}^3 and points of {-2..2}^3", 48ull * 125 * 125, [](u64 i, Ctx& x) {
    Dec d(i); static const int PM[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; auto& pm = PM[d(6)]; int sg = d(8); I3 o{2, 2, 2}, t = gp3(d(125), 5) - o, p = gp3(d(125), 5) - o; i64 tv[3] = {t.x, t.y, t.z}, pv[3] = {p.x, p.y, p.z}, w[3]; matrix<double, 4, 4> m; for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) m[r][c] = r == 3 ? c == 3 : c == 3 ? tv[r] : c == pm[r] ? sg >> r & 1 ? -1 : 1 : 0; for (int r = 0; r < 3; ++r) w[r] = (sg >> r & 1 ? -1 : 1) * pv[pm[r]];
    x.in("signed permutation %d%d%d/%d + (%lld,%lld,%lld) of (%lld,%lld,%lld)", pm[0], pm[1], pm[2], sg, t.x, t.y, t.z, p.x, p.y, p.z); P3 pp(p.x, p.y, p.z); V3 vv(p.x, p.y, p.z); auto h = as_positional_homogeneous<double>(pp); auto v = as_vectoral_homogeneous<double>(vv); P3 q = m * h; V3 u = m * v; bool ok = true; for (int k = 0; k < 3; ++k) ok = ok && q[k] == w[k] + tv[k] && u[k] == w[k]; x.check(ok, "transformed point or vector"); x.check(gx::get<3>(m * h) == 1 && gx::get<3>(m * v) == 0, "homogeneous coordinate"); x.state(mc::H(i)); });
// Composite matrices: blocks are laid out row by row in the order given
MC_SPACE("compose", "composite matrices of all 2x2 and 3x3 blocks with columns and rows", 6561 + 19683 * 3, [](u64 i, Ctx& x) {
    if (i < 6561) { Dec d(i); matrix<double, 2, 2> m; for (int k = 0; k < 4; ++k) m[k / 2][k % 2] = int(d(3)) - 1; V2 c(d(3), d(3)); V3 r(int(d(3)) + 2, d(3), 7.); auto cv = as_column_vector(c); auto rv = as_row_vector(r); auto cm = as_matrix<3, 3>(m, cv, rv); x.in("{%g,%g;%g,%g} | (%g,%g) / (%g,%g,%g)", m[0][0], m[0][1], m[1][0], m[1][1], c[0], c[1], r[0], r[1], r[2]);
        double w[9] = {m[0][0], m[0][1], c[0], m[1][0], m[1][1], c[1], r[0], r[1], r[2]}; double g[9] = {gx::get<0, 0>(cm), gx::get<0, 1>(cm), gx::get<0, 2>(cm), gx::get<1, 0>(cm), gx::get<1, 1>(cm), gx::get<1, 2>(cm), gx::get<2, 0>(cm), gx::get<2, 1>(cm), gx::get<2, 2>(cm)}; bool ok = true; for (int k = 0; k < 9; ++k) ok = ok && w[k] == g[k]; x.check(ok, "3x3 of 2x2, column, row");
        matrix<double, 3, 3> p; p <<= cm * cm; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { double s = 0; for (int k = 0; k < 3; ++k) s += w[3 * a + k] * w[3 * k + b]; ok = ok && p[a][b] == s; } x.check(ok, "product of composites"); double D = w[0] * (w[4] * w[8] - w[5] * w[7]) - w[1] * (w[3] * w[8] - w[5] * w[6]) + w[2] * (w[3] * w[7] - w[4] * w[6]); x.check(gx::get(det(cm)) == D, "determinant of a composite");
        auto c2 = as_matrix<2, 3>(m, cv); x.check(gx::get<0, 0>(c2) == w[0] && gx::get<0, 1>(c2) == w[1] && gx::get<0, 2>(c2) == w[2] && gx::get<1, 0>(c2) == w[3] && gx::get<1, 1>(c2) == w[4] && gx::get<1, 2>(c2) == w[5], "2x3 of 2x2 and column"); auto r2 = as_row_vector(c); auto c3 = as_matrix<3, 2>(m, r2); x.check(gx::get<1, 1>(c3) == w[4] && gx::get<2, 0>(c3) == w[2] && gx::get<2, 1>(c3) == w[5] && gx::get<1, 0>(c3) == w[3], "3x2 of 2x2 and row"); auto c4 = as_matrix<2, 3>(cv, m); x.check(gx::get<0, 0>(c4) == w[2] && gx::get<0, 1>(c4) == w[0] && gx::get<0, 2>(c4) == w[1] && gx::get<1, 0>(c4) == w[5] && gx::get<1, 1>(c4) == w[3] && gx::get<1, 2>(c4) == w[4], "2x3 of column and 2x2"); auto c5 = as_matrix<2, 4>(m, m); x.check(gx::get<0, 2>(c5) == w[0] && gx::get<1, 3>(c5) == w[4] && gx::get<1, 2>(c5) == w[3] && gx::get<0, 1>(c5) == w[1], "2x4 of two 2x2"); auto c6 = as_matrix<4, 4>(m, m, m, m); x.check(gx::get<2, 0>(c6) == w[0] && gx::get<3, 2>(c6) == w[3] && gx::get<2, 3>(c6) == w[1] && gx::get<1, 3>(c6) == w[4], "4x4 of four 2x2"); }
    else { Dec d(i - 6561); matrix<double, 3, 3> m; for (int k = 0; k < 9; ++k) m[k / 3][k % 3] = int(d(3)) - 1; int k = d(3); V3 c(k, 2 - k, 5); vector<double, 4> r(k + 3, 1., -k, 2.); auto cv = as_column_vector(c); auto rv = as_row_vector(r); auto cm = as_matrix<4, 4>(m, cv, rv); x.in("3x3 %llu", (unsigned long long)i); double g[16] = {gx::get<0, 0>(cm), gx::get<0, 1>(cm), gx::get<0, 2>(cm), gx::get<0, 3>(cm), gx::get<1, 0>(cm), gx::get<1, 1>(cm), gx::get<1, 2>(cm), gx::get<1, 3>(cm), gx::get<2, 0>(cm), gx::get<2, 1>(cm), gx::get<2, 2>(cm), gx::get<2, 3>(cm), gx::get<3, 0>(cm), gx::get<3, 1>(cm), gx::get<3, 2>(cm), gx::get<3, 3>(cm)};
        bool ok = true; for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) ok = ok && g[4 * a + b] == (a == 3 ? r[b] : b == 3 ? c[a] : m[a][b]); x.check(ok, "4x4 of 3x3, column, row"); }
    x.state(mc::H(i)); });
// Reference frames
typedef reference_frame_adaptor<P2, cartesian_reference_frame_2d> C2; typedef reference_frame_adaptor<P2, polar_reference_frame_2d> O2; typedef reference_frame_adaptor<P3, cartesian_reference_frame_3d> C3; typedef reference_frame_adaptor<P3, polar_reference_frame_3d> O3;
MC_SPACE("polar2", "Cartesian to polar and back: all points of {-20..20}^2, halves and thirds", 1681ull * 3, [](u64 i, Ctx& x) {
    Dec d(i); double f = 1. / (d(3) + 1); I2 p = gp(d(1681), 41) - I2{20, 20}; double X = p.x * f, Y = p.y * f; x.in("(%g,%g)", X, Y); C2 c(P2(X, Y)); O2 o(c); C2 b(o); double r = std::hypot(X, Y), t = std::atan2(Y, X);
    x.check(cl(o.get<0>(), r, r) && cl(o.get<1>(), t), "(r, theta) = (%g,%g), true (%g,%g)", o.get<0>(), o.get<1>(), r, t); x.check(cl(b.get<0>(), X, r) && cl(b.get<1>(), Y, r), "back to (%g,%g)", b.get<0>(), b.get<1>());
    x.check(cl(get_r(c).value(), r, r) && cl(get_theta(c).value(), t) && cl(get_r(o).value(), r, r) && cl(get_theta(o).value(), t), "get_r, get_theta"); x.check(get_x(c).value() == X && get_y(c).value() == Y && cl(get_x(o).value(), X, r) && cl(get_y(o).value(), Y, r), "get_x, get_y"); C2 c2(c); O2 o2(o); c2 = o; o2 = c; x.check(cl(c2.get<0>(), X, r) && cl(c2.get<1>(), Y, r) && cl(o2.get<0>(), r, r) && cl(o2.get<1>(), t), "assignment between frames"); x.state(mc::H(i)); });
MC_SPACE("polar3", "Cartesian to spherical and back: all points of {-5..5}^3 and thirds", 1331ull * 2, [](u64 i, Ctx& x) {
    Dec d(i); double f = d(2) ? 1 / 3. : 1; I3 p = gp3(d(1331), 11) - I3{5, 5, 5}; double X = p.x * f, Y = p.y * f, Z = p.z * f; x.in("(%g,%g,%g)", X, Y, Z); C3 c(P3(X, Y, Z)); O3 o(c); C3 b(o); double r = std::sqrt(X * X + Y * Y + Z * Z), t = std::atan2(Y, X), h = std::atan2(std::hypot(X, Y), Z);
    x.check(cl(o.get<0>(), r, r) && cl(o.get<1>(), t) && cl(o.get<2>(), h), "(r, theta, phi) = (%g,%g,%g), true (%g,%g,%g)", o.get<0>(), o.get<1>(), o.get<2>(), r, t, h); x.check(cl(b.get<0>(), X, r) && cl(b.get<1>(), Y, r) && cl(b.get<2>(), Z, r), "back to (%g,%g,%g)", b.get<0>(), b.get<1>(), b.get<2>());
    x.check(cl(get_r(c).value(), r, r) && cl(get_theta(c).value(), t) && cl(get_phi(c).value(), h) && cl(get_phi(o).value(), h), "get_r, get_theta, get_phi"); x.check(get_z(c).value() == Z && cl(get_x(o).value(), X, r) && cl(get_y(o).value(), Y, r) && cl(get_z(o).value(), Z, r), "get_x, get_y, get_z"); x.state(mc::H(i)); });
MC_SPACE("angles", "polar and spherical coordinates with radii 1..5 and all multiples of 7.5 degrees, to Cartesian and back", 5ull * 48 * 25, [](u64 i, Ctx& x) {
    Dec d(i); double r = d(5) + 1, u = M_PI / 24, t = (int(d(48)) - 23) * u, h = int(d(25)) * u; x.in("r %g theta %g phi %g", r, t, h); O2 o(P2(r, t)); C2 c(o); O2 b(c); x.check(cl(c.get<0>(), r * std::cos(t), r) && cl(c.get<1>(), r * std::sin(t), r), "(%g,%g)", c.get<0>(), c.get<1>()); x.check(cl(b.get<0>(), r, r) && cl(std::fabs(std::remainder(b.get<1>() - t, 2 * M_PI)), 0), "back to (%g,%g)", b.get<0>(), b.get<1>());
    O3 o3(P3(r, t, h)); C3 c3(o3); O3 b3(c3); x.check(cl(c3.get<0>(), r * std::cos(t) * std::sin(h), r) && cl(c3.get<1>(), r * std::sin(t) * std::sin(h), r) && cl(c3.get<2>(), r * std::cos(h), r), "(%g,%g,%g)", c3.get<0>(), c3.get<1>(), c3.get<2>()); x.check(cl(b3.get<0>(), r, r) && cl(b3.get<2>(), h) && (h < .01 || h > 3.14 || cl(std::fabs(std::remainder(b3.get<1>() - t, 2 * M_PI)), 0)), "back to (%g,%g,%g)", b3.get<0>(), b3.get<1>(), b3.get<2>()); x.state(mc::H(i)); });
