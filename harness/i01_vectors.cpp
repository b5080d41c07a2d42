// I01: vector and point algebra: expressions, products, assignment, compound operations.
#include "geo.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/algebra/expression.hpp>
#include <geometrix/algebra/exterior_product.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/tensor/is_null.hpp>
#include <geometrix/algebra/vector_projection.hpp>
#include <geometrix/arithmetic/vector/bisect.hpp>
#include <geometrix/arithmetic/vector/lerp.hpp>
#include <geometrix/arithmetic/vector/slerp.hpp>
#include <geometrix/arithmetic/vector/is_antiparallel.hpp>
#include <geometrix/arithmetic/vector/normalize_at_index.hpp>
#include <geometrix/tensor/numeric_sequence_compare.hpp>
using namespace gx;
typedef vector<float, 3> VF3; typedef vector<double, 4> V4; typedef point<float, 3> PF_3;
template <class E> static I3 ev3(const E& e) { return {(i64)gx::get<0>(e), (i64)gx::get<1>(e), (i64)gx::get<2>(e)}; }
template <class E> static bool is3(const E& e, I3 w) { return gx::get<0>(e) == w.x && gx::get<1>(e) == w.y && gx::get<2>(e) == w.z; }
template <class E> static bool is2(const E& e, I2 w) { return gx::get<0>(e) == w.x && gx::get<1>(e) == w.y; }
static I3 mul(i64 k, I3 a) { return {k * a.x, k * a.y, k * a.z}; }
static I3 neg(I3 a) { return {-a.x, -a.y, -a.z}; }
#define E3(e, w) do { auto&& want = (w); V r1 = construct<V>(e); V r2; r2 <<= e; V r3; r3 = e; x.check(is3(e, want) && is3(r1, want) && is3(r2, want) && is3(r3, want), #e " = (%g,%g,%g) (%g,%g,%g) (%g,%g,%g), true (%lld,%lld,%lld)", (double)gx::get<0>(e), (double)gx::get<1>(e), (double)gx::get<2>(e), (double)r1[0], (double)r1[1], (double)r1[2], (double)r2[0], (double)r2[1], (double)r2[2], want.x, want.y, want.z); } while (0)
#define P3E(e, w) do { auto&& want = (w); P r1 = construct<P>(e); P r2; r2 <<= e; P r3; r3 = e; x.check(is3(e, want) && is3(r1, want) && is3(r2, want) && is3(r3, want), #e " as a point, true (%lld,%lld,%lld)", want.x, want.y, want.z); } while (0)
#define S3(e, w) do { double g = gx::get(e); double h; h <<= e; x.check(g == (w) && h == (w), #e " = %g, %g, true %lld", g, h, (long long)(w)); } while (0)
template <class V, class P, class T> static void exprs3(u64 i, Ctx& x, int R, const char* nm) {
    int W = 2 * R + 1; Dec d(i); i64 s = i64(d(5)) - 2; I3 a = gp3(d(W * W * W), W), b = gp3(d(W * W * W), W), o{R, R, R}; a = a - o; b = b - o; I3 c{b.y + 1, a.x - 2, a.z - b.x};
    x.in("%s a (%lld,%lld,%lld) b (%lld,%lld,%lld) s %lld", nm, a.x, a.y, a.z, b.x, b.y, b.z, s);
    V va(a.x, a.y, a.z), vb(b.x, b.y, b.z), vc(c.x, c.y, c.z); P pa(a.x, a.y, a.z), pb(b.x, b.y, b.z); T t = s; double dd = s;
    E3(va + vb, a + b); E3(va - vb, a - b); E3(-va, neg(a)); E3(t * va, mul(s, a)); E3(va * t, mul(s, a)); E3(va ^ vb, cross(a, b)); E3(pa - pb, a - b);
    E3((va + vb) - vc, a + b - c); E3(va - (vb - vc), a - b + c); E3(-(va - vb), b - a); E3((va ^ vb) ^ vc, cross(cross(a, b), c)); E3(va ^ (vb ^ vc), cross(a, cross(b, c))); E3(t * (va + vb) - vc, mul(s, a + b) - c); E3((va - vb) ^ (vb - vc), cross(a - b, b - c)); E3((va * vb) * vc, mul(dot(a, b), c)); E3(va * (vb * vc), mul(dot(b, c), a)); E3(-(va ^ vb), cross(b, a)); E3((pa - pb) ^ vc, cross(a - b, c)); E3((va + t * vb) - (pa - pb), mul(s, b) + b); E3(as_vector(pa) + vb, a + b);
    E3((va * T(4)) / T(2), mul(2, a)); E3(((va + vb) * T(8)) / T(-4), mul(-2, a + b)); E3(va / T(1), a); if (s) E3((t * va) / t, a);
    P3E(pa + vb, a + b); P3E(pa - vb, a - b); P3E(pa + (vb - vc), a + b - c); P3E(pa + t * (pb - pa), a + mul(s, b - a)); P3E((pa + va) - vb, a + a - b); P3E(pb + (va ^ vb), b + cross(a, b)); P3E(pa - -vb, a + b);
    S3(va * vb, dot(a, b)); S3((va + vb) * vc, dot(a + b, c)); S3((va ^ vb) * vc, dot(cross(a, b), c)); S3(va * (vb ^ vc), dot(a, cross(b, c))); S3((pa - pb) * (va - vc), dot(a - b, a - c)); S3(va * vb + vb * vc, dot(a, b) + dot(b, c)); S3(va * vb - vb * vc, dot(a, b) - dot(b, c)); S3((va * vb) * (vb * vc), dot(a, b) * dot(b, c)); S3(-(va * vb), -dot(a, b));
    x.check(dot_product(va, vb) == dot(a, b), "dot_product"); x.check(dot_product(va - vb, vc) == dot(a - b, c), "dot_product of an expression"); x.check(magnitude_sqrd(va) == dot(a, a), "magnitude_sqrd %g", (double)magnitude_sqrd(va)); x.check(magnitude_sqrd(va - vb) == dot(a - b, a - b), "magnitude_sqrd of an expression"); x.check(magnitude_sqrd(pa - pb) == dot(a - b, a - b), "magnitude_sqrd of a difference"); x.check(std::fabs(magnitude(va) - std::sqrt((double)dot(a, a))) < 1e-5 && std::fabs(gx::get(mag(va)) - std::sqrt((double)dot(a, a))) < 1e-5, "magnitude");
    x.check(exterior_product_volume(va, vb, vc) == dot(cross(a, b), c), "exterior_product_volume %g", (double)exterior_product_volume(va, vb, vc));
    x.check(is_null(va) == (a == I3{0, 0, 0}) && is_null(va - vb) == (a == b) && is_null(va ^ vb, AbsCmp(1e-9)) == (cross(a, b) == I3{0, 0, 0}), "is_null");
    x.check(numeric_sequence_equals(va, vb, direct_comparison_policy()) == (a == b) && numeric_sequence_equals(pa + vb, pb + va, direct_comparison_policy()), "numeric_sequence_equals");
    x.state(mc::H(i, R)); x.outcome(cross(a, b) == I3{0, 0, 0} ? "parallel" : "general"); }
MC_SPACE("exprs3", "vector and point expressions over all pairs of double vectors of {-2..2}^3 and all scalars of {-2..2}", 5ull * 125 * 125, [](u64 i, Ctx& x) { exprs3<V3, P3, double>(i, x, 2, "double"); });
MC_SPACE("exprs3f", "the same over float vectors of {-1..1}^3", 5ull * 27 * 27, [](u64 i, Ctx& x) { exprs3<VF3, PF_3, float>(i, x, 1, "float"); });
MC_SPACE("exprs3w", "the same over double vectors of {-3..3}^3", 0, 5ull * 343 * 343, [](u64 i, Ctx& x) { exprs3<V3, P3, double>(i, x, 3, "double"); });
// Sequences of operations: an assignment or a compound assignment stores the value that its right hand side had before it.
static void ops(u64 i, Ctx& x, int K) {
    static const I3 A[] = {{1, 2, -1}, {0, 1, 3}, {-2, 1, 1}}, B[] = {{2, -1, 1}, {1, 1, 1}, {3, 0, -2}};
    Dec d(i); I3 a = A[d(3)], b = B[d(3)], p{1, -2, 3}; V3 v(a.x, a.y, a.z), w(b.x, b.y, b.z); P3 q(p.x, p.y, p.z); std::string s;
    static const char* N[] = {"v = v ^ w", "v <<= v ^ w", "w = w ^ v", "v += v ^ w", "v -= w ^ v", "v = (v ^ w) + v", "v += w", "w -= v", "v *= 2", "w /= 2", "v = -v", "v = v * (v * w)", "q = q + (v ^ (q - v))", "q <<= q - v", "v *= v[1]", "w = q - (q - w)", "v = w", "v += v", "w -= w * 2", "v = M * v", "q = M * q", "w = w ^ (v ^ w)"};
    const int NO = sizeof N / sizeof *N; matrix<double, 3, 3> M = {{{0, 1, 0}, {0, 0, 1}, {2, -1, 0}}};
    for (int k = 0; k < K; ++k) { int o = d(NO); i64 m = 0; for (I3 t : {a, b, p}) m = std::max<i64>({m, std::llabs(t.x), std::llabs(t.y), std::llabs(t.z)}); if (m > 50000) return x.skip(); auto ap = [](I3 t) { return I3{t.y, t.z, 2 * t.x - t.y}; };
        if (o == 9 && ((b.x | b.y | b.z) & 1)) return x.skip(); if (o == 14 && a.y == 0) return x.skip(); s += N[o]; s += "; ";
        switch (o) {
        case 0: v = v ^ w; a = cross(a, b); break; case 1: v <<= v ^ w; a = cross(a, b); break; case 2: w = w ^ v; b = cross(b, a); break;
        case 3: v += v ^ w; a = a + cross(a, b); break; case 4: v -= w ^ v; a = a - cross(b, a); break; case 5: v = (v ^ w) + v; a = a + cross(a, b); break;
        case 6: v += w; a = a + b; break; case 7: w -= v; b = b - a; break; case 8: v *= 2; a = mul(2, a); break; case 9: w /= 2; b = {b.x / 2, b.y / 2, b.z / 2}; break;
        case 10: v = -v; a = neg(a); break; case 11: v = v * (v * w); a = mul(dot(a, b), a); break; case 12: q = q + (v ^ (q - P3(v[0], v[1], v[2]))); p = p + cross(a, p - a); break; case 13: q <<= q - v; p = p - a; break;
        case 14: v *= v[1]; a = mul(a.y, a); break; case 15: w = q - (q - w); break; case 16: v = w; a = b; break; case 17: v += v; a = a + a; break; case 18: w -= w * 2.; b = neg(b); break;
        case 19: v = M * v; a = ap(a); break; case 20: q = M * q; p = ap(p); break; case 21: w = w ^ (v ^ w); b = cross(b, cross(a, b)); break; }
        auto in = [&] { x.in("v (%lld,%lld,%lld) w (%lld,%lld,%lld) after %s", A[i % 3].x, A[i % 3].y, A[i % 3].z, B[i / 3 % 3].x, B[i / 3 % 3].y, B[i / 3 % 3].z, s.c_str()); };
        if (!(is3(v, a) && is3(w, b) && is3(q, p))) { in(); x.check(false, "v (%g,%g,%g) w (%g,%g,%g) q (%g,%g,%g), true (%lld,%lld,%lld) (%lld,%lld,%lld) (%lld,%lld,%lld)", v[0], v[1], v[2], w[0], w[1], w[2], q[0], q[1], q[2], a.x, a.y, a.z, b.x, b.y, b.z, p.x, p.y, p.z); return; }
        x.check(true, "ok"); x.step(); x.state(mc::H(a.x, a.y, a.z, b.x, b.y, b.z, p.x, p.y, p.z)); }
    x.outcome(a == I3{0, 0, 0} ? "null vector" : "vector"); }
MC_SPACE("ops3", "all sequences of 3 of 22 assignments and compound assignments, also of expressions over the assigned object, from 9 pairs of vectors", 9ull * 22 * 22 * 22, [](u64 i, Ctx& x) { ops(i, x, 3); });
MC_SPACE("ops4", "all sequences of 4 of the 22 operations", 9ull * 22 * 22 * 22 * 22, [](u64 i, Ctx& x) { ops(i, x, 4); });
MC_SPACE("ops5", "all sequences of 5 of the 22 operations", 9ull * 22 * 22 * 22 * 22 * 22, [](u64 i, Ctx& x) { ops(i, x, 5); });
// Plane vectors: products, normals; and the functions that need square roots.
static bool nr(double a, long double b, double t = 1e-12) { return std::fabs(a - (double)b) <= t * std::max(1.0, std::fabs((double)b)); }
MC_SPACE("exprs2", "vector and point expressions, plane products and normals over all pairs of vectors of {-4..4}^2 and all scalars of {-2..2}", 5ull * 81 * 81, [](u64 i, Ctx& x) {
    Dec d(i); i64 s = i64(d(5)) - 2; I2 o{4, 4}, a = gp(d(81), 9) - o, b = gp(d(81), 9) - o, c{b.y + 1, a.x - 2}; double t = s; V2 va(a.x, a.y), vb(b.x, b.y), vc(c.x, c.y); P2 pa(a.x, a.y), pb(b.x, b.y); vector<float, 2> fa(a.x, a.y);
    x.in("a (%lld,%lld) b (%lld,%lld) s %lld", a.x, a.y, b.x, b.y, s);
#define E2(e, w) do { V2 r; r <<= e; V2 q = e; x.check(is2(e, w) && is2(r, w) && is2(q, w), #e); } while (0)
    E2(va + vb, a + b); E2(va - vb, a - b); E2(-va, (I2{-a.x, -a.y})); E2(t * va, s * a); E2(va * t, s * a); E2(pa - pb, a - b); E2(t * (va - vb) + vc * 3, s * (a - b) + 3 * c); E2((va * vb) * vc, dot(a, b) * c); E2(va * 4 / -2, -2 * a); E2((pa - pb) + t * vc, a - b + s * c);
    P2 r = pa + t * (pb - pa); x.check(is2(r, a + s * (b - a)), "point on a line"); r <<= pa - vb; x.check(is2(r, a - b), "point minus vector"); r <<= r + va; x.check(is2(r, a - b + a), "point moved in place");
    S3(va * vb, dot(a, b)); S3((va - vb) * vc + va * va, dot(a - b, c) + dot(a, a)); x.check(exterior_product_area(va, vb) == cross(a, b) && exterior_product_area(va - vc, vb + vc) == cross(a - c, b + c), "exterior_product_area"); x.check(dot_product(va, vb) == dot(a, b) && magnitude_sqrd(va - vb) == dot(a - b, a - b), "dot_product, magnitude_sqrd");
    I2 l{-a.y, a.x}, rt{a.y, -a.x}; x.check(is2(perp(va), l) && is2(left_normal(va), l) && is2(right_normal(va), rt) && is2(oriented_normal<oriented_left>(va), l) && is2(oriented_normal<oriented_right>(va), rt), "normals"); x.check(is2(left_normal(fa), l) && is2(right_normal(fa), rt) && is2(perp(fa), l), "normals of a float vector");
    x.state(mc::H(i)); });
MC_SPACE("metric", "magnitudes, normalization, projections, bisectors and interpolations over all pairs of vectors of {-7..7}^2", 225ull * 225, [](u64 i, Ctx& x) {
    Dec d(i); I2 o{7, 7}, a = gp(d(225), 15) - o, b = gp(d(225), 15) - o; if (a == I2{0, 0} || b == I2{0, 0}) return x.skip(); V2 va(a.x, a.y), vb(b.x, b.y); x.in("a (%lld,%lld) b (%lld,%lld)", a.x, a.y, b.x, b.y); long double A = sqrtl(dot(a, a)), B = sqrtl(dot(b, b)); vector<float, 2> fa(a.x, a.y);
    x.check(nr(magnitude(va), A) && nr(gx::get(mag(va)), A) && nr(magnitude(va - vb), sqrtl(dot(a - b, a - b))), "magnitude"); auto n = normalize(va); V2 n2; n2 <<= norm(va); V2 n3 = normalize(3. * va); x.check(nr(n[0], a.x / A) && nr(n[1], a.y / A) && nr(n2[0], a.x / A) && nr(n2[1], a.y / A) && nr(n3[0], a.x / A) && nr(n3[1], a.y / A), "normalize (%g,%g)", n[0], n[1]); auto nf = normalize(fa); x.check(nr(nf[0], a.x / A, 1e-6) && nr(nf[1], a.y / A, 1e-6), "normalize float");
    x.check(nr(normal_at_index<0>(va), a.x / A) && nr(normal_at_index<1>(va), a.y / A), "normal_at_index");
    x.check(nr(scalar_projection(va, normalize(vb)), dot(a, b) / B), "scalar_projection"); V2 p = vector_projection(va, vb); x.check(nr(p[0], (long double)dot(a, b) * b.x / (B * B)) && nr(p[1], (long double)dot(a, b) * b.y / (B * B)), "vector_projection (%g,%g)", p[0], p[1]);
    bool anti = cross(a, b) == 0 && dot(a, b) < 0, par = cross(a, b) == 0 && dot(a, b) > 0; x.check(is_antiparallel(va, vb, AbsCmp(1e-9)) == anti, "is_antiparallel"); x.outcome(anti ? "antiparallel" : par ? "parallel" : cross(a, b) > 0 ? "left" : "right");
    // the bisector of the counterclockwise turn from a to b
    { V2 g = bisect(va, vb); double ang = std::atan2((double)cross(a, b), (double)dot(a, b)); if (ang <= 0) ang += 2 * M_PI; double h = std::atan2((double)a.y, (double)a.x) + ang / 2; x.check(nr(g[0], std::cos(h), 1e-9) && nr(g[1], std::sin(h), 1e-9), "bisect (%g,%g), true (%g,%g)", g[0], g[1], std::cos(h), std::sin(h)); if (!anti && !par) { g = bisect_not_antiparallel(va, vb); x.check(nr(g[0], std::cos(h), 1e-9) && nr(g[1], std::sin(h), 1e-9), "bisect_not_antiparallel (%g,%g), true (%g,%g)", g[0], g[1], std::cos(h), std::sin(h)); } }
    for (int k = 0; k <= 4; ++k) { I2 m = (4 - k) * a + k * b; if (m == I2{0, 0}) continue; long double M = sqrtl(dot(m, m)); V2 g = lerp(va, vb, k / 4.); x.check(nr(g[0], m.x / M) && nr(g[1], m.y / M), "lerp(%g)", k / 4.); } if (a != I2{0, 0} && b != I2{0, 0}) { long double A = sqrtl(dot(a, a)), B = sqrtl(dot(b, b)), th = atan2l(cross(a, b), dot(a, b)); if (!(cross(a, b) == 0 && dot(a, b) < 0)) for (int k = 0; k <= 4; ++k) { long double e = atan2l(a.y, a.x) + th * k / 4; V2 g = slerp(V2(a.x / A, a.y / A), V2(b.x / B, b.y / B), k / 4.); x.check(nr(g[0], cosl(e)) && nr(g[1], sinl(e)), "slerp(%g): (%.17g,%.17g)", k / 4., g[0], g[1]); } }
    x.state(mc::H(i)); });
MC_SPACE("metric3", "magnitudes, normalization and projections over all pairs of vectors of {-2..2}^3", 125ull * 125, [](u64 i, Ctx& x) {
    Dec d(i); I3 o{2, 2, 2}, a = gp3(d(125), 5) - o, b = gp3(d(125), 5) - o; if (a == I3{0, 0, 0} || b == I3{0, 0, 0}) return x.skip(); V3 va(a.x, a.y, a.z), vb(b.x, b.y, b.z); x.in("a (%lld,%lld,%lld) b (%lld,%lld,%lld)", a.x, a.y, a.z, b.x, b.y, b.z); long double A = sqrtl(dot(a, a)), B = sqrtl(dot(b, b)), D = dot(a, b); I3 c = cross(a, b);
    x.check(nr(magnitude(va), A) && nr(magnitude(va ^ vb), sqrtl(dot(c, c))), "magnitude"); auto n = normalize(va); V3 m; m <<= norm(va); x.check(nr(n[0], a.x / A) && nr(n[1], a.y / A) && nr(n[2], a.z / A) && nr(m[0], a.x / A) && nr(m[1], a.y / A) && nr(m[2], a.z / A), "normalize"); x.check(nr(scalar_projection(va, normalize(vb)), D / B), "scalar_projection"); V3 p = vector_projection(va, vb); x.check(nr(p[0], D * b.x / (B * B)) && nr(p[1], D * b.y / (B * B)) && nr(p[2], D * b.z / (B * B)), "vector_projection");
    x.check(is_antiparallel(va, vb, AbsCmp(1e-9)) == (c == I3{0, 0, 0} && D < 0), "is_antiparallel"); for (int k = 0; k <= 4; ++k) { I3 q = mul(4 - k, a) + mul(k, b); if (q == I3{0, 0, 0}) continue; long double M = sqrtl(dot(q, q)); V3 g = lerp(va, vb, k / 4.); x.check(nr(g[0], q.x / M) && nr(g[1], q.y / M) && nr(g[2], q.z / M), "lerp(%g)", k / 4.); } if (!(a == I3{0, 0, 0}) && !(b == I3{0, 0, 0}) && !(c == I3{0, 0, 0} && D < 0)) { long double A = sqrtl(dot(a, a)), B = sqrtl(dot(b, b)), S = sqrtl(dot(c, c)), th = atan2l(S, D); for (int k = 0; k <= 4; ++k) { long double w0 = S ? sinl(th * (4 - k) / 4) / sinl(th) : 1, w1 = S ? sinl(th * k / 4) / sinl(th) : 0; V3 g = slerp(V3(a.x / A, a.y / A, a.z / A), V3(b.x / B, b.y / B, b.z / B), k / 4.); x.check(nr(g[0], w0 * a.x / A + w1 * b.x / B) && nr(g[1], w0 * a.y / A + w1 * b.y / B) && nr(g[2], w0 * a.z / A + w1 * b.z / B), "slerp(%g): (%.17g,%.17g,%.17g)", k / 4., g[0], g[1], g[2]); } }
    V4 w4(a.x, a.y, b.x, b.z); long double W = sqrtl(a.x * a.x + a.y * a.y + b.x * b.x + b.z * b.z); if (W > 0) { x.check(nr(magnitude(w4), W) && magnitude_sqrd(w4) == a.x * a.x + a.y * a.y + b.x * b.x + b.z * b.z, "magnitude in 4d"); auto q = normalize(w4); x.check(nr(q[3], b.z / W), "normalize in 4d"); x.check(dot_product(w4, w4) == magnitude_sqrd(w4), "dot_product in 4d"); }
    x.state(mc::H(i)); });
// Every dimension: the recursive implementations, and the special ones for 2, 3 and 4, give the same sums.
#include <geometrix/algorithm/distance/point_point_distance.hpp>
template <std::size_t N, class T, class P, class V> struct Dims {
    static void run(const int* a, const int* b, int s, Ctx& x) {
        P p, q; V v, w; long double A = 0, B = 0, D = 0, E = 0; for (std::size_t k = 0; k < N; ++k) { p[k] = v[k] = a[k]; q[k] = w[k] = b[k]; A += a[k] * a[k]; B += b[k] * b[k]; D += a[k] * b[k]; E += (a[k] - b[k]) * (a[k] - b[k]); }
        V e1, e2, e3, e4, e5, e6; P m1, m2, m3; T t = T(s); e1 <<= v + w; e2 <<= v - w; e3 <<= t * v; e4 <<= -v; e5 <<= p - q; e6 <<= t * (v - w) + w; m1 <<= p + w; m2 <<= p - w; m3 <<= p + t * (q - p); bool g = true;
        for (std::size_t k = 0; k < N; ++k) g = g && e1[k] == a[k] + b[k] && e2[k] == a[k] - b[k] && e3[k] == s * a[k] && e4[k] == -a[k] && e5[k] == a[k] - b[k] && e6[k] == s * (a[k] - b[k]) + b[k] && m1[k] == a[k] + b[k] && m2[k] == a[k] - b[k] && m3[k] == a[k] + s * (b[k] - a[k]);
        x.check(g, "an expression of dimension %d", int(N)); V c1 = v, c2 = v, c3 = v; c1 += w; c2 -= w; c3 *= t; P n1 = p, n2 = p; n1 <<= n1 + w; n2 <<= n2 - w; g = true; for (std::size_t k = 0; k < N; ++k) g = g && c1[k] == a[k] + b[k] && c2[k] == a[k] - b[k] && c3[k] == s * a[k] && n1[k] == a[k] + b[k] && n2[k] == a[k] - b[k]; x.check(g, "a compound assignment of dimension %d", int(N));
        x.check(dot_product(v, w) == D && magnitude_sqrd(v) == A && magnitude_sqrd(v - w) == E && T(gx::get(v * w)) == D, "products of dimension %d: %g, true %g", int(N), double(dot_product(v, w)), double(D));
        x.check(point_point_distance_sqrd(p, q) == E && point_point_distance_sqrd(q, p) == E, "squared distance in dimension %d: %g, true %g", int(N), double(point_point_distance_sqrd(p, q)), double(E)); double tol = sizeof(T) == 4 ? 1e-6 : 1e-12;
        x.check(nr(point_point_distance(p, q), sqrtl(E), tol) && nr(magnitude(v), sqrtl(A), tol) && nr(gx::get(mag(w)), sqrtl(B), tol), "distance or magnitude in dimension %d", int(N));
        if (A > 0) { auto u = normalize(v); V o; o <<= norm(v); g = true; for (std::size_t k = 0; k < N; ++k) g = g && nr(u[k], a[k] / sqrtl(A), tol) && nr(o[k], a[k] / sqrtl(A), tol); x.check(g, "normalize in dimension %d", int(N)); }
        x.check(is_null(v) == (A == 0) && is_null(v - w) == (E == 0) && numeric_sequence_equals(p, q, direct_comparison_policy()) == (E == 0) && numeric_sequence_equals(v, w, AbsCmp(1e-9)) == (E == 0), "is_null or equality in dimension %d", int(N));
        x.outcome(int(N) * 1000 + int(std::min<long double>(E, 100))); }
};
template <std::size_t N> static void dims(const int* a, const int* b, int s, Ctx& x) { Dims<N, double, point<double, N>, vector<double, N>>::run(a, b, s, x); Dims<N, float, point<float, N>, vector<float, N>>::run(a, b, s, x); }
MC_SPACE("dims", "expressions, compound assignments, products, distances, magnitudes and normalization of double and float points and vectors of dimension 2..8, all pairs with coordinates chosen by 3 patterns and each coordinate of either replaced by each of 5 values", 7ull * 9 * 3 * 64 * 25, [](u64 i, Ctx& x) {
    static const int PA_[3][8] = {{1, -2, 3, -4, 5, -6, 7, -8}, {0, 0, 0, 0, 0, 0, 0, 0}, {2, 2, -1, 3, 3, -2, 1, 1}}, VAL[5] = {0, 1, -3, 11, -20};
    Dec d(i); int a[8], b[8], N = 2 + d(7), pa = d(3), pb = d(3), s = int(d(3)) * 3 - 2, k = d(8), m = d(8), u = d(5), v = d(5); if (k >= N || m >= N) return x.skip(); for (int j = 0; j < 8; ++j) { a[j] = PA_[pa][j]; b[j] = PA_[pb][(j + 3) % 8]; } a[k] = VAL[u]; b[m] = VAL[v];
    if (x.verbose) { x.in("dimension %d scalar %d", N, s); for (int j = 0; j < N; ++j) x.in(" %d|%d", a[j], b[j]); } x.state(mc::H(i));
    switch (N) { case 2: return dims<2>(a, b, s, x); case 3: return dims<3>(a, b, s, x); case 4: return dims<4>(a, b, s, x); case 5: return dims<5>(a, b, s, x); case 6: return dims<6>(a, b, s, x); case 7: return dims<7>(a, b, s, x); default: return dims<8>(a, b, s, x); } });
