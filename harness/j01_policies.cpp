// J01: number comparison policies: every relation of every pair is the one the tolerance defines.
#include "mc.hpp"
#include <geometrix/primitive/point.hpp>
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/numeric/number_comparison_policy.hpp>
#include <geometrix/numeric/boost_units_quantity.hpp>
#include <boost/units/systems/si.hpp>
#include <cmath>
using namespace mc; namespace gx = geometrix; typedef long double LD; typedef __int128 W;
// all relations follow from eq and the order of u and v
template <class P, class U, class V> static void rel(const char* what, const P& p, U u, V v, bool eq, bool lt, Ctx& x) {
    bool gt = !eq && !lt; lt = lt && !eq; bool e = p.equals(u, v), l = p.less_than(u, v), g = p.greater_than(u, v), le = p.less_than_or_equal(u, v), ge = p.greater_than_or_equal(u, v);
    x.check(e == eq, "%s: equals is %d", what, e); x.check(l == lt && g == gt, "%s: less_than %d greater_than %d", what, l, g); x.check(le == (eq || lt) && ge == (eq || gt), "%s: less_than_or_equal %d greater_than_or_equal %d", what, le, ge);
    x.check(p.equals(v, u) == e && p.less_than(v, u) == g && p.less_than_or_equal(v, u) == ge && p.greater_than(v, u) == l && p.greater_than_or_equal(v, u) == le, "%s: relations of the swapped pair", what); }
template <class P, class U> static void fun(const char* what, const P& p, U u, U v, Ctx& x) { x.check(gx::less_than<P>(p)(u, v) == p.less_than(u, v) && gx::greater_than<P>(p)(u, v) == p.greater_than(u, v) && gx::less_than_or_equal<P>(p)(u, v) == p.less_than_or_equal(u, v) && gx::greater_than_or_equal<P>(p)(u, v) == p.greater_than_or_equal(u, v) && gx::equals<P>(p)(u, v) == p.equals(u, v), "%s: functor", what); }
// exact predicates on values a / D, b / D with the tolerance t / T (t / T for zero)
struct Ex { i64 a, b, D; bool abs(i64 t, i64 T) const { return (W)std::llabs(a - b) * T <= (W)t * D; } bool rel(i64 t, i64 T) const { return (W)std::llabs(a - b) * T <= (W)t * (std::llabs(a) + std::llabs(b) + D); } bool frac(i64 t, i64 T, i64 z, i64 Z) const { if (!a || !b) return (W)std::llabs(a + b) * Z <= (W)z * D; return (W)std::llabs(a - b) * T <= (W)t * std::min(std::llabs(a), std::llabs(b)); } };
static const i64 TS[][2] = {{0, 1}, {1, 64}, {1, 16}, {1, 8}, {1, 4}, {1, 2}, {3, 4}, {1, 1}, {3, 2}, {2, 1}, {5, 1}};
template <class U, class V, class T> static void all(i64 a, i64 b, i64 D, i64 t, i64 z, Ctx& x) {
    Ex e{a, b, D}; U u = U(a) / U(D); V v = V(b) / V(D); auto& A = TS[t]; auto& Z = TS[z]; T ta = T(A[0]) / T(A[1]), tz = T(Z[0]) / T(Z[1]); bool lt = a < b;
    rel("absolute", gx::absolute_tolerance_comparison_policy<T>(ta), u, v, e.abs(A[0], A[1]), lt, x); rel("fraction", gx::fraction_tolerance_comparison_policy<T>(ta, tz), u, v, e.frac(A[0], A[1], Z[0], Z[1]), lt, x);
    if (t == z) { rel("relative", gx::relative_tolerance_comparison_policy<T>(ta), u, v, e.rel(A[0], A[1]), lt, x); rel("direct", gx::direct_comparison_policy(), u, v, a == b, lt, x); rel("fraction, one tolerance", gx::fraction_tolerance_comparison_policy<T>(ta), u, v, e.frac(A[0], A[1], A[0], A[1]), lt, x);
        bool q = e.abs(A[0], A[1]), f = e.frac(A[0], A[1], A[0], A[1]), gt = a > b; using namespace gx;
        x.check(equals_within_absolute_tolerance(u, v, ta) == q && less_than_with_absolute_tolerance(u, v, ta) == (lt && !q) && greater_than_with_absolute_tolerance(u, v, ta) == (gt && !q) && less_than_or_equal_with_absolute_tolerance(u, v, ta) == (lt || q) && greater_than_or_equal_with_absolute_tolerance(u, v, ta) == (gt || q), "functions with an absolute tolerance");
        x.check(equals_within_fraction_tolerance(u, v, ta) == f && less_than_with_fraction_tolerance(u, v, ta) == (lt && !f) && greater_than_with_fraction_tolerance(u, v, ta) == (gt && !f) && less_than_or_equal_with_fraction_tolerance(u, v, ta) == (lt || f) && greater_than_or_equal_with_fraction_tolerance(u, v, ta) == (gt || f), "functions with a fraction tolerance");
        if (a && b) { bool s = (W)std::llabs(a - b) * A[1] <= (W)A[0] * std::max(std::llabs(a), std::llabs(b)); x.check(gx::equals_within_tolerance(u, v, ta) == f && gx::equals_within_tolerance(u, v, ta, floating_point_comparison_type::FPC_WEAK) == s, "equals_within_tolerance, weak %d", gx::equals_within_tolerance(u, v, ta, floating_point_comparison_type::FPC_WEAK)); }
        x.check(gx::equals_zero(u, ta) == (std::llabs(a) * A[1] <= A[0] * D), "equals_zero"); }
    x.outcome(a == b ? "same" : e.abs(A[0], A[1]) ? "within the tolerance" : "apart"); x.state(H(a, b, t, z)); }
#define PAIRS(name, what, U, V, T, D, R, n) MC_SPACE(name, what, n, [](u64 i, Ctx& x) { Dec d(i); i64 a = i64(d(2 * R + 1)) - R, b = i64(d(2 * R + 1)) - R; int t = d(11), z = d(11); x.in("%lld/%d and %lld/%d, tolerances %lld/%lld and %lld/%lld", a, D, b, D, TS[t][0], TS[t][1], TS[z][0], TS[z][1]); all<U, V, T>(a, b, D, t, z, x); })
PAIRS("doubles", "all pairs of multiples of 1/8 in -5..5, 11x11 pairs of tolerances", double, double, double, 8, 40, 81 * 81 * 121);
PAIRS("floats", "the same in single precision", float, float, float, 8, 40, 81 * 81 * 121);
PAIRS("mixed", "the same, a float and a double", float, double, double, 8, 40, 81 * 81 * 121);
PAIRS("ints", "all pairs of integers of -40..40, 11x11 pairs of tolerances", int, int, double, 1, 40, 81 * 81 * 121);
PAIRS("longs", "the same, an int and a long long", int, long long, double, 1, 40, 81 * 81 * 121);
PAIRS("intdouble", "the same, an int and a double", int, double, double, 1, 40, 81 * 81 * 121);
// extreme magnitudes, decided in long double where the answer is not marginal
static const LD EM[] = {0, 1, 3, 1.5L, 1e-300L, 1e-307L, 2.2250738585072014e-308L, 1e-310L, 4.9406564584124654e-324L, 1e300L, 1e307L, 1.7976931348623157e308L, 1e-160L, 1e160L, 1e-9L, 1e10L};
static const LD ER[] = {1, 1 + 1e-12L, 1 + 1e-9L, 1.01L, 1.5L, 2, 1e-10L};
MC_SPACE("extreme", "pairs of extreme magnitudes, products with 7 factors and signs, 5 tolerances", 16 * 7 * 16 * 4 * 5, [](u64 i, Ctx& x) { Dec d(i); double u = EM[d(16)] * ER[d(7)], v = EM[d(16)]; int s = d(4); static const double tol[] = {1e-10, 1e-6, 1e-3, .1, .5}; double t = tol[d(5)]; if (!std::isfinite(u)) u = 1.7e308; if (s & 1) u = -u; if (s & 2) v = -v; x.in("%.17g %.17g tolerance %g", u, v, t); LD D = std::fabs((LD)u - v), m = std::min(std::fabs((LD)u), std::fabs((LD)v)), M = std::max(std::fabs((LD)u), std::fabs((LD)v)); auto clear = [&](LD p, LD q) { return p > q * 1.00001L || p < q * .99999L || (p == 0); };
    if (clear(D, t)) rel("absolute", gx::absolute_tolerance_comparison_policy<double>(t), u, v, D <= t, u < v, x); if (u == 0 || v == 0) { if (clear(M, t)) rel("fraction", gx::fraction_tolerance_comparison_policy<double>(t), u, v, M <= t, u < v, x); } else if (clear(D, t * m) && (m > 1e-290L || D == 0 || D > m)) rel("fraction", gx::fraction_tolerance_comparison_policy<double>(t), u, v, D <= t * m, u < v, x);
    if (clear(D, t * (std::fabs((LD)u) + std::fabs((LD)v) + 1)) && std::fabs((LD)u) + std::fabs((LD)v) < 1e308L) rel("relative", gx::relative_tolerance_comparison_policy<double>(t), u, v, D <= t * (std::fabs((LD)u) + std::fabs((LD)v) + 1), u < v, x); rel("direct", gx::direct_comparison_policy(), u, v, u == v, u < v, x); x.state(H(i)); });
// mapped policies: each type is compared with its own policy, the others with the default
typedef boost::units::quantity<boost::units::si::length> Len; typedef boost::units::quantity<boost::units::si::area> Area; typedef boost::units::quantity<boost::units::si::dimensionless> One;
typedef gx::absolute_tolerance_comparison_policy<double> AP;
MC_SPACE("mapped", "mapped policies: all pairs of multiples of 1/4 in -3..3, 6 tolerances for each of three types", 25 * 25 * 216, [](u64 i, Ctx& x) { Dec d(i); i64 a = i64(d(25)) - 12, b = i64(d(25)) - 12; int t[3] = {d(6) + 1, d(6) + 1, d(6) + 1}; if (t[0] == 1) t[0] = 0; auto T = [&](int k) { return (double)TS[t[k]][0] / TS[t[k]][1]; }; x.in("%lld/4 %lld/4, tolerances %g, %g, %g", a, b, T(0), T(1), T(2)); Ex e{a, b, 4}; auto eq = [&](int k) { return e.abs(TS[t[k]][0], TS[t[k]][1]); }; double u = a / 4., v = b / 4.;
    auto p = gx::make_mapped_tolerance_comparison_policy(AP(T(0)), boost::fusion::make_pair<Len>(AP(T(1))), boost::fusion::make_pair<float>(AP(T(2)))); auto L = [](double k) { return k * boost::units::si::meters; }; auto Q = [&](double k) { return L(k) * L(1); };
    rel("default double", p, u, v, eq(0), a < b, x); rel("float", p, (float)u, (float)v, eq(2), a < b, x); rel("length", p, L(u), L(v), eq(1), a < b, x); rel("area", p, Q(u), Q(v), eq(0), a < b, x); rel("dimensionless", p, One(u), One(v), eq(0), a < b, x);
    x.check(p.equals(One(u), v) == eq(0) && p.less_than(u, One(v)) == (a < b && !eq(0)), "dimensionless quantity against a number"); fun("mapped", p, L(u), L(v), x); fun("absolute", AP(T(0)), u, v, x);
    if (t[0] == t[1] && t[1] == t[2]) { gx::mapped_tolerance_comparison_policy<AP, boost::fusion::pair<Len, AP>> m(T(0)); rel("one tolerance", m, L(u), L(v), eq(0), a < b, x); rel("one tolerance", m, u, v, eq(0), a < b, x); gx::fraction_tolerance_comparison_policy<double> f(T(0)); rel("fraction of lengths", f, L(u).value(), L(v).value(), e.frac(TS[t[0]][0], TS[t[0]][1], TS[t[0]][0], TS[t[0]][1]), a < b, x); gx::absolute_tolerance_comparison_policy<Len> al(L(T(0))); rel("absolute length", al, L(u), L(v), eq(0), a < b, x); fun("fraction", f, u, v, x); fun("relative", gx::relative_tolerance_comparison_policy<double>(T(0)), u, v, x); fun("direct", gx::direct_comparison_policy(), u, v, x); }
    x.state(H(i)); });
