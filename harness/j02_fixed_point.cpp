// J02: fixed_point: every operation equals the exact operation on the scaled integers.
#include "mc.hpp"
#include <geometrix/primitive/point.hpp>
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/numeric/fixed_point.hpp>
namespace geometrix { template <typename T> struct numeric_traits<fixed_point<T>> { typedef fixed_point<T> numeric_type; typedef boost::true_type is_float; typedef boost::false_type is_integral; typedef void is_numeric; static const unsigned int digits = std::numeric_limits<typename T::format_type>::digits10; }; } // user types bring their own traits
#include <sstream>
#include <cmath>
using namespace mc; namespace gx = geometrix;
typedef __int128 W;
template <class F, int R, int E> struct Gen { typedef gx::generic_compile_time_scale_policy<R, E> P; };
struct Half { typedef gx::round_half_to_even P; static i64 r(i64 n, i64 d) { i64 q = n / d, m = n % d; if (m < 0) { m += d; --q; } return 2 * m > d || (2 * m == d && (q & 1)) ? q + 1 : q; } };
struct Zero { typedef gx::round_toward_zero P; static i64 r(i64 n, i64 d) { return n / d; } };
struct Up { typedef gx::round_toward_infinity<int> P; static i64 r(i64 n, i64 d) { i64 q = n / d; return q + (n % d > 0); } };
struct Down { typedef gx::round_toward_neg_infinity<int> P; static i64 r(i64 n, i64 d) { i64 q = n / d; return q - (n % d < 0); } };
static i64 pw(i64 r, int e) { i64 s = 1; while (e--) s *= r; return s; }
template <class FX> static typename FX::format_type raw(const FX& f) { return f.get_scaled_value(); }
// B values a, b of the format; S the scale; Rd the rounding
template <class FX, class Rd> static void pair_(i64 a, i64 b, i64 S, bool runtime, const typename FX::scale_policy& sp, Ctx& x) {
    typedef typename FX::format_type T; const i64 lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(); auto fits = [&](W v) { return v >= lo && v <= hi; };
    auto mk = [&](i64 v) { return FX::from_format_value((T)v, sp); }; FX f = mk(a), g = mk(b);
    x.check(raw(f) == a && f.template convert_to<double>() == (double)a / (double)S && f.template convert_to<i64>() == a / S, "value %lld as a double %.17g, as an integer %lld", (i64)raw(f), f.template convert_to<double>(), f.template convert_to<i64>());
    x.check((f < g) == (a < b) && (f > g) == (a > b) && (f <= g) == (a <= b) && (f >= g) == (a >= b) && (f == g) == (a == b) && (f != g) == (a != b) && !f == (a == 0) && (f ? true : false) == (a != 0), "comparison");
    if (fits(a + b)) { FX h = f; h += g; x.check(raw(f + g) == a + b && raw(h) == a + b, "f + g = %lld", (i64)raw(f + g)); } if (fits(a - b)) { FX h = f; h -= g; x.check(raw(f - g) == a - b && raw(h) == a - b, "f - g = %lld", (i64)raw(f - g)); }
    { W w = (W)a * b / S; bool thr = false; FX h = f; try { h *= g; } catch (const boost::numeric::bad_numeric_cast&) { thr = true; } if (fits(w)) x.check(!thr && raw(h) == (i64)w && raw(f * g) == (i64)w, "f * g = %lld, true %lld", (i64)raw(h), (i64)w); else { x.check(thr, "product out of range not reported"); x.outcome("overflow"); } }
    if (b) { W w = (W)a * S / b; bool thr = false; FX h = f; try { h /= g; } catch (const boost::numeric::bad_numeric_cast&) { thr = true; } if (fits(w)) x.check(!thr && raw(h) == (i64)w && raw(f / g) == (i64)w, "f / g = %lld, true %lld", (i64)raw(h), (i64)w); else { x.check(thr, "quotient out of range not reported"); x.outcome("overflow"); }
        if (!(a == lo && b == -1)) x.check(raw(fmod(f, g)) == a % b, "fmod = %lld", (i64)raw(fmod(f, g))); }
    if (a != lo) { x.check(raw(-f) == -a && raw(abs(f)) == std::llabs(a) && raw(fabs(f)) == std::llabs(a), "negation, abs"); x.check(raw(copysign(f, g)) == (b < 0 ? -std::llabs(a) : std::llabs(a)), "copysign = %lld", (i64)raw(copysign(f, g))); }
    if (fits(a + S)) { FX h = f; x.check(raw(h++) == a && raw(h) == a + S, "h++"); FX k = f; x.check(raw(++k) == a + S, "++k"); } if (fits(a - S)) { FX h = f; x.check(raw(h--) == a && raw(h) == a - S, "h--"); FX k = f; x.check(raw(--k) == a - S, "--k"); }
    { FX h = f, k = g; h.swap(k); x.check(raw(h) == b && raw(k) == a, "swap"); h = f; x.check(raw(h) == a, "assignment"); FX c(g); x.check(raw(c) == b, "copy"); }
    // Mixed with integers and doubles
    if (b >= -3 && b <= 3 && fits(b * S)) { int n = b; FX h = f; if (fits(a + b * S)) { h += n; x.check(raw(h) == a + b * S, "f += %d", n); if (!runtime) x.check(raw(f + n) == a + b * S && raw(n + f) == a + b * S && raw(f + (double)n) == a + b * S, "f + %d", n); } h = f; if (fits(a - b * S)) { h -= n; x.check(raw(h) == a - b * S, "f -= %d", n); if (!runtime) x.check(raw(f - n) == a - b * S && (!fits(b * S - a) || raw(n - f) == b * S - a), "f - %d", n); } h = f; if (fits((W)a * b)) { h *= n; x.check(raw(h) == a * b && raw(f * n) == a * b && raw(n * f) == a * b && raw(f * (double)n) == a * b, "f * %d = %lld", n, (i64)raw(h)); } if (b && fits(a / b)) { h = f; h /= n; x.check(raw(h) == a / b && raw(f / n) == a / b, "f / %d = %lld", n, (i64)raw(h)); } x.check((f < n) == (a < b * S) && (f > n) == (a > b * S) && (f == n) == (a == b * S) && (f <= n) == (a <= b * S) && (f >= n) == (a >= b * S) && (f != n) == (a != b * S) && (n < f) == (b * S < a) && (n >= f) == (b * S >= a) && (n == f) == (a == b * S), "comparison with %d", n); }
    x.state(H(a, b, S)); }
template <class FX, class Rd> static void conv(i64 n, i64 d, i64 S, const typename FX::scale_policy& sp, bool runtime, Ctx& x) { // n / d exactly representable, converted by rounding n * S / d
    typedef typename FX::format_type T; i64 w = Rd::r(n * S, d); double v = (double)n / d; bool fit = w >= (i64)std::numeric_limits<T>::min() && w <= (i64)std::numeric_limits<T>::max(); bool thr = false; i64 g = 0, g2 = 0; try { FX f(v, sp); g = raw(f); FX h(sp); h = v; g2 = raw(h); } catch (const boost::numeric::bad_numeric_cast&) { thr = true; }
    if (fit) x.check(!thr && g == w && g2 == w, "constructed %lld, assigned %lld, true %lld", g, g2, w); else { x.check(thr, "value out of range not reported"); x.outcome("overflow"); }
    if (fit && std::llabs(w) < pw(10, std::numeric_limits<T>::digits10)) { FX f(v, sp); std::stringstream s; s << f; FX h(sp); s >> h; if (std::is_same<Rd, Half>::value && S % 3 != 0) x.check(raw(h) == w, "printed as %s and read back as %lld, not %lld", s.str().c_str(), (i64)raw(h), w); } if (d == 1 && fit) { FX f(n, sp); x.check(raw(f) == n * S, "from an integer"); } x.state(H(n, d, S)); }
template <class FX> static void lim(Ctx& x) { typedef typename FX::format_type T; typedef std::numeric_limits<FX> L; x.check(raw((L::min)()) == std::numeric_limits<T>::min() && raw((L::max)()) == std::numeric_limits<T>::max() && raw(L::epsilon()) == 1, "limits"); }
#define SP(name, what, T, R, E, RD, K) \
    typedef gx::fixed_point<gx::fixed_point_traits<T, gx::generic_compile_time_scale_policy<R, E>, RD::P>> F_##name; \
    MC_SPACE(#name, what ": arithmetic, comparison and conversion of all pairs of values of -" #K ".." #K " units", (2ull * K + 1) * (2 * K + 1), [](u64 i, Ctx& x) { Dec d(i); i64 a = i64(d(2 * K + 1)) - K, b = i64(d(2 * K + 1)) - K; x.in("%lld and %lld units of 1/%lld", a, b, pw(R, E)); pair_<F_##name, RD>(a, b, pw(R, E), false, typename F_##name::scale_policy(), x); if (a == b) lim<F_##name>(x); }); \
    MC_SPACE(#name "_conv", what ": conversion of all multiples of 1/8, 1/16 and 1/64 up to 40", 3 * 40 * 64 * 2 + 3, [](u64 i, Ctx& x) { Dec d(i); i64 q[] = {8, 16, 64}; i64 D = q[d(3)]; i64 n = i64(d(40 * 64 * 2 + 1)) - 40 * 64; x.in("%lld/%lld in units of 1/%lld", n, D, pw(R, E)); conv<F_##name, RD>(n, D, pw(R, E), typename F_##name::scale_policy(), false, x); if (n % D == 0) conv<F_##name, RD>(n / D, 1, pw(R, E), typename F_##name::scale_policy(), false, x); });
SP(dec2, "two decimals in an int", int, 10, 2, Half, 500)
SP(dec4, "four decimals in a long long, rounded towards zero", long long, 10, 4, Zero, 300)
SP(dec1, "one decimal in a short, rounded up", short, 10, 1, Up, 400)
SP(bin4, "four binary places in an int, rounded down", int, 2, 4, Down, 400)
SP(dec0, "integers in a signed char", signed char, 10, 0, Half, 127)
SP(char1, "one decimal in a signed char", signed char, 10, 1, Half, 127)
SP(tri3, "three ternary places in a short", short, 3, 3, Half, 300)
// values at the ends of the format
typedef gx::fixed_point<gx::fixed_point_traits<short, gx::generic_compile_time_scale_policy<10, 2>, gx::round_half_to_even>> FS; typedef gx::fixed_point<gx::fixed_point_traits<int, gx::generic_compile_time_scale_policy<2, 8>, gx::round_half_to_even>> FI;
static i64 ends(u64 k, i64 lo, i64 hi) { return k < 24 ? lo + (i64)k : k < 48 ? hi - (i64)(k - 24) : k < 73 ? (i64)k - 60 : k < 97 ? lo / (i64)(k - 71) : hi / (i64)(k - 95); }
MC_SPACE("ends16", "all pairs of 121 values at the ends and fractions of the range, short with two decimals", 121 * 121, [](u64 i, Ctx& x) { Dec d(i); i64 a = ends(d(121), -32768, 32767), b = ends(d(121), -32768, 32767); x.in("%lld %lld", a, b); pair_<FS, Half>(a, b, 100, false, FS::scale_policy(), x); });
MC_SPACE("ends32", "the same, int with eight binary places", 121 * 121, [](u64 i, Ctx& x) { Dec d(i); i64 a = ends(d(121), -2147483648ll, 2147483647), b = ends(d(121), -2147483648ll, 2147483647); x.in("%lld %lld", a, b); pair_<FI, Half>(a, b, 256, false, FI::scale_policy(), x); });
MC_SPACE("all16", "all pairs of the values of a signed char with no, and every short with two decimals with 9 partners", 65536 * 9, [](u64 i, Ctx& x) { Dec d(i); i64 a = i64(d(65536)) - 32768; static const i64 B[] = {-32768, -7, -1, 0, 1, 3, 100, 250, 32767}; i64 b = B[d(9)]; x.in("%lld %lld", a, b); pair_<FS, Half>(a, b, 100, false, FS::scale_policy(), x); });
typedef gx::fixed_point<gx::fixed_point_traits<int, gx::generic_run_time_scale_policy<10>, gx::round_half_to_even>> FR; typedef gx::fixed_point<gx::fixed_point_traits<int, gx::generic_compile_time_scale_policy<10, 3>, gx::round_half_to_even>> F3;
MC_SPACE("runtime", "run-time scales of 0..5 decimals: all pairs of values of -100..100 units", 6 * 201 * 201, [](u64 i, Ctx& x) { Dec d(i); int s = d(6); i64 a = i64(d(201)) - 100, b = i64(d(201)) - 100; x.in("%lld and %lld units of 10^-%d", a, b, s); FR::scale_policy sp(s); pair_<FR, Half>(a, b, pw(10, s), true, sp, x); conv<FR, Half>(a, 8, pw(10, s), sp, true, x); });
typedef gx::fixed_point<gx::fixed_point_traits<int, gx::binary_compile_time_scale_policy<4>, gx::round_half_to_even>> FB;
MC_SPACE("convert", "conversion between scales and math functions over all values of -4000..4000 units of 1/100", 8001, [](u64 i, Ctx& x) { i64 a = (i64)i - 4000; x.in("%lld/100", a); F_dec2 f = F_dec2::from_format_value(a); F_dec4 g(f); x.check(raw(g) == a * 100, "to four decimals: %lld", (i64)raw(g)); F_bin4 h(f); x.check(raw(h) == Down::r(a * 16, 100), "to sixteenths: %lld, true %lld", (i64)raw(h), Down::r(a * 16, 100)); F_dec1 k(f); x.check(raw(k) == Up::r(a, 10), "to one decimal: %lld", (i64)raw(k)); F_dec2 b(g); x.check(raw(b) == a, "back"); F_dec2 c(h); x.check(raw(c) == Half::r(raw(h) * 100, 16), "from sixteenths");
    double v = a / 100.; x.check(raw(floor(f)) == Down::r(a, 100) * 100 && raw(ceil(f)) == Up::r(a, 100) * 100, "floor %lld ceil %lld", (i64)raw(floor(f)), (i64)raw(ceil(f))); if (a >= 0) x.check(std::fabs(raw(sqrt(f)) - 100 * std::sqrt(v)) <= .5 + 1e-9, "sqrt"); x.check(std::fabs(raw(sin(f)) - 100 * std::sin(v)) <= .5 + 1e-9 && std::fabs(raw(cos(f)) - 100 * std::cos(v)) <= .5 + 1e-9 && std::fabs(raw(atan(f)) - 100 * std::atan(v)) <= .5 + 1e-9, "sin, cos, atan"); if (v < 10) x.check(std::fabs(raw(exp(f)) - 100 * std::exp(v)) <= .5 + 1e-6, "exp"); if (a > 0) x.check(std::fabs(raw(log(f)) - 100 * std::log(v)) <= .5 + 1e-9 && std::fabs(raw(log10(f)) - 100 * std::log10(v)) <= .5 + 1e-9, "log"); x.state(H(a)); });
