// J03: tagged quantities behave as their values and keep their tags
#include "mc.hpp"
#include <geometrix/primitive/point.hpp>
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/utility/tagged_quantity.hpp>
#include <type_traits>
#include <tuple>
using namespace mc;
using geometrix::tagged_quantity;
struct TA; struct TB; struct TC;
template <class Q> struct tagof; template <class T, class Y> struct tagof<tagged_quantity<T, Y>> { using type = T; };
template <class T, class Y> static bool has_tag(const tagged_quantity<T, Y>&, T*) { return true; }
template <class T, class Y, class U> static bool has_tag(const tagged_quantity<T, Y>&, U*) { return false; }
template <class T> static bool same(T a, T b) { return a == b || (a != a && b != b); }

// value sets
template <class T> struct V;
template <> struct V<double> { static int n() { return 13; } static double at(int i) { static double v[] = {0, 1, -1, 2, -2, 0.5, -3.5, 1e10, -0.1, 3, 1e-9, -1e10, 7.25}; return v[i]; } };
template <> struct V<float> { static int n() { return 9; } static float at(int i) { static float v[] = {0, 1, -1, 2, -2.5f, 0.5f, 3, 1e6f, -0.1f}; return v[i]; } };
template <> struct V<int> { static int n() { return 9; } static int at(int i) { static int v[] = {0, 1, -1, 2, -2, 7, -5, 1000, -30}; return v[i]; } };
template <> struct V<long> { static int n() { return 7; } static long at(int i) { static long v[] = {0, 1, -1, 3, -4, 10000000019L, -7}; return v[i]; } };

// all binary operators on X, Y tagged alike, differently and raw
template <class X, class Y> static void binary(u64 idx, Ctx& x) {
    Dec d(idx); X a = V<X>::at(d(V<X>::n())); Y b = V<Y>::at(d(V<Y>::n()));
    x.in("a = %.17g, b = %.17g", double(a), double(b));
    const tagged_quantity<TA, X> qa(a); const tagged_quantity<TA, Y> qb(b); const tagged_quantity<TB, Y> qc(b);
    bool divok = std::is_floating_point<decltype(a / b)>::value || b != 0;
    x.check(qa.value() == a && qb.value() == b, "the value is not the one given");
#define OP2(op, TAG) { auto e = a op b; auto r1 = qa op qb; auto r2 = qa op qc; auto r3 = qa op b; auto r4 = a op qb; \
        x.check(std::is_same<typename std::decay<decltype(r1.value())>::type, decltype(e)>::value && same(decltype(e)(r1.value()), e) && has_tag(r1, (TA*)0), "a " #op " b of one tag gives %.17g, not %.17g with the tag", double(r1.value()), double(e)); \
        x.check(same(decltype(e)(r2.value()), e) && std::is_same<decltype(r2), tagged_quantity<geometrix::TAG<TA, TB>, decltype(e)>>::value, "a " #op " b of two tags gives %.17g, not %.17g", double(r2.value()), double(e)); \
        x.check(same(decltype(e)(r3.value()), e) && std::is_same<decltype(r3), tagged_quantity<TA, decltype(e)>>::value, "a " #op " raw b gives %.17g, not %.17g", double(r3.value()), double(e)); \
        x.check(same(decltype(e)(r4.value()), e) && std::is_same<decltype(r4), tagged_quantity<TA, decltype(e)>>::value, "raw a " #op " b gives %.17g, not %.17g", double(r4.value()), double(e)); }
    OP2(+, add) OP2(-, subtract) OP2(*, multiply) if (divok) OP2(/, divide)
#define REL(op) x.check((qa op qb) == (a op b), "a " #op " b differs from the values");
    REL(==) REL(!=) REL(<) REL(<=) REL(>) REL(>=)
    // nested
    if (divok && a != b) { auto e = (a + b) * a - a / b; auto r = (qa + qb) * qa - qa / qb; x.check(same(decltype(e)(r.value()), e), "(a + b) a - a/b gives %.17g, not %.17g", double(r.value()), double(e)); }
    x.outcome(a < b ? "less" : a > b ? "greater" : "equal");
}
// one type: relations with raw values, unary operators, conversions, swap
template <class X> static void unary(u64 idx, Ctx& x) {
    Dec d(idx); X a = V<X>::at(d(V<X>::n())), b = V<X>::at(d(V<X>::n()));
    x.in("a = %.17g, b = %.17g", double(a), double(b));
    using Q = tagged_quantity<TA, X>; const Q q(a);
#define RAW(op) x.check((q op b) == (a op b), "a " #op " raw b differs from the values"); x.check((b op q) == (b op a), "raw b " #op " a differs from the values");
    RAW(==) RAW(!=) RAW(<) RAW(<=) RAW(>) RAW(>=)
    x.check((+q).value() == a && (-q).value() == -a && has_tag(-q, (TA*)0) && has_tag(+q, (TA*)0), "unary + or - gives %.17g, %.17g", double((+q).value()), double((-q).value()));
    x.check(bool(q) == (a != 0), "conversion to bool"); x.check((!q) == (a == 0), "not");
    Q s(a); X r = b; s.swap(r); x.check(s.value() == b && r == a, "swap with a raw value gives %.17g and %.17g", double(s.value()), double(r));
    Q t(b); s.swap(t); x.check(s.value() == b && t.value() == b, "swap of equals"); s = a; x.check(s.value() == a, "assignment of a raw value");
    s.swap(t); x.check(s.value() == b && t.value() == a, "swap gives %.17g and %.17g", double(s.value()), double(t.value()));
    std::swap(s, t); x.check(s.value() == a && t.value() == b, "std::swap gives %.17g and %.17g", double(s.value()), double(t.value()));
    Q u; tagged_quantity<TB, X> w; std::tie(u, w) = std::make_tuple(Q(a), tagged_quantity<TB, X>(b)); x.check(u.value() == a && w.value() == b, "tie");
    double ra; tagged_quantity<TA, double> wide(q); x.check(wide.value() == double(a), "conversion to a wider type"); wide = Q(b); x.check(wide.value() == double(b), "assignment of another value type"); (void)ra;
    auto c = geometrix::construct<Q>(b); x.check(c.value() == b, "construct gives %.17g", double(c.value()));
    auto c2 = geometrix::construct<const tagged_quantity<TA, double>>(b); x.check(c2.value() == double(b), "construct of a constant");
    x.check(geometrix::is_numeric<Q>::value, "not a number");
    x.outcome(int(a < b));
}
// sequences of compound assignments on two quantities, also with themselves
template <class X, class Y> static void history(u64 idx, Ctx& x, int depth) {
    Dec d(idx); X a = V<X>::at(d(V<X>::n())); Y b = V<Y>::at(d(V<Y>::n()));
    tagged_quantity<TA, X> q(a); tagged_quantity<TA, Y> p(b); x.in("a = %.17g, b = %.17g;", double(a), double(b));
    auto zero = [](double v) { return !std::is_floating_point<X>::value && v == 0; };
    auto small = [](double v) { return std::is_floating_point<X>::value || std::fabs(v) < 20000; };
    for (int k = 0; k < depth; ++k) {
        int o = d(16);
        switch (o) {
        case 0: x.in(" a += b"); a += b; q += p; break;
        case 1: x.in(" a -= b"); a -= b; q -= p; break;
        case 2: if (!small(a) || !small(b)) return x.skip(); x.in(" a *= b"); a *= b; q *= p; break;
        case 3: if (zero(b)) return x.skip(); x.in(" a /= b"); a /= b; q /= p; break;
        case 4: x.in(" a += 3"); a += X(3); q += X(3); break;
        case 5: x.in(" a -= 3"); a -= X(3); q -= X(3); break;
        case 6: if (!small(a)) return x.skip(); x.in(" a *= 3"); a *= X(3); q *= X(3); break;
        case 7: x.in(" a /= 3"); a /= X(3); q /= X(3); break;
        case 8: x.in(" a += a"); if (!small(a)) return x.skip(); a += a; q += q; break;
        case 9: x.in(" a -= a"); a -= a; q -= q; break;
        case 10: if (!small(a)) return x.skip(); x.in(" a *= a"); a *= a; q *= q.value(); break;
        case 11: if (zero(a)) return x.skip(); x.in(" a /= a"); a /= a; q /= q.value(); break;
        case 12: x.in(" a = b"); a = b; q = p; break;
        case 13: x.in(" b = a"); b = Y(a); p = tagged_quantity<TA, X>(q); break;
        case 14: x.in(" a = -a"); a = -a; q = -q; break;
        case 15: x.in(" a = a - b"); a = a - b; q = q - p; break;
        }
        if (!x.check(same(q.value(), a) && same(p.value(), b), "the quantities are %.17g and %.17g, not %.17g and %.17g", double(q.value()), double(p.value()), double(a), double(b))) return;
        x.state(H(hash_bytes(&a, sizeof a), hash_bytes(&b, sizeof b)));
    }
}
// functions
template <class X> static void functions(u64 idx, Ctx& x) {
    using namespace geometrix;
    Dec d(idx); X a = V<X>::at(d(V<X>::n())), b = V<X>::at(d(V<X>::n())); x.in("a = %.17g, b = %.17g", double(a), double(b));
    const tagged_quantity<TA, X> q(a); const tagged_quantity<TB, X> p(b);
#define FN(F) { auto r = F(q); auto e = std::F(a); x.check(std::is_same<decltype(r), tagged_quantity<F##_op<TA>, decltype(e)>>::value, #F " has another type"); x.check(same(decltype(e)(r.value()), e), #F " gives %.17g, not %.17g", double(r.value()), double(e)); \
     function_result_t(F) }
#define function_result_t(F) { F##_function_impl<tagged_quantity<TA, X>> f; F##_function_impl<const tagged_quantity<TA, X>> g; x.check(same(double(f(q)), double(std::F(a))) && same(double(g(q)), double(std::F(a))), #F " functor"); }
    FN(abs) FN(sqrt) FN(sin) FN(asin) FN(cos) FN(acos) FN(tan) FN(atan) FN(floor) FN(ceil) FN(exp) FN(log) FN(log10)
#define FN2(F) { auto e = std::F(a, b); auto r = F(q, p); auto r2 = F(q, b); auto r3 = F(a, p); \
     x.check(std::is_same<decltype(r), tagged_quantity<F##_op<TA, TB>, decltype(e)>>::value && same(decltype(e)(r.value()), e), #F "(a, b) gives %.17g, not %.17g", double(r.value()), double(e)); \
     x.check(same(decltype(e)(r2.value()), e), #F "(a, raw b) gives %.17g, not %.17g", double(r2.value()), double(e)); x.check(same(decltype(e)(r3.value()), e), #F "(raw a, b) gives %.17g, not %.17g", double(r3.value()), double(e)); \
     F##_function_impl<tagged_quantity<TA, X>, tagged_quantity<TB, X>> f; F##_function_impl<tagged_quantity<TA, X>, X> g; F##_function_impl<X, tagged_quantity<TB, X>> h; \
     x.check(same(double(f(q, p)), double(e)) && same(double(g(q, b)), double(e)) && same(double(h(a, p)), double(e)), #F " functor"); }
    FN2(pow) FN2(atan2)
}
#define BIN(X, Y) MC_SPACE("binary_" #X "_" #Y, "every binary operator and relation, tags alike, different and absent, all pairs of values", u64(V<X>::n()) * V<Y>::n(), [](u64 i, Ctx& x) { binary<X, Y>(i, x); });
BIN(double, double) BIN(double, int) BIN(int, double) BIN(int, int) BIN(float, float) BIN(float, double) BIN(long, int) BIN(long, long) BIN(double, float)
#define UN(X) MC_SPACE("single_" #X, "relations with raw values, unary operators, conversions and swaps, all pairs of values", u64(V<X>::n()) * V<X>::n(), [](u64 i, Ctx& x) { unary<X>(i, x); });
UN(double) UN(float) UN(int) UN(long)
static u64 pw(u64 b, int e) { return e ? b * pw(b, e - 1) : 1; }
#define HIS(X, Y, DQ, DT) MC_SPACE("history_" #X "_" #Y, "all sequences of " #DQ " assignments and compound assignments, all start values", V<X>::n() * V<Y>::n() * pw(16, DQ), [](u64 i, Ctx& x) { history<X, Y>(i, x, DQ); }); \
  MC_SPACE("history_long_" #X "_" #Y, "all sequences of " #DT " assignments and compound assignments, all start values", 0, V<X>::n() * V<Y>::n() * pw(16, DT), [](u64 i, Ctx& x) { history<X, Y>(i, x, DT); });
HIS(double, double, 3, 5) HIS(int, int, 3, 5) HIS(double, int, 3, 4) HIS(float, float, 3, 4)
MC_SPACE("functions_double", "every mathematical function, tags different and absent, all pairs of values", u64(V<double>::n()) * V<double>::n(), [](u64 i, Ctx& x) { functions<double>(i, x); });
MC_SPACE("functions_float", "every mathematical function, tags different and absent, all pairs of values", u64(V<float>::n()) * V<float>::n(), [](u64 i, Ctx& x) { functions<float>(i, x); });
