// A03: lexicographic orders of points and segments are the exact strict weak orders.
#include "geo.hpp"
#include <geometrix/utility/utilities.hpp>
using namespace gx;

template <class Cmp> static void pts2(I2 a, I2 b, const Frame& f, const Cmp& c, Ctx& x) {
    P2 A = f(a), B = f(b);
    I2 fa{i64(std::llround(X(A) * 4096)), i64(std::llround(Y(A) * 4096))}, fb{i64(std::llround(X(B) * 4096)), i64(std::llround(Y(B) * 4096))};
    bool lex = fa < fb, rev = fa.y < fb.y || (fa.y == fb.y && fa.x < fb.x);
    x.check(lexicographical_comparer<Cmp>(c)(A, B) == lex, "lexicographic order, exact %d", lex);
    x.check(lexicographically_less_than(A, B, c) == lex, "lexicographically_less_than, exact %d", lex);
    x.check(reverse_lexicographical_point_compare<Cmp>(c)(A, B) == rev, "reverse lexicographic order, exact %d", rev);
    dimension_compare<0, Cmp> d0(c); dimension_compare<1, Cmp> d1(c);
    bool e1 = fa.y < fb.y || (fa.y == fb.y && fa.x < fb.x);
    x.check(d0(A, B) == lex, "order by x, exact %d", lex);
    x.check(d1(A, B) == e1, "order by y, exact %d", e1);
    x.check(gx::lexicographical_compare(X(A), X(B), Y(A), Y(B)) == lex, "variadic lexicographic compare");
    x.check(numeric_sequence_equals(A, B, c) == (a == b), "equality");
}
MC_SPACE("points2", "all pairs of points of a 6x6 grid, exact frames, 2 comparison policies", 10ull * 1296, [](u64 i, Ctx& x) {
    Dec d(i); int fi = d(5), ci = d(2); I2 a = gp(d(36), 6), b = gp(d(36), 6);
    x.in("%s %d " PF PF, FR[fi].name, ci, PA(a), PA(b));
    if (ci) pts2(a, b, FR[fi], FracCmp(1e-10), x); else pts2(a, b, FR[fi], AbsCmp(1e-10), x);
    x.state(mc::H(a.x, a.y, b.x, b.y, fi, ci));
});
MC_SPACE("points3", "all pairs of points of a 4x4x4 grid, exact frames", 3ull * 4096, [](u64 i, Ctx& x) {
    Dec d(i); int fi = d(3); I3 a = gp3(d(64), 4), b = gp3(d(64), 4);
    x.in("%s " PF3 PF3, FR3[fi].name, PA3(a), PA3(b));
    P3 A = FR3[fi](a), B = FR3[fi](b); AbsCmp c(1e-10);
    auto q = [](const P3& p) { return I3{i64(std::llround(X(p) * 4)), i64(std::llround(Y(p) * 4)), i64(std::llround(Z(p) * 4))}; };
    I3 fa = q(A), fb = q(B);
    bool lex = fa < fb, rev = I3{fa.z, fa.y, fa.x} < I3{fb.z, fb.y, fb.x};
    x.check(lexicographical_comparer<AbsCmp>(c)(A, B) == lex, "lexicographic order, exact %d", lex);
    x.check(reverse_lexicographical_point_compare<AbsCmp>(c)(A, B) == rev, "reverse lexicographic order, exact %d", rev);
    dimension_compare<0, AbsCmp> d0(c); dimension_compare<1, AbsCmp> d1(c); dimension_compare<2, AbsCmp> d2(c);
    x.check(d0(A, B) == lex, "order by x");
    x.check(d1(A, B) == (fa.y != fb.y ? fa.y < fb.y : lex), "order by y");
    x.check(d2(A, B) == (fa.z != fb.z ? fa.z < fb.z : lex), "order by z");
    x.check(gx::lexicographical_compare(X(A), X(B), Y(A), Y(B), Z(A), Z(B)) == lex, "variadic lexicographic compare");
    x.check(numeric_sequence_equals(A, B, c) == (a == b), "equality");
    x.state(mc::H(a.x, a.y, a.z, b.x, b.y, b.z, fi));
});
static void segs(u64 i, Ctx& x, int W, int H) {
    Dec d(i); int n = W * H; I2 a = gp(d(n), W), b = gp(d(n), W), c = gp(d(n), W), e = gp(d(n), W);
    if (a == b || c == e) return x.skip();
    x.in(PF "-" PF " " PF "-" PF, PA(a), PA(b), PA(c), PA(e));
    const Frame& f = FR[0]; AbsCmp cmp(1e-10);
    auto l1 = std::min(a, b), u1 = std::max(a, b), l2 = std::min(c, e), u2 = std::max(c, e);
    S2 s(f(a), f(b)), t(f(c), f(e));
    bool w = l1 < l2 || (l1 == l2 && u1 < u2);
    x.check(lexicographical_segment_compare<AbsCmp>(cmp)(s, t) == w, "segment order, exact %d", w);
    x.check(segment_interval_compare<AbsCmp>(cmp)(s, t) == (u1 < l2), "interval order, exact %d", u1 < l2);
    x.state(mc::H(a.x, a.y, b.x, b.y, c.x, c.y, e.x, e.y));
}
MC_SPACE("segments4x3", "all pairs of segments of a 4x3 grid", 20736, [](u64 i, Ctx& x) { segs(i, x, 4, 3); });
MC_SPACE("segments5x5", "all pairs of segments of a 5x5 grid", 0, 390625, [](u64 i, Ctx& x) { segs(i, x, 5, 5); });
MC_SPACE("scalars", "clamp, min, max, sign and pair orders on all triples of -8..8 in halves", 33ull * 33 * 33, [](u64 i, Ctx& x) {
    Dec d(i); double a = d(33) / 2. - 8, b = d(33) / 2. - 8, c = d(33) / 2. - 8;
    x.in("%g %g %g", a, b, c);
    if (b <= c) x.check(gx::clamp(a, b, c) == (a < b ? b : a > c ? c : a), "clamp");
    x.check(min_copy(a, b) == (a < b ? a : b) && max_copy(a, b) == (a < b ? b : a), "min/max");
    x.check(gx::sign(a) == (a >= 0 ? 1 : -1), "sign");
    auto lt = std::less<double>();
    auto p = std::make_pair(a, c), q = std::make_pair(b, a);
    x.check(pair_first_compare<std::less<double>>(lt)(p, q) == (a < b), "pair_first_compare");
    x.check(pair_second_compare<std::less<double>>(lt)(p, q) == (c < a), "pair_second_compare");
});
