// I02: matrix algebra: sums, products, transposes, determinants, inverses, traces, minors, tensor products, rows and columns, LUP decomposition.
#include "geo.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/algebra/expression.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/tensor/matrix_minor_adaptor.hpp>
#include <geometrix/tensor/identity_matrix.hpp>
#include <geometrix/tensor/vector_matrix_adaptors.hpp>
#include <geometrix/arithmetic/matrix/trace.hpp>
#include <geometrix/algebra/lup_decomposition.hpp>
#include <utility>
using namespace gx;
template <std::size_t R, std::size_t C> struct M { i64 e[R][C]; };
template <std::size_t R, std::size_t C, std::size_t K> M<R, K> operator*(const M<R, C>& a, const M<C, K>& b) { M<R, K> r; for (int i = 0; i < R; ++i) for (int j = 0; j < K; ++j) { r.e[i][j] = 0; for (int k = 0; k < C; ++k) r.e[i][j] += a.e[i][k] * b.e[k][j]; } return r; }
template <std::size_t R, std::size_t C> M<R, C> lin(i64 s, const M<R, C>& a, i64 t, const M<R, C>& b) { M<R, C> r; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) r.e[i][j] = s * a.e[i][j] + t * b.e[i][j]; return r; }
template <std::size_t R, std::size_t C> M<C, R> tr(const M<R, C>& a) { M<C, R> r; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) r.e[j][i] = a.e[i][j]; return r; }
template <std::size_t R, std::size_t C> M<R - 1, C - 1> mi(const M<R, C>& a, int p, int q) { M<R - 1, C - 1> r; for (int i = 0; i < R - 1; ++i) for (int j = 0; j < C - 1; ++j) r.e[i][j] = a.e[i + (i >= p)][j + (j >= q)]; return r; }
inline i64 dt(const M<1, 1>& a) { return a.e[0][0]; }
template <std::size_t N> i64 dt(const M<N, N>& a) { i64 s = 0; for (int j = 0; j < N; ++j) if (a.e[0][j]) s += (j & 1 ? -1 : 1) * a.e[0][j] * dt(mi(a, 0, j)); return s; }
template <std::size_t N> M<N, N> adj(const M<N, N>& a) { M<N, N> r; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) r.e[j][i] = ((i + j) & 1 ? -1 : 1) * dt(mi(a, i, j)); return r; }
template <std::size_t R, std::size_t C> matrix<double, R, C> mk(const M<R, C>& a) { matrix<double, R, C> m; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) m[i][j] = a.e[i][j]; return m; }
template <std::size_t R, std::size_t C> M<R, C> rd(Dec& d, int K) { M<R, C> m; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) m.e[i][j] = i64(d(2 * K + 1)) - K; return m; }
template <std::size_t R, std::size_t C> std::string ms(const M<R, C>& a) { std::string s = "{"; for (int i = 0; i < R; ++i) { for (int j = 0; j < C; ++j) s += std::to_string(a.e[i][j]) + (j + 1 < C ? "," : ""); s += i + 1 < R ? ";" : "}"; } return s; }
template <std::size_t C, class E, std::size_t... I> bool eqs(const E& e, const double* w, std::index_sequence<I...>) { bool ok = true; int d[] = {0, (ok = ok && std::fabs((double)gx::get<I / C, I % C>(e) - w[I]) <= 1e-12 * std::max(1., std::fabs(w[I])), 0)...}; (void)d; return ok; }
template <std::size_t R, std::size_t C, class E> bool eq(const E& e, const M<R, C>& w, double k = 1) { double v[R * C]; for (int i = 0; i < R * C; ++i) v[i] = w.e[i / C][i % C] * k; return eqs<C>(e, v, std::make_index_sequence<R * C>()); }
// An expression e holds w (times k) when it is read, stored with <<=, and constructed.
#define ME(R, C, e, w, k) do { auto&& want = (w); matrix<double, R, C> r1; r1 <<= e; auto r2 = construct<matrix<double, R, C>>(e); x.check(eq(e, want, k) && eq(r1, want, k) && eq(r2, want, k), #e " is not %s * %g", ms(want).c_str(), (double)(k)); } while (0)
template <std::size_t N, std::size_t C, class T> static bool rows(const matrix<T, N, C>& m, const M<N, C>& a) { return gx::get<0>(row<matrix<T, N, C>, 0>(m)) == a.e[0][0] && gx::get<C - 1>(row<matrix<T, N, C>, 0>(m)) == a.e[0][C - 1] && gx::get<0>(row<matrix<T, N, C>, N - 1>(m)) == a.e[N - 1][0] && gx::get<C - 1>(row<matrix<T, N, C>, N - 1>(m)) == a.e[N - 1][C - 1] && gx::get<0>(column<matrix<T, N, C>, C - 1>(m)) == a.e[0][C - 1] && gx::get<N - 1>(column<matrix<T, N, C>, C - 1>(m)) == a.e[N - 1][C - 1] && gx::get<N - 1>(column<matrix<T, N, C>, 0>(m)) == a.e[N - 1][0]; }
template <std::size_t N> static void det_inv(const M<N, N>& a, Ctx& x) {
    auto m = mk(a); i64 D = dt(a); x.check(gx::get(det(m)) == D && determinant(m) == D, "det %g, true %lld", gx::get(det(m)), D); i64 t = 0; for (int k = 0; k < N; ++k) t += a.e[k][k]; x.check(trace(m) == t, "trace"); ME(N, N, trans(m), tr(a), 1); x.check(gx::get(det(trans(m))) == D, "det of the transpose"); x.outcome(D ? "regular" : "singular");
    if (D) { auto A = adj(a); ME(N, N, inv(m), A, 1. / D); matrix<double, N, N> p; p <<= m * inv(m); bool ok = true; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) ok = ok && std::fabs(p[i][j] - (i == j)) < 1e-12; x.check(ok, "m * inv(m) is not the identity"); }
    else { bool thrown = false; matrix<double, N, N> r; try { r <<= inv(m); } catch (const std::logic_error&) { thrown = true; } x.check(thrown, "inverse of a singular matrix"); }
    // LUP: row pi[i] of the matrix is row i of L * U with |multipliers| <= 1; a singular matrix throws or has a zero on the diagonal
    matrix<double, N, N> lu = m; boost::array<std::size_t, N> pi; bool thrown = false; try { lup_decomposition(lu, pi); } catch (const std::logic_error&) { thrown = true; }
    if (thrown) x.check(D == 0, "lup_decomposition rejects a regular matrix"); else { double md = 1; unsigned seen = 0; bool ok = true; for (int i = 0; i < N; ++i) { md *= lu[i][i]; seen |= 1u << pi[i]; for (int j = 0; j < N; ++j) { double s = 0; for (int k = 0; k <= std::min(i, j); ++k) s += (k == i ? 1 : lu[i][k]) * lu[k][j]; ok = ok && std::fabs(s - a.e[pi[i] % N][j]) < 1e-9; if (j < i) ok = ok && std::fabs(lu[i][j]) <= 1 + 1e-12; } } x.check(ok && seen == (1u << N) - 1, "lup_decomposition does not factor the matrix"); x.check(std::fabs(std::fabs(md) - std::llabs(D)) < 1e-6 * std::max<double>(1, std::llabs(D)), "product of the pivots %g, determinant %lld", md, D); }
    x.state(mc::H(D, t, a.e[0][0], a.e[0][N - 1], a.e[N - 1][0])); }
template <std::size_t N> static void one(u64 i, Ctx& x, int K) { Dec d(i); auto a = rd<N, N>(d, K); x.in("%s", ms(a).c_str()); det_inv<N>(a, x); }
MC_SPACE("det2", "determinant, inverse, transpose, trace and LUP of all 2x2 matrices with entries of {-4..4}", 6561, [](u64 i, Ctx& x) { one<2>(i, x, 4); });
MC_SPACE("det3", "the same for all 3x3 matrices with entries of {-1..1}", 19683, [](u64 i, Ctx& x) { one<3>(i, x, 1); });
MC_SPACE("det3w", "the same for all 3x3 matrices with entries of {-2..2}", 1953125, [](u64 i, Ctx& x) { one<3>(i, x, 2); });
MC_SPACE("det4", "the same for all 0/1 4x4 matrices and all with two entries replaced by 2 and -3", 65536ull * 17, [](u64 i, Ctx& x) { Dec d(i); M<4, 4> a; int k = d(17); for (int j = 0; j < 16; ++j) a.e[j / 4][j % 4] = d(2); if (k) { a.e[(k - 1) / 4][(k - 1) % 4] = 2; a.e[(k + 4) % 16 / 4][(k + 4) % 4] = -3; } x.in("%s", ms(a).c_str()); det_inv<4>(a, x); });
MC_SPACE("det4w", "all 4x4 matrices with entries of {-1..1}", 0, 43046721ull, [](u64 i, Ctx& x) { one<4>(i, x, 1); });
MC_SPACE("perm5", "all 5x5 products of a permutation with every choice of 3 of 6 unit shears", 120ull * 216, [](u64 i, Ctx& x) {
    Dec d(i); int p[5], q = d(120), u[5] = {0, 1, 2, 3, 4}; for (int k = 0; k < 5; ++k) { int f[] = {24, 6, 2, 1, 1}; int c = q / f[k]; q %= f[k]; p[k] = u[c]; for (int j = c; j < 4; ++j) u[j] = u[j + 1]; } M<5, 5> a = {}; for (int k = 0; k < 5; ++k) a.e[k][p[k]] = k == 2 ? -2 : 1;
    static const int S[6][3] = {{0, 1, 2}, {3, 0, -1}, {4, 2, 3}, {1, 4, -2}, {2, 3, 1}, {0, 4, 1}}; for (int k = 0; k < 3; ++k) { auto s = S[d(6)]; for (int j = 0; j < 5; ++j) a.e[s[0]][j] += s[2] * a.e[s[1]][j]; } x.in("%s", ms(a).c_str()); det_inv<5>(a, x); });
// sums and products of all pairs
template <std::size_t R, std::size_t C, std::size_t K> static void triple(const M<R, C>& a, const M<C, K>& b, Ctx& x, std::true_type) { auto m = mk(a); auto n = mk(b); ME(R, C, (m * n) * trans(n), a * b * tr(b), 1); }
template <std::size_t R, std::size_t C, std::size_t K> static void triple(const M<R, C>&, const M<C, K>&, Ctx&, std::false_type) {}
template <std::size_t R, std::size_t C, std::size_t K> static void prod(const M<R, C>& a, const M<C, K>& b, i64 s, Ctx& x) {
    auto m = mk(a); auto n = mk(b); double t = s; x.check(rows(m, a) && rows(n, b), "rows and columns"); ME(R, K, m * n, a * b, 1); ME(K, R, trans(m * n), tr(a * b), 1); ME(K, R, trans(n) * trans(m), tr(a * b), 1); ME(R, K, -(m * n), lin(-1, a * b, 0, a * b), 1); ME(R, C, t * m, lin(s, a, 0, a), 1); ME(R, C, m * t, lin(s, a, 0, a), 1); ME(R, C, m / 4., a, .25); ME(R, C, m + t * m, lin(1, a, s, a), 1); ME(R, C, (m - t * m) - m, lin(-s, a, 0, a), 1); ME(R, K, (m + m) * n, lin(2, a * b, 0, a * b), 1); triple(a, b, x, std::integral_constant<bool, (K > 1)>()); ME(R, C, -m, lin(-1, a, 0, a), 1); }
template <std::size_t R, std::size_t C, std::size_t K> static void pairs(u64 i, Ctx& x, int k) { Dec d(i); i64 s = i64(d(3)) * 2 - 3; auto a = rd<R, C>(d, k); auto b = rd<C, K>(d, k); x.in("%s %s, %lld", ms(a).c_str(), ms(b).c_str(), s); prod<R, C, K>(a, b, s, x); x.state(mc::H(i, R, C, K)); }
MC_SPACE("p222", "expressions over all pairs of 2x2 matrices with entries of {-2..2}", 3ull * 390625, [](u64 i, Ctx& x) { pairs<2, 2, 2>(i, x, 2); });
MC_SPACE("p232", "all pairs of a 2x3 and a 3x2 matrix with entries of {-1..1}", 3ull * 531441, [](u64 i, Ctx& x) { pairs<2, 3, 2>(i, x, 1); });
MC_SPACE("p123", "all pairs of a 1x2 and a 2x3 matrix with entries of {-2..2}", 3ull * 390625, [](u64 i, Ctx& x) { pairs<1, 2, 3>(i, x, 2); });
MC_SPACE("p321", "all pairs of a 3x2 and a 2x1 matrix with entries of {-2..2}", 3ull * 390625, [](u64 i, Ctx& x) { pairs<3, 2, 1>(i, x, 2); });
MC_SPACE("p323", "all pairs of a 3x2 and a 2x3 matrix with entries of {-1..1}", 3ull * 531441, [](u64 i, Ctx& x) { pairs<3, 2, 3>(i, x, 1); });
MC_SPACE("p333", "all 3x3 matrices with entries of {-1..1} and 27 others", 3ull * 19683 * 27, [](u64 i, Ctx& x) { Dec d(i); i64 s = i64(d(3)) * 2 - 3; auto a = rd<3, 3>(d, 1); int k = d(27); M<3, 3> b; for (int j = 0; j < 9; ++j) b.e[j / 3][j % 3] = (j * j * 5 + k * (j + 2) + k / 5) % 7 - 3; x.in("%s %s, %lld", ms(a).c_str(), ms(b).c_str(), s); prod<3, 3, 3>(a, b, s, x); ME(3, 3, mk(a) + mk(b), lin(1, a, 1, b), 1); auto m = mk(a), n = mk(b); ME(3, 3, (m + n) * (m - n), lin(1, a, 1, b) * lin(1, a, -1, b), 1); m <<= m * n; x.check(eq(m, a * b), "m <<= m * n"); m <<= trans(m); x.check(eq(m, tr(a * b)), "m <<= trans(m)"); m <<= n - m; x.check(eq(m, lin(1, b, -1, tr(a * b))), "m <<= n - m"); x.check(gx::get(det(n * mk(a))) == dt(a) * dt(b), "det of a product"); x.state(mc::H(i)); });
// matrices with vectors and points, tensor products, minors, identities
MC_SPACE("vectors", "all 2x2 matrices with entries of {-2..2} and all vectors of {-2..2}^2", 625ull * 25, [](u64 i, Ctx& x) { Dec d(i); auto a = rd<2, 2>(d, 2); auto v = rd<2, 1>(d, 2); x.in("%s %s", ms(a).c_str(), ms(v).c_str()); auto m = mk(a); V2 w(v.e[0][0], v.e[1][0]); P2 p(v.e[0][0], v.e[1][0]); auto r = a * v; V2 g; g <<= m * w; P2 q; q <<= m * p; x.check(g[0] == r.e[0][0] && g[1] == r.e[1][0] && q[0] == g[0] && q[1] == g[1], "matrix times vector"); auto l = tr(v) * a; ME(1, 2, w * m, l, 1); g <<= m * (m * w) - w; auto rr = a * r; x.check(g[0] == rr.e[0][0] - v.e[0][0] && g[1] == rr.e[1][0] - v.e[1][0], "m * (m * w) - w"); w <<= m * w; x.check(w[0] == r.e[0][0] && w[1] == r.e[1][0], "w <<= m * w"); w = m * w; x.check(w[0] == rr.e[0][0] && w[1] == rr.e[1][0], "w = m * w"); p = m * p; x.check(p[0] == r.e[0][0] && p[1] == r.e[1][0], "p = m * p"); x.state(mc::H(i)); });
MC_SPACE("vectors3", "all 3x3 matrices with entries of {-1..1} and all vectors of {-1..1}^3", 19683ull * 27, [](u64 i, Ctx& x) { Dec d(i); auto a = rd<3, 3>(d, 1); auto v = rd<3, 1>(d, 1); x.in("%s %s", ms(a).c_str(), ms(v).c_str()); auto m = mk(a); V3 w(v.e[0][0], v.e[1][0], v.e[2][0]); P3 p(w[0], w[1], w[2]); auto r = a * v; V3 g; g <<= m * w; P3 q; q <<= m * p; bool ok = true; for (int k = 0; k < 3; ++k) ok = ok && g[k] == r.e[k][0] && q[k] == g[k]; x.check(ok, "matrix times vector"); auto l = tr(v) * a; ME(1, 3, w * m, l, 1); double s; s <<= w * (m * w); auto o = tr(v) * r; x.check(s == o.e[0][0], "w * (m * w)"); x.state(mc::H(i)); });
MC_SPACE("tensor", "tensor products of all pairs of vectors of {-2..2}^3 and of 2x2 matrices with entries of {-1..1}", 15625 + 6561, [](u64 i, Ctx& x) { if (i < 15625) { Dec d(i); auto a = rd<3, 1>(d, 2), b = rd<3, 1>(d, 2); x.in("%s %s", ms(a).c_str(), ms(b).c_str()); V3 v(a.e[0][0], a.e[1][0], a.e[2][0]), w(b.e[0][0], b.e[1][0], b.e[2][0]); auto c = as_column_vector(v); auto rw = as_row_vector(w); double e = 0;  e += std::fabs(gx::get<0, 0>(c) - v[0]) + std::fabs(gx::get<1, 0>(c) - v[1]) + std::fabs(gx::get<2, 0>(c) - v[2]) + std::fabs(gx::get<0, 0>(rw) - w[0]) + std::fabs(gx::get<0, 1>(rw) - w[1]) + std::fabs(gx::get<0, 2>(rw) - w[2]); x.check(e == 0, "column and row vector"); } else { Dec d(i - 15625); auto a = rd<2, 2>(d, 1), b = rd<2, 2>(d, 1); x.in("%s %s", ms(a).c_str(), ms(b).c_str()); auto m = mk(a), n = mk(b); M<4, 4> k; for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) k.e[r][c] = a.e[r / 2][c / 2] * b.e[r % 2][c % 2]; ME(4, 4, m & n, k, 1); } x.state(mc::H(i)); });
template <std::size_t P, std::size_t Q> static void minor_(Ctx& x, const matrix<double, 4, 3>& m, const M<4, 3>& a) { auto w = mi(a, P, Q); x.check(eq(matrix_minor<matrix<double, 4, 3>, P, Q>(m), w) && eq(as_matrix_minor<P, Q>(m), w), "minor %d,%d", P, Q); }
MC_SPACE("minors", "all minors of 0/1 4x3 matrices; products of identities with all 2x3 matrices of {-1..1}", 4096 + 729, [](u64 i, Ctx& x) { if (i < 4096) { M<4, 3> a; for (int j = 0; j < 12; ++j) a.e[j / 3][j % 3] = (i >> j & 1) * (j + 1); x.in("%s", ms(a).c_str()); auto m = mk(a); minor_<0, 0>(x, m, a); minor_<0, 1>(x, m, a); minor_<0, 2>(x, m, a); minor_<1, 0>(x, m, a); minor_<1, 1>(x, m, a); minor_<2, 2>(x, m, a); minor_<3, 0>(x, m, a); minor_<3, 1>(x, m, a); minor_<3, 2>(x, m, a); minor_<2, 1>(x, m, a); }
    else { Dec d(i - 4096); auto a = rd<2, 3>(d, 1); auto m = mk(a); x.in("%s", ms(a).c_str()); identity_matrix<double, 3, 3> id; for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) x.check(id[r][c] == (r == c) && id.get(r, c) == (r == c), "identity"); x.check(id.get<1, 1>() == 1 && id.get<1, 2>() == 0 && id.get<2, 0>() == 0, "identity"); } x.state(mc::H(i)); });
