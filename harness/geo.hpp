// Shared parts of the reference models: exact integer/rational geometry and the frames in which
// integer configurations are handed to the library.
#pragma once
#include "mc.hpp"
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/tensor/vector.hpp>
#include <geometrix/algebra/expression.hpp>
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/numeric/number_comparison_policy.hpp>
#include <array>
#include <vector>

namespace gx = geometrix;
using mc::u64; using mc::i64; using mc::Ctx; using mc::Dec;

using V2 = gx::vector<double, 2>;
using P2 = gx::point<double, 2>;
using V3 = gx::vector<double, 3>;
using P3 = gx::point<double, 3>;
using S2 = gx::segment<P2>;
using S3 = gx::segment<P3>;
using G2 = gx::polygon<P2>;
using L2 = gx::polyline<P2>;
using G3 = gx::polygon<P3>;
using L3 = gx::polyline<P3>;
using AbsCmp = gx::absolute_tolerance_comparison_policy<double>;
using FracCmp = gx::fraction_tolerance_comparison_policy<double>;

// ---- exact integer points -------------------------------------------------------------------
struct I2 { i64 x, y; bool operator==(I2 o) const { return x == o.x && y == o.y; } bool operator!=(I2 o) const { return !(*this == o); }
            bool operator<(I2 o) const { return x < o.x || (x == o.x && y < o.y); } };
inline I2 operator-(I2 a, I2 b) { return {a.x - b.x, a.y - b.y}; }
inline I2 operator+(I2 a, I2 b) { return {a.x + b.x, a.y + b.y}; }
inline I2 operator*(i64 k, I2 a) { return {k * a.x, k * a.y}; }
inline i64 cross(I2 a, I2 b) { return a.x * b.y - a.y * b.x; }
inline i64 dot(I2 a, I2 b) { return a.x * b.x + a.y * b.y; }
inline i64 orient(I2 a, I2 b, I2 c) { return cross(b - a, c - a); }
inline int sgn(i64 v) { return (v > 0) - (v < 0); }
inline int sgn(double v) { return (v > 0) - (v < 0); }
struct I3 { i64 x, y, z; bool operator==(I3 o) const { return x == o.x && y == o.y && z == o.z; } bool operator!=(I3 o) const { return !(*this == o); }
            bool operator<(I3 o) const { return x != o.x ? x < o.x : y != o.y ? y < o.y : z < o.z; } };
inline I3 operator-(I3 a, I3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline I3 operator+(I3 a, I3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline I3 operator*(i64 k, I3 a) { return {k * a.x, k * a.y, k * a.z}; }
inline i64 dot(I3 a, I3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline I3 cross(I3 a, I3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }

// ---- exact rationals ------------------------------------------------------------------------
using i128 = __int128;
struct Q {
    i128 n, d;
    static i128 gcd(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a ? a : 1; }
    Q(i64 v = 0) : n(v), d(1) {}
    Q(i128 a, i128 b) : n(a), d(b) { if (d < 0) { n = -n; d = -d; } i128 g = gcd(n, d); n /= g; d /= g; }
    double dbl() const { return double((long double)n / (long double)d); }
    int sg() const { return (n > 0) - (n < 0); }
};
inline Q operator+(Q a, Q b) { return Q(a.n * b.d + b.n * a.d, a.d * b.d); }
inline Q operator-(Q a, Q b) { return Q(a.n * b.d - b.n * a.d, a.d * b.d); }
inline Q operator*(Q a, Q b) { return Q(a.n * b.n, a.d * b.d); }
inline Q operator/(Q a, Q b) { return Q(a.n * b.d, a.d * b.n); }
inline bool operator==(Q a, Q b) { return a.n == b.n && a.d == b.d; }
inline bool operator!=(Q a, Q b) { return !(a == b); }
inline bool operator<(Q a, Q b) { return a.n * b.d < b.n * a.d; }
inline bool operator<=(Q a, Q b) { return !(b < a); }
inline bool operator>(Q a, Q b) { return b < a; }
inline bool operator>=(Q a, Q b) { return !(a < b); }
inline Q qmin(Q a, Q b) { return b < a ? b : a; }
inline Q qmax(Q a, Q b) { return a < b ? b : a; }
struct Q2 { Q x, y; Q2() {} Q2(Q a, Q b) : x(a), y(b) {} Q2(I2 p) : x(p.x), y(p.y) {}
            bool operator==(const Q2& o) const { return x == o.x && y == o.y; } bool operator!=(const Q2& o) const { return !(*this == o); }
            bool operator<(const Q2& o) const { return x < o.x || (x == o.x && y < o.y); } };
inline Q2 operator+(Q2 a, Q2 b) { return {a.x + b.x, a.y + b.y}; }
inline Q2 operator-(Q2 a, Q2 b) { return {a.x - b.x, a.y - b.y}; }
inline Q2 operator*(Q k, Q2 a) { return {k * a.x, k * a.y}; }
inline Q cross(Q2 a, Q2 b) { return a.x * b.y - a.y * b.x; }
inline Q dot(Q2 a, Q2 b) { return a.x * b.x + a.y * b.y; }

// ---- frames: similarity maps from integer (or rational) model coordinates to library input -----
struct Frame {
    const char* name;
    double a, b, c, d;     // linear part, row major
    double tx, ty;
    double scale;          // length factor
    int orient;            // +1 keeps, -1 flips orientation
    bool exact;            // images of integer points are exact doubles
    P2 operator()(double x, double y) const { return P2(a * x + b * y + tx, c * x + d * y + ty); }
    P2 operator()(I2 p) const { return (*this)(double(p.x), double(p.y)); }
    P2 operator()(const Q2& p) const { return (*this)(p.x.dbl(), p.y.dbl()); }
    V2 vec(I2 p) const { return V2(a * p.x + b * p.y, c * p.x + d * p.y); }
};
static const Frame FR[] = {
    {"id",       1, 0, 0, 1,        0, 0,          1, 1, true},
    {"small90",  0, -1. / 4096, 1. / 4096, 0, -2, 7,       1. / 4096, 1, true},
    {"mirror",   1, 0, 0, -1,       -1, -1,        1, -1, true},
    {"big",      1024, 0, 0, 1024,  50000, -30000, 1024, 1, true},
    {"small",    1. / 64, 0, 0, 1. / 64, -.5, .25, 1. / 64, 1, true},
    {"rot345",   .6, -.8, .8, .6,   .1, -.3,       1, 1, false},
    {"tenth",    .1, 0, 0, .1,      1000.3, -700.7, .1, 1, false},
    {"rot8-15",  8. / 17 * 3, 15. / 17 * 3, 15. / 17 * 3, -8. / 17 * 3, -11.1, 5.7, 3, -1, false},
    // affine only: for properties which do not depend on lengths and angles
    {"flat",     1024, 0, 0, 1,     -2, 7,         1, 1, true},
    {"shear",    1, 256, 0, 1,      -2, 7,         1, 1, true},
};
static const int NFR = 8, NAF = 10;

struct Frame3 {
    const char* name;
    double m[9]; double t[3]; double scale; int orient; bool exact;
    P3 operator()(double x, double y, double z) const { return P3(m[0] * x + m[1] * y + m[2] * z + t[0], m[3] * x + m[4] * y + m[5] * z + t[1], m[6] * x + m[7] * y + m[8] * z + t[2]); }
    P3 operator()(I3 p) const { return (*this)(double(p.x), double(p.y), double(p.z)); }
    V3 vec(I3 p) const { double x = p.x, y = p.y, z = p.z; return V3(m[0] * x + m[1] * y + m[2] * z, m[3] * x + m[4] * y + m[5] * z, m[6] * x + m[7] * y + m[8] * z); }
};
static const Frame3 FR3[] = {
    {"id3",   {1, 0, 0, 0, 1, 0, 0, 0, 1}, {0, 0, 0}, 1, 1, true},
    {"perm3", {0, 0, 1, 1, 0, 0, 0, 1, 0}, {-3, 2, 5}, 1, 1, true},
    {"scale3", {-.25, 0, 0, 0, .25, 0, 0, 0, .25}, {100, -50, 7}, .25, -1, true},
    {"rot3",  {2. / 3, -1. / 3, 2. / 3, 2. / 3, 2. / 3, -1. / 3, -1. / 3, 2. / 3, 2. / 3}, {.1, .2, -.3}, 1, 1, false},
};
static const int NFR3 = 4;

static int NM = 0; // distance of the pairs of columns in a Near (below)
inline double X(const P2& p) { return gx::get<0>(p); }
inline double Y(const P2& p) { return gx::get<1>(p); }
inline double X(const P3& p) { return gx::get<0>(p); }
inline double Y(const P3& p) { return gx::get<1>(p); }
inline double Z(const P3& p) { return gx::get<2>(p); }
inline double dist(const P2& a, const P2& b) { return std::hypot(X(a) - X(b), Y(a) - Y(b)); }
inline double dist(const P3& a, const P3& b) { return std::sqrt((X(a) - X(b)) * (X(a) - X(b)) + (Y(a) - Y(b)) * (Y(a) - Y(b)) + (Z(a) - Z(b)) * (Z(a) - Z(b))); }
inline bool same(const P2& a, const P2& b, double tol = NM ? 1e-7 : 1e-9) { return dist(a, b) <= tol * std::max(1.0, std::max(std::fabs(X(a)), std::fabs(Y(a)))); }
inline bool same(const P3& a, const P3& b, double tol = 1e-9) { return dist(a, b) <= tol * std::max({1.0, std::fabs(X(a)), std::fabs(Y(a)), std::fabs(Z(a))}); }

// point number k of the W x H grid
// (in a Stretch all abscissas are multiplied: long thin shapes, nearly parallel and nearly collinear)
static int SX = 1;
struct Stretch { explicit Stretch(int k) { SX = k; } ~Stretch() { SX = 1; } };
// (in a Near the columns and rows come in pairs one step apart, the pairs M steps apart: near coincidences)
struct Near { explicit Near(int m) { NM = m; } ~Near() { NM = 0; } };
inline i64 near_(int v) { return NM ? i64(v >> 1) * NM + (v & 1) : v; }
inline I2 gp(int k, int W) { return {near_(k % W) * SX, near_(k / W)}; }
// doubled coordinates lo..2 W + hi (in a Near: of the columns, half a step before, on and after each)
inline std::vector<int> half_coords(int W, int lo = -2, int hi = 0) {
    std::vector<int> v; if (!NM) { for (int k = lo; k <= 2 * W + hi; ++k) v.push_back(k); return v; }
    for (int k = 0; k < W; ++k) for (int e = -1; e < 2; ++e) v.push_back(2 * int(near_(k)) + e);
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
}
inline I3 gp3(int k, int W) { return {k % W, (k / W) % W, k / W / W}; }
#define PF "(%lld,%lld)"
#define PA(p) (long long)(p).x, (long long)(p).y
#define PF3 "(%lld,%lld,%lld)"
#define PA3(p) (long long)(p).x, (long long)(p).y, (long long)(p).z
inline std::string str(const std::vector<I2>& v) { std::string s; char b[64]; if (v.size() > 1000) return std::to_string(v.size()) + " points"; for (auto p : v) { snprintf(b, sizeof b, PF, PA(p)); s += b; } return s; }
inline std::string str(const std::vector<I3>& v) { std::string s; char b[64]; for (auto p : v) { snprintf(b, sizeof b, PF3, PA3(p)); s += b; } return s; }

// ---- exact planar predicates ----------------------------------------------------------------
inline bool on_seg(I2 a, I2 b, I2 p) { return orient(a, b, p) == 0 && dot(a - p, b - p) <= 0; }
inline bool segs_meet(I2 a, I2 b, I2 c, I2 d) {
    int o1 = sgn(orient(a, b, c)), o2 = sgn(orient(a, b, d)), o3 = sgn(orient(c, d, a)), o4 = sgn(orient(c, d, b));
    if (o1 != o2 && o3 != o4 && o1 * o2 <= 0 && o3 * o4 <= 0) return true;
    return on_seg(a, b, c) || on_seg(a, b, d) || on_seg(c, d, a) || on_seg(c, d, b);
}
// closed ring; 1 inside, 0 on the border, -1 outside
inline int ring_side(const std::vector<I2>& r, I2 p) {
    int n = r.size(); bool in = false;
    for (int i = 0; i < n; ++i) {
        I2 a = r[i], b = r[(i + 1) % n];
        if (on_seg(a, b, p)) return 0;
        if ((a.y > p.y) != (b.y > p.y)) { i64 o = orient(a, b, p); if ((b.y > a.y) == (o > 0)) in = !in; }
    }
    return in ? 1 : -1;
}
inline i64 area2(const std::vector<I2>& r) { i64 s = 0; int n = r.size(); for (int i = 0; i < n; ++i) s += cross(r[i], r[(i + 1) % n]); return s; }
// simple: no repeated vertex, no two non-adjacent edges meet, adjacent edges share only their vertex
inline bool ring_simple(const std::vector<I2>& r) {
    int n = r.size();
    if (n < 3) return false;
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (r[i] == r[j]) return false;
    for (int i = 0; i < n; ++i) {
        I2 a = r[i], b = r[(i + 1) % n], c = r[(i + 2) % n];
        if (orient(a, b, c) == 0 && dot(a - b, c - b) > 0) return false;
        for (int j = i + 2; j < n; ++j) { if (i == 0 && j == n - 1) continue; if (segs_meet(a, b, r[j], r[(j + 1) % n])) return false; }
    }
    return area2(r) != 0;
}
// squared distance from p to the segment ab, exact; at = parameter of the closest point
inline Q seg_dist2(Q2 a, Q2 b, Q2 p, Q* at = nullptr) {
    Q2 v = b - a; Q l = dot(v, v); Q t(0);
    if (l.sg() != 0) { t = dot(p - a, v) / l; if (t.sg() < 0) t = Q(0); if (t > Q(1)) t = Q(1); }
    if (at) *at = t;
    if (t.sg() > 0 && t < Q(1)) { Q c = v.x * (p.y - a.y) - v.y * (p.x - a.x); return c * c / l; }
    Q2 c = a + t * v; Q2 w = p - c;
    return dot(w, w);
}
inline Q seg_seg_dist2(I2 a, I2 b, I2 c, I2 d) {
    if (segs_meet(a, b, c, d)) return Q(0);
    return qmin(qmin(seg_dist2(a, b, c), seg_dist2(a, b, d)), qmin(seg_dist2(c, d, a), seg_dist2(c, d, b)));
}
template <class C> inline C mk(const std::vector<I2>& v, const Frame& f) { C c; for (auto p : v) c.push_back(f(p)); return c; }
// all simple rings with k vertices on the W x H grid; canonical: starting at the smallest vertex (both windings)
inline std::vector<std::vector<I2>> simple_rings(int k, int W, int H, bool canonical = true) {
    std::vector<std::vector<I2>> out; int n = W * H; u64 tot = 1; for (int i = 0; i < k; ++i) tot *= n;
    std::vector<I2> r(k);
    std::function<void(int)> rec = [&](int j) {
        if (j == k) { if (ring_simple(r)) out.push_back(r); return; }
        for (int v = 0; v < n; ++v) {
            r[j] = gp(v, W);
            if (canonical && j && !(r[0] < r[j])) continue;
            bool dup = false; for (int q = 0; q < j; ++q) dup |= r[q] == r[j];
            if (dup) continue;
            bool bad = false;
            for (int q = 0; j && q + 1 < j - 1; ++q) if (segs_meet(r[q], r[q + 1], r[j - 1], r[j])) { bad = true; break; }
            if (!bad) rec(j + 1);
        }
    };
    rec(0);
    return out;
}
inline bool ring_convex_ccw(const std::vector<I2>& r, bool strict = true) {
    int n = r.size();
    if (area2(r) <= 0 || !ring_simple(r)) return false;
    for (int i = 0; i < n; ++i) { i64 o = orient(r[i], r[(i + 1) % n], r[(i + 2) % n]); if (o < 0 || (strict && o == 0)) return false; }
    return true;
}
// location of a rational point
inline int ring_side(const std::vector<I2>& r, const Q2& p) {
    int n = r.size(); bool in = false;
    for (int i = 0; i < n; ++i) {
        Q2 a = r[i], b = r[(i + 1) % n];
        Q o = cross(b - a, p - a);
        if (o.sg() == 0 && dot(a - p, b - p).sg() <= 0) return 0;
        if ((a.y > p.y) != (b.y > p.y)) { if ((b.y > a.y) == (o.sg() > 0)) in = !in; }
    }
    return in ? 1 : -1;
}
// parameters where pq meets the border of r, with 0 and 1, sorted, distinct; touch = meets the border at all
inline std::vector<Q> ring_cuts(const std::vector<I2>& r, I2 p, I2 q, bool* touch = nullptr) {
    std::vector<Q> c; int n = r.size(); i64 l = dot(q - p, q - p);
    for (int i = 0; i < n; ++i) {
        I2 a = r[i], b = r[(i + 1) % n];
        i64 den = cross(q - p, b - a);
        if (den) { Q s(cross(a - p, b - a), den), t(cross(a - p, q - p), den); if (s >= Q(0) && s <= Q(1) && t >= Q(0) && t <= Q(1)) c.push_back(s); }
        else if (orient(p, q, a) == 0) { for (I2 e : {a, b}) { Q s(dot(e - p, q - p), l); if (s >= Q(0) && s <= Q(1)) c.push_back(s); } if (on_seg(a, b, p)) c.push_back(Q(0)); if (on_seg(a, b, q)) c.push_back(Q(1)); }
    }
    if (touch) *touch = !c.empty();
    c.push_back(Q(0)); c.push_back(Q(1));
    std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end());
    return c;
}
// does the closed segment leave the closed ring
inline bool seg_in_ring(const std::vector<I2>& r, I2 p, I2 q) {
    if (ring_side(r, p) < 0 || ring_side(r, q) < 0) return false;
    auto c = ring_cuts(r, p, q);
    for (std::size_t i = 0; i + 1 < c.size(); ++i) { Q m = (c[i] + c[i + 1]) * Q(1, 2); if (ring_side(r, Q2(p) + m * Q2(q - p)) < 0) return false; }
    return true;
}

// size families: simple rings and simple chains of n >= 6 lattice points, for what depends on the number of vertices
static const int NRING = 6, NCHAIN = 6;
// the number of vertices for a digit, and which kinds stay small and convex or simple enough for the largest ones
inline int big_n(u64 k) { static const int L[4] = {33, 66, 131, 259}; return k < 40 ? 6 + int(k) : L[(k - 40) % 4]; }
inline bool big_ok(int kind, int n) { return n <= 45 || kind == 0 || kind == 3 || kind == 4 || kind == 6 || kind == 7 || kind == 8 || kind == 11; }
inline std::vector<I2> big_ring(int kind, int n) {
    std::vector<I2> r; auto circ = [&](double a, double rx, double ry) { r.push_back({i64(std::lround(rx * std::cos(a))), i64(std::lround(ry * std::sin(a)))}); };
    for (int j = 0; j < n; ++j) switch (kind) {
        case 0: r.push_back({j < n - 2 ? 2 * j : j == n - 2 ? 2 * n : -2, j < n - 2 ? 3 + (j & 1) * 2 + (j % 5 * j % 5 == 1) : 0}); break; // comb, clockwise
        case 1: circ(2 * M_PI * j / n, 60, 45); break;                                                                              // convex
        case 2: circ(2 * M_PI * j / n, j & 1 ? 20 : 60, j & 1 ? 15 : 45); break;                                                    // star
        case 3: r.push_back(j < n - 1 ? I2{(j + 1) / 2 * 2, j / 2 * 3} : I2{(j + 1) / 2 * 2 + 3, -2}); break;                       // stairs
        case 4: { int h = (n + 1) / 2, k = j < h ? j : n - 1 - j; r.push_back({3 * k + (j < h ? 0 : 1), 5 * (k & 1) + (j < h ? 0 : 3)}); break; } // ribbon
        default: r.push_back(j < n - 1 ? I2{j, i64(j) * j} : I2{-3, i64(n) * n / 2}); break;                                                  // parabola
    }
    return r;
}
inline std::vector<I2> big_chain(int kind, int n) {
    std::vector<I2> r; i64 x = 0, y = 0;
    for (int j = 0; j < n; ++j) switch (kind) {
        case 0: r.push_back({2 * j, 3 * (j & 1) + (j % 5 * j % 5 == 1)}); break;                                                        // zigzag
        case 1: r.push_back({x, y}); { i64 s = 2 * (j / 2 + 1); (j & 1 ? y : x) += j & 2 ? -s : s; } break;                          // square spiral
        case 2: r.push_back({(j + 1) / 2 * 2, j / 2 * 3}); break;                                                                   // stairs
        case 3: r.push_back({j, i64(j) * j}); break;                                                                                     // convex arc
        case 4: r.push_back({i64(j) * (j + 3) / 2, -i64(j) * (j + 3)}); break;                                                                // straight, growing steps
        default: r.push_back({3 * (j / 2) + (j & 1), (j / 4) * 2 + (j & 1)}); break;                                               // slanted saw
    }
    return r;
}
inline std::vector<I2> turned(std::vector<I2> r, int start, bool reversed) { std::rotate(r.begin(), r.begin() + start % r.size(), r.end()); if (reversed) std::reverse(r.begin(), r.end()); return r; }
// points around the vertices and edges of a doubled ring or chain (of some of them when there are many)
inline std::vector<I2> around(const std::vector<I2>& r, bool closed) {
    std::vector<I2> q; int n = r.size(); for (int i = 0; i < n; ++i) { if (n > 45 && i > 2 && i < n - 3 && (i + 1) % 32 > 2) continue; for (int k = 0; k < 9; ++k) q.push_back(r[i] + I2{k % 3 - 1, k / 3 - 1}); if (closed || i + 1 < n) { I2 s = r[i] + r[(i + 1) % n]; q.push_back({s.x / 2, s.y / 2}); q.push_back({s.x / 2 + 3, s.y / 2 - 2}); } }
    std::sort(q.begin(), q.end()); q.erase(std::unique(q.begin(), q.end()), q.end()); return q;
}
// sequences longer than 16 bits can count, and the places in them where counting goes wrong
static const int GIANT = 66001;
inline std::vector<int> far_places(int n) { std::vector<int> v; for (int c : {1, 128, 256, 32768, 65536, n - 2}) for (int e = -1; e < 3; ++e) if (c + e < n) v.push_back(c + e); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
inline std::vector<I2> far_around(const std::vector<I2>& r) { std::vector<I2> q; int n = r.size(); for (int i : far_places(n)) { for (int k = 0; k < 9; k += 2) q.push_back(r[i] + I2{k % 3 - 1, k / 3 - 1}); I2 s = r[i] + r[(i + 1) % n]; q.push_back({s.x / 2, s.y / 2}); q.push_back({s.x / 2 + 3, s.y / 2 - 2}); } return q; }
// every large ring (3 starting vertices) and chain, both directions, 6..25 or 6..45 vertices; empty: no such case
static const u64 BIGQ = 2 * 3 * 12 * 20, BIGT = 2 * 3 * 12 * 40;
#define BIG "combs, convex rings, stars, stairs, ribbons, parabolas, zigzags, spirals, arcs, straight chains, saws of 6..25 (thorough: 45) vertices, both directions, 3 starting vertices of the rings"
inline std::vector<I2> big_any(mc::Dec& d, bool* chain = nullptr) {
    bool rev = d(2); int st = d(3), kind = d(12), n = big_n(d.v); if (chain) *chain = kind >= 6;
    if ((kind >= 6 && st) || !big_ok(kind, n)) return {};
    return kind < 6 ? turned(big_ring(kind, n), st * n / 3, rev) : turned(big_chain(kind - 6, n), 0, rev);
}
